// histories of creation, flipping, erasure and queries of simplices, compared with a reference: looks for a failing history
// on the real code
// usage: replay_topology PROPERTY SEED HISTORIES
#include <algorithm>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <random>
#include <set>
#include <string>
#include <vector>
#include <unistd.h>
#include <mito/topology.h>
using namespace mito;
using namespace mito::topology;

static const char * prop;
static unsigned long seed;
static std::string trace;
[[noreturn]] static void fail(const std::string & what)
{
    std::printf("FAIL %s: %s\n  seed %lu, history: %s\n", prop, what.c_str(), seed, trace.c_str());
    std::fflush(stdout);
    _exit(1);
}
static void onsignal(int s)
{
    std::printf("FAIL %s: the code ends with signal %d\n  seed %lu, history: %s\n", prop, s, seed, trace.c_str());
    std::fflush(stdout);
    _exit(1);
}
#define REQUIRE(P, c, what)                                                                        \
    if (std::strstr(P, prop) && !(c))                                                              \
    fail(what)

static std::mt19937_64 rng;
static int rnd(int n) { return int(rng() % n); }

typedef std::vector<int> verts;
static int parity(const verts & v)
{
    int p = 1;
    for (size_t i = 0; i < v.size(); ++i)
        for (size_t j = i + 1; j < v.size(); ++j)
            if (v[i] > v[j])
                p = -p;
    return p;
}
static verts sorted(verts v)
{
    std::sort(v.begin(), v.end());
    return v;
}
static std::string show(const verts & v)
{
    std::string s = "(";
    for (int x : v)
        s += (s.size() > 1 ? "," : "") + std::to_string(x);
    return s + ")";
}

// an oriented simplex: the set of its vertices and the parity of their order (vertices: the orientation)
struct okey {
    verts v;
    int o;
    auto operator<=>(const okey &) const = default;
};
struct foot {
    const void * ptr;
    verts base;
    std::vector<okey> comp;
    std::map<int, const void *> oriented;
};
static std::map<verts, foot> model;
static std::vector<vertex_t> VX;
static long NS[4];        // oriented simplices

// the facets that an order of the vertices induces
static std::vector<verts> facets(const verts & v)
{
    if (v.size() == 3)
        return { { v[0], v[1] }, { v[1], v[2] }, { v[2], v[0] } };
    return { { v[0], v[1], v[2] }, { v[1], v[3], v[2] }, { v[3], v[1], v[0] }, { v[3], v[0], v[2] } };
}
static okey key(const verts & v) { return { sorted(v), parity(v) }; }

template <int N>
static simplex_t<N> handle(const okey & k)
{
    return simplex_t<N>((const OrientedSimplex<N> *) model.at(k.v).oriented.at(k.o));
}
static bool known(const okey & k)
{
    auto f = model.find(k.v);
    return f != model.end() && f->second.oriented.count(k.o);
}

template <int N>
static void enter(const okey & k, const void * raw)
{
    auto & f = model.at(k.v);
    if (!f.oriented.count(k.o)) {
        f.oriented[k.o] = raw;
        ++NS[N];
    }
}

// a vertex with an orientation
static void model_vertex(int v, int o)
{
    auto & f = model[{ v }];
    f.ptr = VX[v].operator->();
    if (!f.oriented.count(o))
        enter<0>({ { v }, o }, topology::topology().simplex(VX[v], o).operator->());
}

// the entries of the model that a request for a simplex creates
template <int N>
static void model_make(const verts & v, bool with_facets = true)
{
    okey k = key(v);
    bool isnew = !model.count(k.v);
    std::vector<okey> comp;
    if constexpr (N == 1) {
        if (with_facets) {
            model_vertex(v[0], -1);
            model_vertex(v[1], +1);
        }
        comp = { { { v[0] }, -1 }, { { v[1] }, +1 } };
    } else
        for (auto & f : facets(v)) {
            if (with_facets)
                model_make<N - 1>(f);
            comp.push_back(key(f));
        }
    if (isnew) {
        auto & f = model[k.v];
        f.ptr = nullptr;
        f.base = v;
        f.comp = comp;
    }
    auto & f = model.at(k.v);
    if (!f.oriented.count(k.o)) {
        f.oriented[k.o] = nullptr;
        ++NS[N];
    }
}

template <int N>
static std::vector<int> names(const simplex_t<N> & s)
{
    std::vector<int> r;
    for (const auto & x : s->vertices()) {
        int n = -1;
        for (size_t i = 0; i < VX.size(); ++i)
            if (VX[i] == x)
                n = int(i);
        r.push_back(n);
    }
    return r;
}

// fields of the registered simplices (by identity) and their canonical form
template <int N>
static void check_simplex(const okey & k)
{
    auto & f = model.at(k.v);
    auto s = handle<N>(k);
    if (f.ptr == nullptr)
        f.ptr = s->footprint().operator->();
    REQUIRE("T01 T02 T03 T04 T05", s->footprint().operator->() == f.ptr, "the footprint of " + show(k.v) + " is not the one it had");
    if constexpr (N > 0) {
        int o = s->orientation();
        REQUIRE("T01 T02 T03 T04", o == k.o * parity(f.base), "the orientation of " + show(k.v) + " is wrong");
        auto c = s->footprint()->composition();
        for (int i = 0; i <= N; ++i)
            REQUIRE("T03 T04 T05 T01", (const void *) c[i].operator->() == model.at(f.comp[i].v).oriented.at(f.comp[i].o), "the composition of " + show(k.v) + " changed");
        auto w = names<N>(s);
        for (int x : w)
            REQUIRE("T03 T04 T01", x >= 0, "unknown vertex of " + show(k.v));
        REQUIRE("T01 T03 T04 T05", sorted(w) == k.v, "the vertices of " + show(k.v) + " are " + show(w));
        REQUIRE("T01 T03 T04 T05", parity(w) == k.o, "the vertices of " + show(k.v) + " do not have its orientation");
        REQUIRE("T03 T04", s->sanityCheck() && s->footprint()->sanityCheck(), "the sanity check of " + show(k.v) + " fails");
        auto set = s->footprint()->vertices();
        REQUIRE("T03", set.size() == N + 1, "the footprint of " + show(k.v) + " has other vertices");
        for (int x : k.v)
            REQUIRE("T03", set.count(VX[x]), "the footprint of " + show(k.v) + " has other vertices");
        auto oc = s->composition();
        std::set<const void *> a, b;
        for (int i = 0; i <= N; ++i) {
            a.insert(c[i].operator->());
            b.insert(oc[i].operator->());
        }
        REQUIRE("T03", a == b, "the facets of " + show(k.v) + " are not those of its footprint");
        if constexpr (N > 1)
            REQUIRE("T03", isValid<N>(oc), "the composition of " + show(k.v) + " is not valid");
        REQUIRE("T03", (o == 1) == (oc[0] == c[0] && oc[1] == c[1]), "the composition of " + show(k.v) + " does not follow its orientation");
        if constexpr (N == 3) {
            std::set<simplex_t<1>> e;
            std::set<const void *> f;
            s->edges(e);
            for (auto & x : e)
                f.insert(x->footprint().operator->());
            REQUIRE("T03", f.size() == 6, "the edges of " + show(k.v) + " are wrong");
        }
        if constexpr (N == 2) {
            std::set<simplex_t<1>> e;
            s->edges(e);
            REQUIRE("T03", e.size() == 3, "the edges of " + show(k.v) + " are wrong");
        }
        if constexpr (N == 1) {
            REQUIRE("T03", tail(s) == s->composition()[0]->footprint() && head(s) == s->composition()[1]->footprint() && tail(s) == VX[w[0]] && head(s) == VX[w[1]],
                "head and tail of " + show(k.v) + " are wrong");
        }
    }
}

// the entries without a known address are found (they exist, or the checks fail)
template <int N>
static void bind_(const okey & k)
{
    auto & f = model.at(k.v);
    auto & fac = topology::topology()._get_factory<N>();
    if constexpr (N > 0) {
        if (f.ptr == nullptr) {
            simplex_composition_t<N> c;
            for (int i = 0; i <= N; ++i)
                c[i] = handle<N - 1>(f.comp[i]);
            auto u = fac._simplex_factory.findSimplex(c);
            if (u.is_nullptr())
                fail("the footprint of " + show(k.v) + " is not registered under its composition");
            f.ptr = u.operator->();
        }
    }
    unoriented_simplex_t<N> u((const Simplex<N> *) f.ptr);
    for (auto & [o, raw] : f.oriented)
        if (raw == nullptr) {
            int sign = N == 0 ? o : o * parity(f.base);
            auto s = fac.findOrientedSimplex(u, sign);
            if (s.is_nullptr())
                fail("the simplex " + show(k.v) + " is not registered");
            raw = s.operator->();
        }
}
static void bind_all()
{
    for (size_t n = 1; n <= 4; ++n)
        for (auto & [v, f] : model)
            if (v.size() == n)
                switch (n) {
                    case 1: bind_<0>({ v, 1 }); break;
                    case 2: bind_<1>({ v, 1 }); break;
                    case 3: bind_<2>({ v, 1 }); break;
                    case 4: bind_<3>({ v, 1 }); break;
                }
}

static void check()
{
    bind_all();
    std::set<const void *> feet, all;
    for (auto & [v, f] : model) {
        REQUIRE("T01 T02", feet.insert(f.ptr).second, "two simplices share a footprint: " + show(v));
        for (auto & [o, raw] : f.oriented) {
            REQUIRE("T01 T02", all.insert(raw).second, "two oriented simplices are the same: " + show(v));
            switch (v.size()) {
                case 1: check_simplex<0>({ v, o }); break;
                case 2: check_simplex<1>({ v, o }); break;
                case 3: check_simplex<2>({ v, o }); break;
                case 4: check_simplex<3>({ v, o }); break;
            }
        }
    }
    auto & t = topology::topology();
    REQUIRE("T01 T02 T04", t.n_simplices<0>() == NS[0], "the number of oriented vertices is wrong");
    REQUIRE("T01 T02 T04", t.n_simplices<1>() == NS[1], "the number of segments is wrong");
    REQUIRE("T01 T02 T04", t.n_simplices<2>() == NS[2], "the number of triangles is wrong");
    REQUIRE("T01 T02 T04", t.n_simplices<3>() == NS[3], "the number of tetrahedra is wrong");
}

template <int N>
static void returned(const verts & v, const simplex_t<N> & s)
{
    if (s.is_nullptr())
        fail("no simplex is returned for " + show(v));
    okey k = key(v);
    auto & f = model.at(k.v);
    auto & raw = f.oriented.at(k.o);
    if (raw == nullptr)
        raw = s.operator->();
    REQUIRE("T01 T02 T03 T04 T05", raw == s.operator->(), "another simplex is returned for " + show(v));
    if (f.ptr == nullptr)
        f.ptr = s->footprint().operator->();
}

template <int N>
static void make(const verts & v)
{
    trace += "make" + show(v) + " ";
    vertex_simplex_composition_t<N> a;
    for (int i = 0; i <= N; ++i)
        a[i] = VX[v[i]];
    auto s = topology::topology().simplex<N>(a);
    model_make<N>(v);
    returned<N>(v, s);
}

// from its facets, in the order that the vertices induce
template <int N>
static void make_comp(const verts & v)
{
    simplex_composition_t<N> c;
    int i = 0;
    for (auto & f : facets(v)) {
        if (!known(key(f)))
            make<N - 1>(f);
        bind_all();
        c[i++] = handle<N - 1>(key(f));
    }
    trace += "compose" + show(v) + " ";
    auto s = topology::topology().simplex<N>(c);
    model_make<N>(v, false);
    returned<N>(v, s);
}

template <int N>
static void erase_model(const okey & k, int mine)
{
    auto & f = model.at(k.v);
    int refs = 0;
    for (auto & [v, g] : model)
        for (auto & c : g.comp)
            refs += c == k;
    auto comp = f.comp;
    if (refs == 0) {
        f.oriented.erase(k.o);
        --NS[N];
        if (f.oriented.empty() && N > 0)
            model.erase(k.v);
    }
    if constexpr (N > 0)
        for (auto & c : comp)
            if (known(c))
                erase_model<N - 1>(c, 0);
}

template <int N>
static void erase_(const okey & k)
{
    trace += "erase" + show(k.v) + (k.o > 0 ? "+ " : "- ");
    {
        // (a handle to a facet is a use of the facet: none is kept)
        auto s = handle<N>(k);
        topology::topology().erase(s);
    }
    erase_model<N>(k, 1);
}

template <int N>
static void flip_(const okey & k)
{
    trace += "flip" + show(k.v) + (k.o > 0 ? "+ " : "- ");
    auto & t = topology::topology();
    auto s = handle<N>(k);
    bool was = known({ k.v, -k.o });
    REQUIRE("T02", t.exists_flipped(s) == was, "exists_flipped is wrong for " + show(k.v));
    auto r = rnd(2) ? t.flip(s) : topology::flip(s);
    if (!was) {
        model.at(k.v).oriented[-k.o] = r.operator->();
        ++NS[N];
    }
    REQUIRE("T02 T01", r.operator->() == model.at(k.v).oriented.at(-k.o), "the flip of " + show(k.v) + " is another simplex");
    REQUIRE("T02", r->footprint() == s->footprint() && r->orientation() == -s->orientation(), "the flip of " + show(k.v) + " is wrong");
    REQUIRE("T02", t.exists_flipped(s) && t.exists_flipped(r), "the flip of " + show(k.v) + " does not exist");
    REQUIRE("T02", t.flip(r) == s, "flipping " + show(k.v) + " twice gives another simplex");
}

template <int N>
static void query(const verts & v)
{
    auto & t = topology::topology();
    simplex_composition_t<N> c;
    if constexpr (N == 1) {
        if (!known({ { v[0] }, -1 }) || !known({ { v[1] }, +1 }))
            return;
        c = { handle<0>({ { v[0] }, -1 }), handle<0>({ { v[1] }, +1 }) };
    } else {
        int i = 0;
        for (auto & f : facets(v)) {
            // any orientation of the facets: the composition is identified by their footprints
            okey k = key(f);
            if (!known(k))
                return;
            c[i++] = handle<N - 1>(k);
        }
    }
    REQUIRE("T02 T04", t.exists<N>(c) == known(key(v)), "known(composition) is wrong for " + show(v));
}
static void query_vertices(const verts & v)
{
    vertex_simplex_composition_t<1> a { VX[v[0]], VX[v[1]] };
    REQUIRE("T02 T04", topology::topology().exists(a) == known(key(v)), "known(vertices) is wrong for " + show(v));
}

static void flip_diag(const verts & v0, const verts & v1)
{
    // v0 and v1 traverse a common edge in opposite directions
    trace += "diagonal" + show(v0) + show(v1) + " ";
    auto d = topology::flip_diagonal(std::pair(handle<2>(key(v0)), handle<2>(key(v1))));
    int a = -1, b = -1, c = -1, e = -1;
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j)
            if (v0[i] == v1[(j + 1) % 3] && v0[(i + 1) % 3] == v1[j]) {
                a = v0[i];
                b = v0[(i + 1) % 3];
                c = v0[(i + 2) % 3];
                e = v1[(j + 2) % 3];
            }
    verts r[2] = { { c, e, b }, { e, c, a } };
    // the facets of the new triangles: the diagonals and the outer edges
    auto n0 = names<2>(d.first), n1 = names<2>(d.second);
    bool same = key(n0) == key(r[0]) && key(n1) == key(r[1]), swap = key(n0) == key(r[1]) && key(n1) == key(r[0]);
    REQUIRE("T05", same || swap, "the diagonal of " + show(v0) + show(v1) + " gives " + show(n0) + show(n1));
    if (!same && !swap)
        _exit(0);
    // the simplices that are created: known to the model from here on
    auto add = [](const simplex_t<2> & s, const verts & v) {
        bool isnew = !model.count(sorted(v));
        if (isnew) {
            auto c = s->footprint()->composition();
            verts base;
            for (auto & e : c)
                base.push_back(names<1>(e)[0]);
            for (auto & e : c) {
                verts w = names<1>(e);
                model_make<1>(w);
            }
            model_make<2>(base, false);
            // (the footprint is new, so only the requested orientation exists)
            auto & f = model.at(sorted(v));
            NS[2] -= long(f.oriented.size());
            f.oriented.clear();
            for (size_t i = 0; i < 3; ++i) {
                f.comp[i] = key(names<1>(c[i]));
            }
        }
        auto & f = model.at(sorted(v));
        if (!f.oriented.count(parity(v))) {
            f.oriented[parity(v)] = s.operator->();
            ++NS[2];
        }
    };
    // (which orientation of a new diagonal is the first one is up to the code)
    verts first { c, e };
    for (auto & x : d.first->composition())
        if (sorted(names<1>(x)) == sorted(first)) {
            first = names<1>(x);
            if (x->orientation() == -1)
                std::swap(first[0], first[1]);
            break;
        }
    model_make<1>(first);
    std::swap(first[0], first[1]);
    model_make<1>(first);
    // outer edges as they run along the boundary
    for (auto w : { verts { b, c }, verts { c, a }, verts { a, e }, verts { e, b } })
        if (!known(key(w)))
            model_make<1>(w);
    bind_all();
    add(d.first, same ? r[0] : r[1]);
    add(d.second, same ? r[1] : r[0]);
}

static verts pick(int n, int nv)
{
    verts all;
    for (int i = 0; i < nv; ++i)
        all.push_back(int(VX.size()) - nv + i);
    std::shuffle(all.begin(), all.end(), rng);
    all.resize(n);
    return all;
}

static void history(int len)
{
    int nv = 4 + rnd(3);
    // the simplices of the histories before are gone from the model (they stay in the topology)
    model.clear();
    VX.clear();
    auto & t = topology::topology();
    NS[0] = t.n_simplices<0>();
    NS[1] = t.n_simplices<1>();
    NS[2] = t.n_simplices<2>();
    NS[3] = t.n_simplices<3>();
    for (int i = 0; i < nv; ++i)
        VX.push_back(t.vertex());
    std::shuffle(VX.begin(), VX.end(), rng);
    for (int i = 0; i < nv; ++i)
        for (int j = 0; j < i; ++j)
            REQUIRE("T01 T02 T03 T04", VX[i] != VX[j], "two vertices are the same");
    auto any = [&](size_t dim, okey & k) {
        std::vector<okey> c;
        for (auto & [v, f] : model)
            if (v.size() == dim + 1)
                for (auto & [o, raw] : f.oriented)
                    c.push_back({ v, o });
        if (c.empty())
            return false;
        k = c[rnd(int(c.size()))];
        return true;
    };
    for (int i = 0; i < len; ++i) {
        okey k;
        switch (rnd(12)) {
            case 0: make<1>(pick(2, nv)); break;
            case 1: make<2>(pick(3, nv)); break;
            case 2: make<3>(pick(4, nv)); break;
            case 3: make_comp<2>(pick(3, nv)); break;
            case 4: make_comp<3>(pick(4, nv)); break;
            case 5:
            case 6: {
                int d = rnd(4);
                if (any(d, k))
                    d == 0 ? flip_<0>(k) : d == 1 ? flip_<1>(k) : d == 2 ? flip_<2>(k) : flip_<3>(k);
                break;
            }
            case 7:
            case 8: {
                int d = 1 + rnd(3);
                if (any(d, k))
                    d == 1 ? erase_<1>(k) : d == 2 ? erase_<2>(k) : erase_<3>(k);
                break;
            }
            case 9: {
                query<1>(pick(2, nv));
                query<2>(pick(3, nv));
                query<3>(pick(4, nv));
                query_vertices(pick(2, nv));
                break;
            }
            default: {
                // two triangles that traverse an edge in opposite directions
                verts v = pick(4, nv);
                verts v0 { v[0], v[1], v[2] }, v1 { v[1], v[0], v[3] };
                for (auto * w : { &v0, &v1 })
                    std::rotate(w->begin(), w->begin() + rnd(3), w->end());
                make<2>(v0);
                make<2>(v1);
                check();
                flip_diag(v0, v1);
            }
        }
        check();
    }
}

int main(int n, char ** v)
{
    prop = v[1];
    unsigned long s0 = std::atol(v[2]);
    long hist = std::atol(v[3]);
    for (int s : { SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM })
        std::signal(s, onsignal);
    for (long k = 0; k < hist; ++k) {
        seed = s0 + k;
        rng.seed(seed);
        trace.clear();
        alarm(20);
        try {
            history(k < 200 ? 2 + rnd(5) : 4 + rnd(20));
        } catch (const std::exception & e) {
            fail(std::string("an exception leaves the code: ") + e.what());
        }
    }
    std::printf("%ld histories, none fails\n", hist);
    std::fflush(stdout);
    _exit(0);
}
