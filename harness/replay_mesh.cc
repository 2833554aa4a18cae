// random refinements (H01), histories of meshes (H02) on the real code: replay_mesh H01|H02 <seed> <rounds>
#include <mito/mesh.h>
#include <random>
#include <cstdio>
#include <map>
#include <set>
#include <cstdlib>
using namespace mito;
namespace geo = mito::geometry;
template <int D>
using coord = geo::coordinates_t<D, geo::CARTESIAN>;
template <int D>
using vec = std::array<double, D>;

static std::mt19937_64 rng;
static double u(double a, double b) { return std::uniform_real_distribution<double>(a, b)(rng); }
static int bad = 0;
static void fail(const char * what, int N, int D, int k)
{
    std::printf("FAILED %s (cells of order %d in %dD, level %d)\n", what, N, D, k);
    bad = 1;
}

template <int N, int D>
std::array<vec<D>, N + 1> points(const auto & cell, const auto & cs)
{
    std::array<vec<D>, N + 1> r;
    for (int a = 0; a <= N; ++a)
        for (int d = 0; d < D; ++d) r[a][d] = cs.coordinates(cell.nodes()[a]->point())[d];
    return r;
}

template <int n>
double det(std::array<vec<n>, n> m)
{
    double r = 1;
    for (int c = 0; c < n; ++c) {
        int p = c;
        for (int i = c + 1; i < n; ++i)
            if (std::fabs(m[i][c]) > std::fabs(m[p][c])) p = i;
        if (m[p][c] == 0) return 0;
        if (p != c) { std::swap(m[p], m[c]); r = -r; }
        r *= m[c][c];
        for (int i = c + 1; i < n; ++i) {
            double f = m[i][c] / m[c][c];
            for (int j = c; j < n; ++j) m[i][j] -= f * m[c][j];
        }
    }
    return r;
}

// barycentric coordinates with respect to the cell p (least squares through the Gram matrix)
template <int N, int D>
vec<N + 1> bary(const std::array<vec<D>, N + 1> & p, const vec<D> & x)
{
    std::array<vec<N>, N> G;
    vec<N> b;
    for (int i = 0; i < N; ++i) {
        b[i] = 0;
        for (int d = 0; d < D; ++d) b[i] += (p[i + 1][d] - p[0][d]) * (x[d] - p[0][d]);
        for (int j = 0; j < N; ++j) {
            G[i][j] = 0;
            for (int d = 0; d < D; ++d) G[i][j] += (p[i + 1][d] - p[0][d]) * (p[j + 1][d] - p[0][d]);
        }
    }
    double g = det<N>(G);
    vec<N + 1> w;
    w[0] = 1;
    for (int i = 0; i < N; ++i) {
        auto H = G;
        for (int j = 0; j < N; ++j) H[j][i] = b[j];
        w[i + 1] = det<N>(H) / g;
        w[0] -= w[i + 1];
    }
    return w;
}

template <int N>
using key = std::set<std::array<long, N>>;

template <int N, int D, class cell_t>
void refine(int k)
{
    geo::coordinate_system_t<coord<D>> cs;
    auto mesh = mesh::mesh<cell_t>();
    // two cells that share the face opposite to vertex 0, in arbitrary orders of the vertices
    std::vector<geo::node_t<D>> n;
    for (int i = 0; i < N + 2; ++i) {
        coord<D> c;
        if constexpr (D == 1) c = coord<D>{ (i == 1 ? 0.0 : i == 0 ? 1.0 : -1.0) + u(-0.2, 0.2) };
        if constexpr (D == 2) c = coord<D>{ (i == 1 || i == 0 || i == N + 1 ? 0.0 : 1.0 * (i == 2)) + u(-0.1, 0.1), (i == 0 ? 1.0 : i == N + 1 && N == 2 ? -1.0 : i == N + 1 ? 2.0 : 0.0) + u(-0.1, 0.1) };
        if constexpr (D == 3)
            c = coord<D>{ (i == 2 ? 1.0 : 0.0) + u(-0.1, 0.1), (i == 3 ? 1.0 : i == 0 && N < 3 ? 1.0 : 0.0) + u(-0.1, 0.1), (i == 0 ? 1.0 : i == N + 1 ? -1.0 : 0.0) + u(-0.1, 0.1) };
        n.push_back(geo::node(cs, c));
    }
    std::vector<std::array<vec<D>, N + 1>> P;
    for (int c = 0; c < 2; ++c) {
        std::array<int, N + 1> q;
        for (int i = 0; i <= N; ++i) q[i] = c == 0 ? i : (i == 0 ? N + 1 : i);
        std::shuffle(q.begin(), q.end(), rng);
        auto & cell = [&]<size_t... I>(std::index_sequence<I...>) -> auto & { return mesh.insert({ n[q[I]]... }); }(std::make_index_sequence<N + 1>{});
        P.push_back(points<N, D>(cell, cs));
    }
    auto fine = mesh::tetra(mesh, cs, k);
    long per = 1;
    for (int i = 0; i < N * k; ++i) per *= 2;
    if (fine.nCells() != 2 * per) return fail("number of cells", N, D, k);
    std::vector<std::vector<std::array<vec<N + 1>, N + 1>>> in(2);
    for (const auto & cell : fine.cells()) {
        auto x = points<N, D>(cell, cs);
        int owner = -1;
        std::array<vec<N + 1>, N + 1> w;
        for (int c = 0; c < 2 && owner < 0; ++c) {
            bool ok = true;
            for (int a = 0; a <= N; ++a) {
                w[a] = bary<N, D>(P[c], x[a]);
                for (int d = 0; d < D; ++d) {
                    double y = 0;
                    for (int b = 0; b <= N; ++b) y += w[a][b] * P[c][b][d];
                    ok = ok && std::fabs(y - x[a][d]) < 1e-9;
                }
                for (double v : w[a]) ok = ok && v > -1e-9;
            }
            if (ok) owner = c;
        }
        if (owner < 0) return fail("a cell does not lie in an original cell", N, D, k);
        if (std::fabs(det<N + 1>(w) * per - 1) > 1e-6) return fail("orientation or volume of a cell", N, D, k);
        in[owner].push_back(w);
    }
    for (int c = 0; c < 2; ++c) {
        if ((long) in[c].size() != per) return fail("number of cells in an original cell", N, D, k);
        for (int t = 0; t < 20; ++t) {
            // a random point lies in one cell
            vec<N + 1> y;
            double s = 0;
            for (auto & v : y) s += v = -std::log(u(1e-3, 1));
            for (auto & v : y) v /= s;
            int count = 0;
            for (auto & w : in[c]) {
                auto m = w;
                double g = det<N + 1>(m);
                bool inside = true;
                for (int a = 0; a <= N; ++a) {
                    auto h = w;
                    h[a] = y;
                    inside = inside && det<N + 1>(h) / g > 0;
                }
                count += inside;
            }
            if (count != 1) return fail("cells overlap or leave gaps", N, D, k);
        }
    }
    // the shared face, subdivided from either side: sets of points
    std::map<std::set<std::array<long, D>>, int> face[2];
    for (int c = 0; c < 2; ++c)
        for (auto & w : in[c])
            for (int f = 0; f <= N; ++f) {
                std::set<std::array<long, D>> s;
                bool on = true;
                for (int a = 0; a <= N; ++a) {
                    if (a == f) continue;
                    std::array<long, D> q;
                    for (int d = 0; d < D; ++d) {
                        double y = 0;
                        for (int b = 0; b <= N; ++b) y += w[a][b] * P[c][b][d];
                        q[d] = std::lround(y * 1e7);
                    }
                    s.insert(q);
                    // weight of the vertex that is not shared
                    for (int b = 0; b <= N; ++b) {
                        double far = 1e9;
                        for (int e = 0; e <= N; ++e) {
                            double dd = 0;
                            for (int d = 0; d < D; ++d) dd += std::fabs(P[c][b][d] - P[1 - c][e][d]);
                            far = std::min(far, dd);
                        }
                        if (far > 1e-6) on = on && std::fabs(w[a][b]) < 1e-9;
                    }
                }
                if (on) face[c][s]++;
            }
    if (face[0].empty() || face[0].size() != face[1].size()) return fail("the shared face is subdivided differently", N, D, k);
    for (auto & [s, m] : face[0]) {
        bool found = false;
        for (auto & [t, m2] : face[1]) {
            bool eq = s.size() == t.size() && m == m2;
            auto i = s.begin();
            auto j = t.begin();
            for (; eq && i != s.end(); ++i, ++j)
                for (int d = 0; d < D; ++d) eq = eq && std::labs((*i)[d] - (*j)[d]) <= 4;
            found = found || eq;
        }
        if (!found) return fail("the shared face is subdivided differently", N, D, k);
    }
}

static long seed = 1;
static int history = 0;

#define EXPECT(x, what)                                                                                              \
    if (!(x)) {                                                                                                      \
        if (!bad) std::printf("FAILED %s (cells of order %d in %dD; seed %ld, history %d, after: %s)\n", what, N, D, seed, history, log.c_str()); \
        bad = 1;                                                                                                     \
        return;                                                                                                      \
    }

// a history of a mesh, against a list of cells
template <int N, int D, class cell_t>
void content(int steps)
{
    std::string log;
    geo::coordinate_system_t<coord<D>> cs;
    std::vector<geo::node_t<D>> n;
    for (int i = 0; i < N + 4; ++i) {
        auto r = [](size_t) { return u(-1, 1); };
        n.push_back([&]<size_t... I>(std::index_sequence<I...>) { return geo::node(cs, coord<D>{ r(I)... }); }(std::make_index_sequence<D>{}));
    }
    auto mesh = mesh::mesh<cell_t>();
    struct entry {
        const cell_t * at;
        topology::oriented_simplex_t<N> s;
        std::array<geo::node_t<D>, N + 1> nodes;
    };
    std::vector<entry> ref;
    // facets that were ever in the mesh would not be queried: only those of its cells
    auto random_nodes = [&]() {
        std::vector<int> q(n.size());
        for (size_t i = 0; i < q.size(); ++i) q[i] = i;
        std::shuffle(q.begin(), q.end(), rng);
        return [&]<size_t... I>(std::index_sequence<I...>) { return typename cell_t::nodes_type{ n[q[I]]... }; }(std::make_index_sequence<N + 1>{});
    };
    auto check = [&]() {
        EXPECT(mesh.nCells() == (int) ref.size(), "number of cells");
        std::set<const cell_t *> seen;
        for (const auto & cell : mesh.cells()) {
            auto it = std::find_if(ref.begin(), ref.end(), [&](const entry & e) { return e.at == &cell; });
            EXPECT(it != ref.end() && seen.insert(&cell).second, "a cell that was not inserted, or twice");
            EXPECT(cell.simplex() == it->s && cell.nodes() == it->nodes, "a cell changed");
        }
        EXPECT(seen.size() == ref.size(), "a cell is missing");
        int count = 0;
        std::multiset<decltype(std::declval<topology::oriented_simplex_t<N - 1>>().id())> want;
        for (auto & e : ref)
            for (const auto & f : e.s->composition()) {
                bool flipped = false;
                for (auto & o : ref)
                    for (const auto & g : o.s->composition()) flipped = flipped || (g->footprint() == f->footprint() && g->orientation() == -f->orientation());
                EXPECT(mesh.isOnBoundary(f) == !flipped, "isOnBoundary");
                if (!flipped) ++count, want.insert(f.id());
            }
        EXPECT(mesh::boundary_size(mesh) == count, "boundary_size");
        auto boundary = mesh::boundary(mesh);
        if constexpr (N > 1) {
            EXPECT(boundary.nCells() == count, "size of the boundary");
            for (const auto & cell : boundary.cells()) {
                auto it = want.find(cell.simplex().id());
                EXPECT(it != want.end(), "a cell of the boundary is not a boundary facet");
                want.erase(it);
                for (const auto & node : cell.nodes()) EXPECT(std::find(n.begin(), n.end(), node) != n.end(), "a node of the boundary is not a node of the mesh");
                auto v = cell.simplex()->vertices();
                std::array<topology::vertex_t, N> w;
                for (int i = 0; i < N; ++i) w[i] = cell.nodes()[i]->vertex();
                EXPECT(math::permutation_sign(v, w) == 1, "the nodes of a boundary cell are not those of its facet");
            }
            EXPECT(want.empty(), "a boundary facet is missing in the boundary");
            auto edges = mesh::filter<1>(mesh);
            std::set<decltype(std::declval<topology::oriented_simplex_t<1>>().id())> all, got;
            for (auto & e : ref) {
                if constexpr (N == 2)
                    for (const auto & f : e.s->composition()) all.insert(f.id());
                else
                    for (const auto & f : e.s->composition())
                        for (const auto & g : f->composition()) all.insert(g.id());
            }
            for (const auto & cell : edges.cells()) got.insert(cell.simplex().id());
            EXPECT(all == got, "the filtered edges are not those of the cells");
        } else {
            std::set<const void *> nodes, expect;
            for (auto & x : boundary) nodes.insert(x.operator->());
            for (auto & e : ref)
                for (const auto & f : e.s->composition())
                    if (mesh.isOnBoundary(f))
                        for (auto & x : e.nodes)
                            if (x->vertex() == f->footprint()) expect.insert(x.operator->());
            EXPECT(nodes == expect, "the nodes on the boundary");
        }
    };
    check();
    for (int i = 0; i < steps && !bad; ++i) {
        int op = rng() % 10;
        if (op < 3) {
            auto x = random_nodes();
            log += " insert(nodes)";
            auto & c = mesh.insert(x);
            ref.push_back({ &c, c.simplex(), x });
            auto v = c.simplex()->vertices();
            std::array<topology::vertex_t, N + 1> w;
            for (int i = 0; i <= N; ++i) w[i] = x[i]->vertex();
            EXPECT(math::permutation_sign(v, w) == 1, "the simplex of a cell");
        } else if (op < 5) {
            auto x = random_nodes();
            cell_t copy(x);
            if (!ref.empty() && rng() % 3 == 0) {
                auto & e = ref[rng() % ref.size()];
                cell_t same(e.s, e.nodes);
                copy = same;
            } else if (!ref.empty() && rng() % 2 == 0)
                copy = geo::flip(*ref[rng() % ref.size()].at);
            log += " insert(cell)";
            auto & c = mesh.insert(copy);
            EXPECT(c.simplex() == copy.simplex() && c.nodes() == copy.nodes(), "the cell inserted");
            ref.push_back({ &c, c.simplex(), c.nodes() });
        } else if (op < 8 && !ref.empty()) {
            int k = rng() % ref.size();
            log += " erase";
            auto & c = const_cast<cell_t &>(*ref[k].at);
            mesh.erase(c);
            ref.erase(ref.begin() + k);
            if (rng() % 3 == 0) log += " erase again", mesh.erase(c);
        } else if (op == 8) {
            bool top = rng() % 2;
            log += top ? " erase_topological_duplicates" : " erase_geometrical_duplicates";
            std::set<const void *> classes;
            for (auto & e : ref) classes.insert(top ? (const void *) e.s->footprint().operator->() : (const void *) e.s.operator->());
            top ? mesh.erase_topological_duplicates() : mesh.erase_geometrical_duplicates();
            std::vector<entry> rest;
            for (const auto & cell : mesh.cells())
                for (auto & e : ref)
                    if (e.at == &cell) {
                        rest.push_back(e);
                        EXPECT(classes.erase(top ? (const void *) e.s->footprint().operator->() : (const void *) e.s.operator->()) == 1, "duplicates remain");
                    }
            EXPECT(classes.empty(), "cells without duplicate were erased");
            ref = rest;
        }
        check();
    }
}

void histories(int rounds)
{
    for (int r = 0; r < 40 * rounds && !bad; ++r) {
        history = r;
        int steps = 1 + rng() % 25;
        content<1, 1, geo::segment_t<1>>(steps);
        content<1, 2, geo::segment_t<2>>(steps);
        content<1, 3, geo::segment_t<3>>(steps);
        content<2, 2, geo::triangle_t<2>>(steps);
        content<2, 3, geo::triangle_t<3>>(steps);
        content<3, 3, geo::tetrahedron_t<3>>(steps);
    }
}


int main(int argc, char ** argv)
{
    bool content = argc > 1 && std::string(argv[1]) == "H02";
    seed = argc > 2 ? std::atol(argv[2]) : 1;
    rng.seed(argc > 2 ? std::atol(argv[2]) : 1);
    int rounds = argc > 3 ? std::atoi(argv[3]) : 20;
    if (!content)
        for (int r = 0; r < rounds && !bad; ++r)
            for (int k = 0; k < 4 && !bad; ++k) {
                refine<1, 1, geo::segment_t<1>>(k);
                refine<1, 2, geo::segment_t<2>>(k);
                refine<1, 3, geo::segment_t<3>>(k);
                refine<2, 2, geo::triangle_t<2>>(k);
                refine<2, 3, geo::triangle_t<3>>(k);
                if (k < 3) refine<3, 3, geo::tetrahedron_t<3>>(k);
            }
    else
        histories(rounds);
    std::printf(bad ? "bad\n" : "ok\n");
    return bad;
}

