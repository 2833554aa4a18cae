// random meshes and constraints on the real code, compared with a reference: discretization, numbering, assembly, solution
// usage: replay_assembly PROPERTY SEED HISTORIES
#include <algorithm>
#include <csignal>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <random>
#include <set>
#include <string>
#include <vector>
#include <unistd.h>
#include <mito/fem.h>
#include <mito/constraints.h>
using namespace mito;
namespace geo = mito::geometry;

static FILE * out;      // the journal writes to stdout
static unsigned long seed;
static long history;
[[noreturn]] static void fail(const std::string & what)
{
    std::fprintf(out, "FAIL E03: %s\n  seed %lu, history %ld\n", what.c_str(), seed, history);
    std::fflush(out);
    _exit(1);
}
static void onsignal(int s)
{
    std::fprintf(out, "FAIL E03: the code ends with signal %d\n  seed %lu, history %ld\n", s, seed, history);
    std::fflush(out);
    _exit(1);
}
#define REQUIRE(c, what) if (!(c)) fail(what)

static std::mt19937_64 rng;
static int rnd(int n) { return int(rng() % n); }
// values that are summed without rounding
static double value() { return rnd(2001) - 1000; }

struct system_t {
    std::vector<double> b;
    std::map<std::pair<int, int>, double> A;
    int n = -1;
    bool shift = false;
    std::vector<double> x;
    system_t(const std::string &) {}
    void create(int m)
    {
        REQUIRE(n == -1, "the linear system is created twice");
        REQUIRE(m >= 0, "negative number of equations");
        n = m;
        b.assign(m, 0);
    }
    int n_equations() const { return n; }
    void add_rhs_value(int i, double v)
    {
        REQUIRE(i >= 0 && i < n, "contribution to the right-hand side out of range");
        b[i] += v;
    }
    void add_matrix_value(int i, int j, double v)
    {
        REQUIRE(i >= 0 && i < n && j >= 0 && j < n, "contribution to the matrix out of range");
        A[{ i, j }] += v;
    }
    void get_solution(std::vector<double> & u) const
    {
        REQUIRE((int) u.size() == n, "size of the solution");
        for (int i = 0; i < n; ++i) u[i] = x[i];
    }
};

template <class E>
struct lhs : fem::blocks::AssemblyBlock<E, tensor::matrix_t<E::n_nodes>> {
    mutable std::map<const E *, std::vector<double>> v;
    auto compute(const E & e) const -> tensor::matrix_t<E::n_nodes> override
    {
        auto & w = v[&e];
        if (w.empty())
            for (int i = 0; i < E::n_nodes * E::n_nodes; ++i) w.push_back(value());
        tensor::matrix_t<E::n_nodes> m;
        for (int i = 0; i < E::n_nodes; ++i)
            for (int j = 0; j < E::n_nodes; ++j) m[{ i, j }] = w[i * E::n_nodes + j];
        return m;
    }
};
template <class E>
struct rhs : fem::blocks::AssemblyBlock<E, tensor::vector_t<E::n_nodes>> {
    mutable std::map<const E *, std::vector<double>> v;
    auto compute(const E & e) const -> tensor::vector_t<E::n_nodes> override
    {
        auto & w = v[&e];
        if (w.empty())
            for (int i = 0; i < E::n_nodes; ++i) w.push_back(value());
        tensor::vector_t<E::n_nodes> m;
        for (int i = 0; i < E::n_nodes; ++i) m[{ i }] = w[i];
        return m;
    }
};

template <class E, int N, int D>
void check(const auto & mesh, const auto & cs, const auto & domain, const std::vector<std::set<long>> & fixed)
{
    using coordinates = geo::coordinates_t<D, geo::CARTESIAN>;
    auto manifold = manifolds::manifold(mesh, cs);
    auto zero = functions::zero<coordinates>;
    auto constraint = constraints::dirichlet_bc(domain, zero);
    auto fs = fem::function_space<E>(manifold, constraint);
    // the degrees of freedom by mesh entity: {vertex} or {vertex, vertex}
    std::map<std::set<long>, long> dof;
    std::map<long, std::set<long>> entity;
    std::map<const void *, int> count;
    long cells = 0, elements = 0;
    for (const auto & c : mesh.cells()) count[&c] = 0, ++cells;
    for (const auto & e : fs.elements()) {
        ++elements;
        REQUIRE(count.count(&e.cell()), "an element on a cell that is not of the mesh");
        REQUIRE(++count[&e.cell()] == 1, "two elements on a cell");
        const auto & nodes = e.cell().nodes();
        for (int i = 0; i < E::n_nodes; ++i) {
            std::set<long> key;
            if (i <= N)
                key = { long(nodes[i].id()) };
            else
                key = { long(nodes[i - 3].id()), long(nodes[(i - 2) % 3].id()) };
            long id = long(e.connectivity()[i].id());
            auto [it, isnew] = dof.insert({ key, id });
            REQUIRE(it->second == id, "elements that share a vertex or an edge do not share its degree of freedom");
            auto [jt, jnew] = entity.insert({ id, key });
            REQUIRE(jt->second == key, "two vertices or edges share a degree of freedom");
        }
    }
    REQUIRE(cells == elements, "a cell without an element");
    for (const auto & c : mesh.cells())
        for (const auto & n : c.nodes()) {
            auto it = fs.node_map().find(n);
            REQUIRE(it != fs.node_map().end() && long(it->second.id()) == dof[{ long(n.id()) }], "the map from mesh nodes to degrees of freedom");
        }
    std::set<long> con, want;
    for (const auto & n : fs.constrained_nodes()) con.insert(long(n.id()));
    for (const auto & k : fixed)
        if (int(k.size()) == 1 || E::n_nodes > N + 1) want.insert(dof.at(k));
    REQUIRE(con == want, "the constrained degrees of freedom");

    fem::weakform_t<E> w;
    std::vector<lhs<E>> l(rnd(3));
    std::vector<rhs<E>> r(rnd(3));
    for (auto & x : l) w.add_block(x);
    for (auto & x : r) w.add_block(x);
    fem::discrete_system_t<decltype(fs), system_t> s("system", fs, w);
    int n = s.n_equations();
    REQUIRE(n == int(dof.size() - want.size()), "the number of equations");
    REQUIRE(s.linear_system().n == n, "the size of the linear system");
    // the equations, by way of the solution
    for (int i = 0; i < n; ++i) s.linear_system().x.push_back(i + 1);
    s.read_solution();
    std::map<long, int> eq;
    std::set<int> taken;
    for (const auto & e : fs.elements())
        for (int i = 0; i < E::n_nodes; ++i) {
            long id = long(e.connectivity()[i].id());
            double v = s.solution()(e.connectivity()[i]);
            if (want.count(id)) {
                REQUIRE(v == 0, "solution at a constrained degree of freedom");
                eq[id] = -1;
            } else {
                REQUIRE(v == std::floor(v) && v >= 1 && v <= n, "solution at a degree of freedom");
                if (eq.count(id)) {
                    REQUIRE(eq[id] == int(v) - 1, "two values at a degree of freedom");
                } else
                    REQUIRE(taken.insert(int(v) - 1).second, "two degrees of freedom with one equation");
                eq[id] = int(v) - 1;
            }
        }
    REQUIRE(int(taken.size()) == n, "an equation without degree of freedom");
    s.assemble();
    std::vector<double> b(n, 0.0);
    std::map<std::pair<int, int>, double> A;
    for (const auto & e : fs.elements())
        for (int i = 0; i < E::n_nodes; ++i) {
            int p = eq[long(e.connectivity()[i].id())];
            if (p < 0) continue;
            for (auto & x : r) b[p] += x.v[&e][i];
            for (int j = 0; j < E::n_nodes; ++j) {
                int q = eq[long(e.connectivity()[j].id())];
                if (q < 0) continue;
                for (auto & x : l) A[{ p, q }] += x.v[&e][i * E::n_nodes + j];
            }
        }
    for (int i = 0; i < n; ++i) {
        REQUIRE(s.linear_system().b[i] == b[i], "the right-hand side is not the sum of the elementary vectors");
        for (int j = 0; j < n; ++j) {
            auto x = s.linear_system().A.find({ i, j });
            auto y = A.find({ i, j });
            REQUIRE((x == s.linear_system().A.end() ? 0 : x->second) == (y == A.end() ? 0 : y->second), "the matrix is not the sum of the elementary matrices");
        }
    }
}

static void segments()
{
    geo::coordinate_system_t<geo::coordinates_t<1, geo::CARTESIAN>> cs;
    auto mesh = mesh::mesh<geo::segment_t<1>>();
    std::vector<geo::node_t<1>> n;
    int m = 1 + rnd(12);
    for (int i = 0; i <= m; ++i) n.push_back(geo::node(cs, geo::coordinates_t<1, geo::CARTESIAN>{ double(i) }));
    std::vector<int> cells;
    for (int i = 0; i < m; ++i)
        if (rnd(5)) cells.push_back(i);
    if (cells.empty()) cells.push_back(0);
    std::shuffle(cells.begin(), cells.end(), rng);
    std::set<int> present;
    for (int i : cells) {
        if (rnd(2)) mesh.insert({ n[i], n[i + 1] }); else mesh.insert({ n[i + 1], n[i] });
        present.insert(i), present.insert(i + 1);
    }
    mesh::boundary_mesh<geo::segment_t<1>>::type domain;
    std::vector<std::set<long>> fixed;
    int dense = rnd(4);
    for (int i : present)
        if (rnd(4) < dense) domain.insert(n[i]), fixed.push_back({ long(n[i].id()) });
    check<fem::IsoparametricSegmentP1, 1, 1>(mesh, cs, domain, fixed);
}

template <class E>
static void triangles()
{
    using coord = geo::coordinates_t<2, geo::CARTESIAN>;
    geo::coordinate_system_t<coord> cs;
    auto mesh = mesh::mesh<geo::triangle_t<2>>();
    int p = 1 + rnd(3), q = 1 + rnd(3);
    std::vector<geo::node_t<2>> n;
    for (int i = 0; i <= p; ++i)
        for (int j = 0; j <= q; ++j) n.push_back(geo::node(cs, coord{ double(i), double(j) }));
    std::vector<std::array<int, 3>> cells;
    auto at = [&](int i, int j) { return i * (q + 1) + j; };
    for (int i = 0; i < p; ++i)
        for (int j = 0; j < q; ++j) {
            int a = at(i, j), b = at(i + 1, j), c = at(i + 1, j + 1), d = at(i, j + 1);
            if (rnd(2)) {
                if (rnd(6)) cells.push_back({ a, b, c });
                if (rnd(6)) cells.push_back({ a, c, d });
            } else {
                if (rnd(6)) cells.push_back({ a, b, d });
                if (rnd(6)) cells.push_back({ b, c, d });
            }
        }
    if (cells.empty()) cells.push_back({ at(0, 0), at(1, 0), at(1, 1) });
    std::shuffle(cells.begin(), cells.end(), rng);
    std::set<std::pair<int, int>> edges;
    for (auto & c : cells) {
        std::rotate(c.begin(), c.begin() + rnd(3), c.end());
        if (rnd(4) == 0) std::swap(c[0], c[1]);
        mesh.insert({ n[c[0]], n[c[1]], n[c[2]] });
        for (int i = 0; i < 3; ++i) edges.insert(std::minmax(c[i], c[(i + 1) % 3]));
    }
    auto domain = mesh::mesh<geo::segment_t<2>>();
    std::vector<std::set<long>> fixed;
    int dense = rnd(4);
    for (auto [a, b] : edges)
        if (rnd(4) < dense) {
            if (rnd(2)) domain.insert({ n[a], n[b] }); else domain.insert({ n[b], n[a] });
            fixed.push_back({ long(n[a].id()) });
            fixed.push_back({ long(n[b].id()) });
            fixed.push_back({ long(n[a].id()), long(n[b].id()) });
        }
    check<E, 2, 2>(mesh, cs, domain, fixed);
}

int main(int argc, char ** argv)
{
    out = fdopen(dup(1), "w");
    if (!std::freopen("/dev/null", "w", stdout)) return 2;
    seed = argc > 2 ? std::strtoul(argv[2], nullptr, 10) : 1;
    long n = argc > 3 ? std::atol(argv[3]) : 10;
    for (int s : { SIGSEGV, SIGABRT, SIGFPE, SIGBUS }) std::signal(s, onsignal);
    rng.seed(seed);
    for (history = 0; history < n; ++history) {
        segments();
        triangles<fem::IsoparametricTriangleP1>();
        triangles<fem::IsoparametricTriangleP2>();
    }
    std::fprintf(out, "ok: %ld histories\n", n);
}
