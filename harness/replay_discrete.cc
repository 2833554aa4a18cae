// random histories of discrete fields on the real code: replay_discrete D02 <seed> <rounds>
#include <mito/mesh.h>
#include <mito/fields.h>
#include <mito/discrete.h>
#include <random>
#include <cstdio>
#include <map>
#include <set>
#include <cstdlib>
#include <string>
using namespace mito;
namespace geo = mito::geometry;
static std::mt19937_64 rng;
static unsigned long seed;
static int round_;
static int pick(int n) { return (int) (rng() % n); }
static double u()
{
    return pick(3) ? std::uniform_real_distribution<double>(-3, 3)(rng) : (double) (pick(3) - 1);
}
static void fail(const char * what, int N, int D)
{
    std::printf("FAIL seed %lu, history %d: %s (cells of order %d in %dD)\n", seed, round_, what, N, D);
    std::fflush(stdout);
    std::_Exit(1);
}
#define CHECK(c, what) \
    if (!(c)) fail(what, N, D)

template <class F, class K>
static bool absent(F & f, const K & k)
{
    try {
        f(k);
        return false;
    } catch (const std::exception &) {
    }
    try {
        static_cast<const F &>(f)(k);
        return false;
    } catch (const std::exception &) {
    }
    return true;
}

template <int N, int D>
static void history()
{
    using C = geo::coordinates_t<D, geo::CARTESIAN>;
    using cell_t = geo::geometric_simplex_t<N, D>;
    geo::coordinate_system_t<C> cs;
    std::vector<geo::node_t<D>> nodes;
    std::vector<C> at;
    for (int i = 0, n = N + 1 + pick(8); i < n; ++i) {
        tensor::vector_t<D> v;
        for (int d = 0; d < D; ++d) v[d] = u();
        // (some coordinates are round numbers, some nodes share their point)
        if (i && pick(5) == 0) {
            int j = pick(i);
            at.push_back(at[j]);
            nodes.push_back(geo::node_t<D>(topology::vertex(), nodes[j]->point()));
            continue;
        }
        if (pick(10) == 0) v = v - v;
        at.push_back(C(v));
        nodes.push_back(geo::node(cs, C(v)));
    }
    auto mesh = mesh::mesh<cell_t>();
    std::set<int> used;
    for (int k = 0, n = pick(8); k < n; ++k) {
        std::set<int> s;
        while ((int) s.size() <= N) s.insert(pick(nodes.size()));
        std::vector<int> v(s.begin(), s.end());
        std::shuffle(v.begin(), v.end(), rng);
        [&]<int... I>(tensor::integer_sequence<I...>) { mesh.insert({ nodes[v[I]]... }); }(tensor::make_integer_sequence<N + 1>{});
        used.insert(s.begin(), s.end());
    }
    std::unordered_set<geo::node_t<D>, utilities::hash_function<geo::node_t<D>>> got;
    mesh::get_nodes(mesh, got);
    CHECK(got.size() == used.size(), "get_nodes: number of nodes");
    for (int i : used) CHECK(got.contains(nodes[i]), "get_nodes: a node of a cell");
    auto keys = [&](auto & f) {
        CHECK(f.size() == (int) used.size(), "number of entries of a field");
        int n = 0;
        for (auto & [node, value] : f) ++n;
        CHECK(n == (int) used.size(), "entries of a field");
        for (int i = 0; i < (int) nodes.size(); ++i)
            if (!used.count(i)) CHECK(absent(f, nodes[i]), "a node that is not a key");
    };
    auto a = discrete::mesh_field<double>(mesh, "a");
    CHECK(a.name() == "a", "name of a field");
    keys(a);
    for (int i : used) CHECK(a(nodes[i]) == 0.0, "default value");
    std::map<int, double> want;
    for (int i : used) a(nodes[i]) = want[i] = u();
    for (int i : used) CHECK(std::as_const(a)(nodes[i]) == want[i], "value of a key");
    keys(a);
    auto v = discrete::mesh_field<tensor::vector_t<2>>(mesh, "v");
    keys(v);
    for (int i : used) CHECK(v(nodes[i])[0] == 0.0 && v(nodes[i])[1] == 0.0, "default value");
    auto fun = [](const C & x) {
        double s = 1.5;
        for (int d = 0; d < D; ++d) s = 2.0 * s + std::sin((d + 1) * x[d]);
        return s;
    };
    auto s = discrete::mesh_field(mesh, cs, functions::function(decltype(fun)(fun)), "sampled");
    CHECK(s.name() == "sampled", "name of a field");
    keys(s);
    for (int i : used) CHECK(s(nodes[i]) == fun(at[i]), "sampled value");
    // by hand
    discrete::mesh_field_t<D, double> h("by hand");
    CHECK(h.size() == 0 && h.name() == "by hand", "field with no entries");
    std::map<int, double> model;
    for (int k = 0; k < 12; ++k) {
        int i = pick(nodes.size());
        if (!model.count(i)) {
            CHECK(absent(h, nodes[i]), "a key that was not inserted");
            if (pick(3)) h.insert(nodes[i], model[i] = u());
            else h.insert(nodes[i]), model[i] = 0.0;
        } else if (pick(2))
            h(nodes[i]) = model[i] = u();
        CHECK(h.size() == (int) model.size(), "number of entries");
        for (auto [j, x] : model) CHECK(std::as_const(h)(nodes[j]) == x && h(nodes[j]) == x, "value of a key");
    }
    auto & cloud = geo::point_cloud<D>();
    auto p = discrete::point_field<double>(cloud, "p");
    int points = 0;
    for (const auto & q : cloud.points()) {
        ++points;
        CHECK(p(q) == 0.0, "default value on a cloud of points");
    }
    CHECK(p.size() == points && p.name() == "p", "field on a cloud of points");
    for (auto & n : nodes) CHECK(p(n->point()) == 0.0, "default value on a cloud of points");
}

int main(int, char ** argv)
{
    seed = std::strtoul(argv[2], nullptr, 10);
    rng.seed(seed);
    for (round_ = 0; round_ < std::atoi(argv[3]); ++round_) {
        history<1, 1>();
        history<1, 2>();
        history<1, 3>();
        history<2, 2>();
        history<2, 3>();
        history<3, 3>();
    }
    return 0;
}
