// histories of the reader and the writer of meshes on the real code: a random file of the format is read, the mesh compared with
// the file, written, the file written compared with the mesh, read back and compared again.
// usage: replay_io PROPERTY SEED COUNT
#include <mito/mesh.h>
#include <mito/io.h>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <filesystem>
#include <iostream>
#include <map>
#include <random>
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>
using namespace mito;
namespace geo = mito::geometry;
static std::mt19937_64 rng;
static std::string dir, say, doing;
static FILE * out;
static unsigned long seed, k;
static void onsignal(int s)
{
    std::fprintf(out, "FAIL I01: the code ends with signal %d when a mesh is %s\n  seed %lu, history %lu\n", s, doing.c_str(), seed, k);
    std::fflush(out);
    _exit(1);
}
static int uniform(int a, int b) { return a + int(rng() % (unsigned long)(b - a + 1)); }

static bool fail(const std::string & what)
{
    say = what;
    return false;
}

template <int N, int D>
struct listing {
    std::vector<std::array<double, D>> x;
    std::vector<std::array<int, N + 1>> c;
};

static double coordinate()
{
    double u = double(rng() >> 11) / double(1ull << 53);
    switch (uniform(0, 5)) {
        case 0: return uniform(-3, 3);
        case 1: return (u - 0.5) * 1e-7;
        case 2: return (u - 0.5) * 1e9;
        default: return 2 * u - 1;
    }
}

template <int N, int D>
static auto random_listing()
{
    listing<N, D> l;
    // now and then more vertices than 16 bits can number, or many cells
    bool many = k % 40 == 12, crowd = k % 80 == 37;
    int n = many ? 70000 : uniform(N + 1, uniform(0, 4) ? 12 : 150);
    for (int v = 0; v < n; v++) {
        std::array<double, D> x;
        for (auto & y : x)
            y = coordinate();
        // two vertices may have the same coordinates
        l.x.push_back(v && !uniform(0, 7) ? l.x[uniform(0, v - 1)] : x);
    }
    int cells = many ? 500 : crowd ? 3000 : uniform(0, uniform(0, 4) ? 10 : 250);
    for (int e = 0; e < cells; e++) {
        std::array<int, N + 1> c;
        for (int j = 0; j <= N; j++) {
            bool again;
            do {
                c[j] = uniform(0, n - 1);
                again = false;
                for (int i = 0; i < j; i++)
                    again |= c[i] == c[j];
            } while (again);
        }
        l.c.push_back(c);
    }
    return l;
}

template <int N, int D>
static auto text(const listing<N, D> & l)
{
    std::ostringstream s;
    s.precision(17);
    const char * eol = uniform(0, 1) ? "\n" : " \n";
    s << D << eol << l.x.size() << " " << l.c.size() << " 1" << eol;
    for (auto & x : l.x) {
        for (int d = 0; d < D; d++)
            s << (d ? " " : "") << x[d];
        s << eol;
    }
    int label = uniform(0, 2);
    for (auto & c : l.c) {
        s << N + 1;
        for (auto i : c)
            s << " " << i + 1;
        s << " " << (label == 0 ? "1" : label == 1 ? "562" : "body") << eol;
    }
    return s.str();
}

// the mesh has exactly the cells of the list, with the coordinates given; equal vertices of the list are equal nodes
template <int N, int D, class M, class CS>
static bool compare(const M & mesh, const CS & cs, const listing<N, D> & l, bool dg, double tolerance, std::string what)
{
    if (mesh.nCells() != int(l.c.size()))
        return fail(what + ": " + std::to_string(mesh.nCells()) + " cells instead of " + std::to_string(l.c.size()));
    std::map<int, geo::node_t<D>> node;
    std::map<const void *, int> vertex;
    std::map<const void *, int> owner;
    int k = 0;
    for (const auto & cell : mesh.cells()) {
        int j = 0;
        for (const auto & n : cell.nodes()) {
            int v = l.c[k][j];
            const auto & x = cs.coordinates(n->point());
            for (int d = 0; d < D; d++) {
                double err = std::abs(x[d] - l.x[v][d]);
                if (!(err <= tolerance * std::abs(l.x[v][d])))
                    return fail(what + ": cell " + std::to_string(k) + ", node " + std::to_string(j) + ", coordinate " + std::to_string(d) + ": "
                        + std::to_string(x[d]) + " instead of " + std::to_string(l.x[v][d]));
            }
            auto it = node.find(v);
            const void * id = reinterpret_cast<const void *>(long(n.id()));
            if (dg) {
                if (!owner.insert({ id, k }).second)
                    return fail(what + ": a node is shared in a discontinuous mesh");
                if (it != node.end() && (it->second->vertex().id() != n->vertex().id() || it->second->point().id() != n->point().id()))
                    return fail(what + ": the nodes of a vertex are on different vertices or points");
            } else if (it != node.end() && it->second.id() != n.id())
                return fail(what + ": a vertex has several nodes");
            auto [o, fresh] = vertex.insert({ reinterpret_cast<const void *>(long(n->vertex().id())), v });
            if (!fresh && o->second != v)
                return fail(what + ": two vertices of the file are one");
            if (it == node.end())
                node.insert({ v, n });
            j++;
        }
        k++;
    }
    return true;
}

template <int N, int D, template <int> class CELL, io::summit::GalerkinMeshType G>
static bool history()
{
    using cell = CELL<D>;
    using coords = geo::coordinates_t<D, geo::CARTESIAN>;
    auto l = random_listing<N, D>();
    auto name = dir + "/mesh";
    std::ofstream(name + ".summit") << text(l);
    auto cs = geo::coordinate_system<coords>();
    doing = "read";
    std::ifstream in(name + ".summit");
    auto mesh = io::summit::reader<cell, G>(in, cs);
    if (!compare(mesh, cs, l, G == io::summit::DG, 0, "mesh read"))
        return false;
    // written
    doing = "written";
    auto copy = dir + "/copy";
    std::string type = uniform(0, 2) ? "" : uniform(0, 1) ? "P1" : "7";
    io::summit::writer(copy, mesh, cs, type);
    std::ifstream file(copy + ".summit");
    int dim = 0, n = 0, c = 0, t = 0;
    file >> dim >> n >> c >> t;
    std::map<int, int> used;
    for (auto & x : l.c)
        for (auto v : x)
            used.insert({ v, 0 });
    if (dim != D || n != int(used.size()) || c != int(l.c.size()) || t != 1)
        return fail("header written: " + std::to_string(dim) + ", " + std::to_string(n) + " points (instead of " + std::to_string(used.size()) + "), " + std::to_string(c)
            + " cells, " + std::to_string(t));
    listing<N, D> w;
    for (int k = 0; k < n; k++) {
        std::array<double, D> x;
        for (auto & v : x)
            file >> v;
        w.x.push_back(x);
    }
    for (int k = 0; k < c; k++) {
        int kind = 0;
        file >> kind;
        if (kind != N + 1)
            return fail("type of a cell written: " + std::to_string(kind));
        std::array<int, N + 1> e;
        for (auto & v : e) {
            file >> v;
            if (--v < 0 || v >= n)
                return fail("number of a vertex written: " + std::to_string(v + 1));
        }
        std::string rest;
        std::getline(file, rest);
        w.c.push_back(e);
    }
    std::string more;
    if (!file || file >> more)
        return fail("the file written is longer or shorter than its contents");
    if (!compare(mesh, cs, w, G == io::summit::DG, 0, "file written"))
        return false;
    // and read back
    doing = "written with element type '" + type + "' and read back";
    auto again = geo::coordinate_system<coords>();
    std::ifstream back(copy + ".summit");
    auto mesh2 = io::summit::reader<cell, G>(back, again);
    if (!compare(mesh2, again, w, G == io::summit::DG, 0, "mesh written with element type '" + type + "' and read back"))
        return false;
    return compare(mesh2, again, l, G == io::summit::DG, 0, "mesh written and read back");
}

int main(int argc, char ** argv)
{
    seed = argc > 2 ? std::strtoul(argv[2], nullptr, 10) : 1;
    unsigned long count = argc > 3 ? std::strtoul(argv[3], nullptr, 10) : 100;
    char t[] = "/tmp/mito-io-XXXXXX";
    if (!mkdtemp(t))
        return 0;
    dir = t;
    out = fdopen(dup(1), "w");
    pid_t child = fork();
    if (child) {
        // whatever happens to the history, the directory is removed
        int status = 0;
        waitpid(child, &status, 0);
        std::filesystem::remove_all(dir);
        return WIFEXITED(status) ? WEXITSTATUS(status) : 1;
    }
    std::freopen("/dev/null", "w", stdout);
    for (int g : { SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGILL })
        std::signal(g, onsignal);
    using namespace io::summit;
    bool (*kinds[])() = { history<1, 2, geo::segment_t, CG>, history<1, 3, geo::segment_t, DG>, history<2, 2, geo::triangle_t, CG>, history<2, 2, geo::triangle_t, DG>,
        history<2, 3, geo::triangle_t, CG>, history<2, 3, geo::triangle_t, DG>, history<3, 3, geo::tetrahedron_t, CG>, history<3, 3, geo::tetrahedron_t, DG> };
    int rc = 0;
    for (k = 0; k < count && !rc; k++) {
        rng.seed(seed * 1000003 + k);
        say = "";
        if (!kinds[k % 8]()) {
            std::fprintf(out, "FAIL I01: %s\n  seed %lu, history %lu\n", say.c_str(), seed, k);
            rc = 1;
        }
    }
    std::fflush(out);
    _exit(rc);
}
