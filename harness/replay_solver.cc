// random linear systems on the real code (PETSc included), compared with a reference
// usage: [mpiexec -n P] replay_solver PROPERTY SEED HISTORIES
#include <csignal>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <random>
#include <string>
#include <vector>
#include <unistd.h>
#include <mito/matrix_solvers.h>
#include <mito/solvers.h>
#include <mito/matrix_solvers/backend/petsc/PETScLinearSystem.cc>
#include <mito/matrix_solvers/backend/petsc/PETScKrylovSolver.cc>
using namespace mito;
namespace ps = mito::matrix_solvers::petsc;

static FILE * out;
static unsigned long seed;
static long history;
static int rank_, procs;
[[noreturn]] static void fail(const std::string & what)
{
    std::fprintf(out, "FAIL S01: %s (process %d of %d)\n  seed %lu, history %ld\n", what.c_str(), rank_, procs, seed, history);
    std::fflush(out);
    _exit(1);
}
static void onsignal(int s) { fail("the code ends with signal " + std::to_string(s)); }
#define REQUIRE(c, what) if (!(c)) fail(what)

struct entry { int i, j; double v; };       // j < 0: right-hand side
using sequence = std::vector<entry>;

// the discrete system of LinearSolver: assembles a sequence of entries
struct discrete {
    ps::PETScLinearSystem & s;
    const sequence & q;
    bool add_matrix, add_rhs;
    std::vector<double> x;
    auto linear_system() -> ps::PETScLinearSystem & { return s; }
    auto assemble() -> void
    {
        for (auto & e : q)
            if (e.j < 0)
                add_rhs ? s.add_rhs_value(e.i, e.v) : s.insert_rhs_value(e.i, e.v);
            else
                add_matrix ? s.add_matrix_value(e.i, e.j, e.v) : s.insert_matrix_value(e.i, e.j, e.v);
    }
    auto read_solution() -> void
    {
        x.assign(s.n_equations(), -12345.);
        s.get_solution(x);
    }
};

static void one()
{
    std::mt19937_64 common(seed * 7919 + history);
    auto pick = [](std::mt19937_64 & r, int n) { return int(r() % n); };
    const int n = 1 + pick(common, 12);
    const bool add_matrix = pick(common, 4), add_rhs = pick(common, 4);
    // the units: powers of two, so that sums are exact
    const double units[] = { 1, 1, std::ldexp(1., -40), std::ldexp(1., -60), std::ldexp(1., 40) };
    const double uA = units[pick(common, 5)], ub = units[pick(common, 5)];
    std::vector<std::vector<double>> A(n, std::vector<double>(n, 0));
    std::vector<double> b(n, 0);
    // values inserted are the same on all processes; values added are those of each process
    std::vector<sequence> all(procs);
    std::vector<std::vector<double>> M(n, std::vector<double>(n, 0));
    for (int i = 0; i < n; ++i) {
        for (int j = 0; j < n; ++j)
            if (i == j || pick(common, 3) == 0) M[i][j] = i == j ? 200 + pick(common, 10) : 1 + pick(common, 3);
    }
    for (int p = 0; p < procs; ++p) {
        sequence & q = all[p];
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j) {
                if (!M[i][j]) continue;
                if (!add_matrix) { q.push_back({ i, j, M[i][j] }); continue; }
                // a few contributions
                for (int k = 1 + pick(common, 2); k--;) q.push_back({ i, j, M[i][j] });
            }
        int m = add_rhs ? 3 * n : 1;
        if (add_rhs)
            for (int k = 0; k < m; ++k) q.push_back({ pick(common, n), -1, double(pick(common, 19) - 9) });
        else
            for (int i = 0; i < n; ++i) q.push_back({ i, -1, double((i * 7 + history) % 11 - 5) });
        for (int k = int(q.size()) - 1; k > 0; --k) std::swap(q[k], q[pick(common, k + 1)]);
        for (auto & e : q) {
            e.v *= e.j < 0 ? ub : uA;
            double & t = e.j < 0 ? b[e.i] : A[e.i][e.j];
            if (e.j < 0 ? add_rhs : add_matrix) t += e.v; else t = e.v;
        }
    }
    // (rows are dominated by their diagonal)
    auto s = ps::PETScLinearSystem("replay" + std::to_string(history));
    s.create(n);
    REQUIRE(s.n_equations() == n, "the number of equations");
    discrete d{ s, all[rank_], add_matrix, add_rhs, {} };
    auto solver = solvers::LinearSolver<discrete, ps::PETScKrylovSolver>(d);
    solver.set_options("-ksp_type gmres -ksp_gmres_restart 60 -pc_type none -ksp_rtol 1e-13 -ksp_atol 1e-200 -ksp_max_it 500");
    solver.solve();
    REQUIRE(int(d.x.size()) == n, "the size of the solution");
    double scale = ub / uA;
    for (double v : d.x) scale = std::max(scale, std::abs(v));
    for (int i = 0; i < n; ++i) {
        double r = -b[i], a = uA;
        for (int j = 0; j < n; ++j) r += A[i][j] * d.x[j], a = std::max(a, std::abs(A[i][j]));
        REQUIRE(std::abs(r) < 1e-6 * a * scale * n, "equation " + std::to_string(i) + " of " + std::to_string(n) + " is not satisfied by the solution read: relative residual " + std::to_string(r / (a * scale)));
    }
    solver.destroy();
}

int main(int argc, char ** argv)
{
    out = fdopen(dup(1), "w");
    if (!std::freopen("/dev/null", "w", stdout)) return 2;
    seed = argc > 2 ? std::strtoul(argv[2], nullptr, 10) : 1;
    long n = argc > 3 ? std::atol(argv[3]) : 10;
    petsc::initialize();
    MPI_Comm_rank(MPI_COMM_WORLD, &rank_);
    MPI_Comm_size(MPI_COMM_WORLD, &procs);
    for (int s : { SIGSEGV, SIGABRT, SIGFPE, SIGBUS }) std::signal(s, onsignal);
    for (history = 0; history < n; ++history) one();
    if (!rank_) std::fprintf(out, "ok: %ld histories\n", n), std::fflush(out);
    petsc::finalize();
}
