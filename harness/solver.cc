// contracts on the linear systems and solvers
#include <mito/matrix_solvers.h>
#include <mito/solvers.h>
#include <mito/matrix_solvers/backend/petsc/PETScLinearSystem.cc>
#include <mito/matrix_solvers/backend/petsc/PETScKrylovSolver.cc>
using namespace mito;
using system_type = matrix_solvers::petsc::PETScLinearSystem;
using krylov = matrix_solvers::petsc::PETScKrylovSolver;

// a discrete system and a matrix solver: their operations are recorded
extern "C" {
void ds_assemble(void *);
void ds_read(void *);
void *ds_linear(void *);
void ms_construct(void *, void *);
void ms_create(void *);
void ms_solve(void *);
void ms_destroy(void *);
void ms_options(void *, const void *);
}
struct linear_t {};
struct discrete_t {
    auto assemble() -> void { ds_assemble(this); }
    auto read_solution() -> void { ds_read(this); }
    auto linear_system() -> linear_t & { return *(linear_t *) ds_linear(this); }
};
struct solver_t {
    solver_t(linear_t & l) { ms_construct(this, &l); }
    auto create() -> void { ms_create(this); }
    auto solve() -> void { ms_solve(this); }
    auto destroy() -> void { ms_destroy(this); }
    auto set_options(const std::string & s) -> void { ms_options(this, &s); }
    auto print() const -> void {}
};
using chain_type = solvers::LinearSolver<discrete_t, solver_t>;

extern "C" {
void system_construct(const std::string * l, system_type * s) { new (s) system_type(*l); }
void system_create(system_type * s, int n) { s->create(n); }
void system_destroy(system_type * s) { s->destroy(); }
void system_assemble(system_type * s) { s->assemble(); }
void system_insert_matrix(system_type * s, int i, int j, const double * v) { s->insert_matrix_value(i, j, *v); }
void system_add_matrix(system_type * s, int i, int j, const double * v) { s->add_matrix_value(i, j, *v); }
void system_insert_rhs(system_type * s, int i, const double * v) { s->insert_rhs_value(i, *v); }
void system_add_rhs(system_type * s, int i, const double * v) { s->add_rhs_value(i, *v); }
int system_equations(const system_type * s) { return s->n_equations(); }
void system_solution(const system_type * s, std::vector<double> * x) { s->get_solution(*x); }
void krylov_construct(system_type * s, krylov * k) { new (k) krylov(*s); }
void krylov_create(krylov * k) { k->create(); }
void krylov_destroy(krylov * k) { k->destroy(); }
void krylov_solve(krylov * k) { k->solve(); }
void chain_construct(discrete_t * d, chain_type * c) { new (c) chain_type(*d); }
void chain_solve(chain_type * c) { c->solve(); }
void chain_destroy(chain_type * c) { c->destroy(); }
void chain_options(chain_type * c, const std::string * s) { c->set_options(*s); }
long solver_layout(int i)
{
    switch (i) {
    case 0: return sizeof(system_type);
    case 1: return __builtin_offsetof(system_type, _matrix);
    case 2: return __builtin_offsetof(system_type, _rhs);
    case 3: return __builtin_offsetof(system_type, _solution);
    case 4: return __builtin_offsetof(system_type, _n_equations);
    case 5: return sizeof(krylov);
    case 6: return __builtin_offsetof(krylov, _linear_system);
    case 7: return __builtin_offsetof(krylov, _ksp);
    case 8: return sizeof(chain_type);
    case 9: return __builtin_offsetof(chain_type, _discrete_system);
    case 10: return __builtin_offsetof(chain_type, _matrix_solver);
    case 11: return ADD_VALUES;
    case 12: return INSERT_VALUES;
    case 13: return PETSC_DECIDE;
    case 14: return MAT_FINAL_ASSEMBLY;
    case 15: return SCATTER_FORWARD;
    case 16: return sizeof(PetscInt);
    case 17: return MAT_FLUSH_ASSEMBLY;
    }
    return -1;
}
}
