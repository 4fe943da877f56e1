/* Simulated OSQP: the C interface of OSQP 0.6, implemented by sim/osqp_sim.cpp. */
#pragma once
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef long long c_int;
typedef double c_float;

void * osqp_sim_malloc(size_t n);
void * osqp_sim_calloc(size_t a, size_t b);
void * osqp_sim_realloc(void * p, size_t n);
void osqp_sim_free(void * p);
#define c_malloc osqp_sim_malloc
#define c_calloc osqp_sim_calloc
#define c_realloc osqp_sim_realloc
#define c_free osqp_sim_free
#define OSQP_NULL 0
#define OSQP_VERSION "0.6.2"

#define OSQP_DUAL_INFEASIBLE_INACCURATE (4)
#define OSQP_PRIMAL_INFEASIBLE_INACCURATE (3)
#define OSQP_SOLVED_INACCURATE (2)
#define OSQP_SOLVED (1)
#define OSQP_MAX_ITER_REACHED (-2)
#define OSQP_PRIMAL_INFEASIBLE (-3)
#define OSQP_DUAL_INFEASIBLE (-4)
#define OSQP_SIGINT (-5)
#define OSQP_TIME_LIMIT_REACHED (-6)
#define OSQP_NON_CVX (-7)
#define OSQP_UNSOLVED (-10)
#define OSQP_INFTY ((c_float)1e30)
#define OSQP_NAN ((c_float)__builtin_nan(""))
#define MIN_SCALING (1e-04)

enum linsys_solver_type { QDLDL_SOLVER, MKL_PARDISO_SOLVER };
enum osqp_error_type {
  OSQP_DATA_VALIDATION_ERROR = 1, OSQP_SETTINGS_VALIDATION_ERROR, OSQP_LINSYS_SOLVER_LOAD_ERROR,
  OSQP_LINSYS_SOLVER_INIT_ERROR, OSQP_NONCVX_ERROR, OSQP_MEM_ALLOC_ERROR, OSQP_WORKSPACE_NOT_INIT_ERROR
};

typedef struct { c_int nzmax, m, n; c_int * p; c_int * i; c_float * x; c_int nz; } csc;
typedef struct { c_float c; c_float * D; c_float * E; c_float cinv; c_float * Dinv; c_float * Einv; } OSQPScaling;
typedef struct { c_float * x; c_float * y; } OSQPSolution;
typedef struct {
  c_int iter; char status[32]; c_int status_val; c_int status_polish;
  c_float obj_val, pri_res, dua_res, setup_time, solve_time, update_time, polish_time, run_time;
  c_int rho_updates; c_float rho_estimate;
} OSQPInfo;
typedef struct { c_int n, m; csc * P; csc * A; c_float * q; c_float * l; c_float * u; } OSQPData;
typedef struct {
  c_float rho, sigma; c_int scaling; c_int adaptive_rho, adaptive_rho_interval; c_float adaptive_rho_tolerance, adaptive_rho_fraction;
  c_int max_iter; c_float eps_abs, eps_rel, eps_prim_inf, eps_dual_inf, alpha; enum linsys_solver_type linsys_solver;
  c_float delta; c_int polish, polish_refine_iter, verbose, scaled_termination, check_termination, warm_start; c_float time_limit;
} OSQPSettings;
typedef struct {
  OSQPData * data; c_float * x; c_float * y; c_float * z; OSQPSettings * settings; OSQPScaling * scaling; OSQPSolution * solution; OSQPInfo * info;
} OSQPWorkspace;

void osqp_set_default_settings(OSQPSettings * settings);
c_int osqp_setup(OSQPWorkspace ** workp, const OSQPData * data, const OSQPSettings * settings);
c_int osqp_solve(OSQPWorkspace * work);
c_int osqp_cleanup(OSQPWorkspace * work);
c_int osqp_warm_start(OSQPWorkspace * work, const c_float * x, const c_float * y);
c_int osqp_warm_start_x(OSQPWorkspace * work, const c_float * x);
c_int osqp_warm_start_y(OSQPWorkspace * work, const c_float * y);
c_int osqp_update_warm_start(OSQPWorkspace * work, c_int v);
c_int osqp_update_max_iter(OSQPWorkspace * work, c_int v);
c_int osqp_update_time_limit(OSQPWorkspace * work, c_float v);
c_int osqp_update_polish(OSQPWorkspace * work, c_int v);
c_int osqp_update_verbose(OSQPWorkspace * work, c_int v);
csc * csc_matrix(c_int m, c_int n, c_int nzmax, c_float * x, c_int * i, c_int * p);
void csc_spfree(csc * A);
const char * osqp_version(void);
#ifdef __cplusplus
}
#endif
