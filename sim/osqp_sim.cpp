// Simulated OSQP (C interface of version 0.6). Not instrumented: a call is atomic.
#include "osqp_sim.hpp"
#include "rt.hpp"
#include <cmath>
#include <cstdlib>
#include <cstring>

#define ATOMIC __attribute__((no_sanitize_coverage))

namespace osqpsim {
ATOMIC Ctx & ctx()
{
  static thread_local Ctx c;
  return c;
}
ATOMIC static double hash01(uint64_t z)
{
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  z ^= z >> 31;
  return double(z >> 11) * 0x1p-53;
}
ATOMIC double xval(uint64_t vs, int k) { return 4 * hash01(vs * 1000 + uint64_t(k)) - 2; }
ATOMIC double yval(uint64_t vs, int k) { return 4 * hash01(vs * 1000 + 500 + uint64_t(k)) - 2; }
ATOMIC static void misuse(const char * w) { if (!ctx().seen.misuse) ctx().seen.misuse = w; }
ATOMIC static void fired(const char * k) { auto & s = ctx().seen; if (s.nfired < 8) s.fired[s.nfired++] = k; }
ATOMIC static int find_work(const OSQPWorkspace * w)
{
  auto & c = ctx();
  for (int k = 0; k < c.nwork; ++k) if (c.work[k] == w) return k;
  return -1;
}
ATOMIC static void dense(const csc * M, double * out, bool upper, bool & lower)
{
  auto & s = ctx().seen;
  for (int k = 0; k < CAP; ++k) out[k] = 0;
  if (M->m * M->n > CAP) { s.too_big = true; return; }
  for (c_int j = 0; j < M->n; ++j)
    for (c_int k = M->p[j]; k < M->p[j + 1]; ++k) {
      const c_int i = M->i[k];
      if (i < 0 || i >= M->m) { misuse("row index outside the matrix"); continue; }
      if (upper && i > j) lower = true;
      out[i + j * M->m] += M->x[k];
    }
}
ATOMIC static bool finite_or_inf(double v) { return !std::isnan(v); }
ATOMIC static c_int bad_data(const OSQPData * d)
{
  auto & s = ctx().seen;
  if (!d) return 1;
  if (!d->P || !d->A) return 2;
  if (!d->q || (d->m > 0 && (!d->l || !d->u))) return 3;
  if (d->n <= 0 || d->m < 0) return 4;
  if (d->P->m != d->n || d->P->n != d->n) return 5;
  if (d->A->m != d->m || d->A->n != d->n) return 6;
  if (s.p_lower) return 7;
  for (c_int i = 0; i < d->m; ++i) if (!(d->l[i] <= d->u[i])) return 8;
  return 0;
}
ATOMIC static c_int bad_settings(const OSQPSettings * s)
{
  if (!s) return 21;
  if (s->scaling < 0) return 22;
  if (s->adaptive_rho != 0 && s->adaptive_rho != 1) return 23;
  if (s->polish_refine_iter < 0) return 24;
  if (!(s->rho > 0) || !(s->sigma > 0) || !(s->delta > 0)) return 25;
  if (s->max_iter <= 0) return 26;
  if (s->eps_abs < 0 || s->eps_rel < 0 || (s->eps_abs == 0 && s->eps_rel == 0)) return 27;
  if (!(s->eps_prim_inf > 0) || !(s->eps_dual_inf > 0)) return 28;
  if (!(s->alpha > 0 && s->alpha < 2)) return 29;
  if (s->linsys_solver != QDLDL_SOLVER && s->linsys_solver != MKL_PARDISO_SOLVER) return 30;
  if (s->verbose != 0 && s->verbose != 1) return 31;
  if (s->scaled_termination != 0 && s->scaled_termination != 1) return 32;
  if (s->check_termination < 0) return 33;
  if (s->warm_start != 0 && s->warm_start != 1) return 34;
  if (s->polish != 0 && s->polish != 1) return 35;
  if (!(s->time_limit >= 0)) return 36;
  return 0;
}
}  // namespace osqpsim

using namespace osqpsim;

extern "C" {
ATOMIC void * osqp_sim_malloc(size_t n)
{
  auto & c = ctx();
  ++c.seen.allocs;
  if (c.script.alloc_fail && c.seen.allocs == c.script.alloc_fail) { fired("osqp_allocation_failure"); return nullptr; }
  if (c.nlive >= 256) return nullptr;
  void * p = malloc(n ? n : 1);
  if (p) { c.live[c.nlive++] = p; ++c.seen.live; }
  return p;
}
ATOMIC void * osqp_sim_calloc(size_t a, size_t b)
{
  void * p = osqp_sim_malloc(a * b);
  if (p) memset(p, 0, a * b);
  return p;
}
ATOMIC void osqp_sim_free(void * p)
{
  if (!p) return;
  auto & c = ctx();
  for (int k = 0; k < c.nlive; ++k)
    if (c.live[k] == p) {
      c.live[k] = c.live[--c.nlive];
      --c.seen.live;
      free(p);
      return;
    }
  misuse("released memory that OSQP did not hand out, or released it twice");
}
ATOMIC void * osqp_sim_realloc(void * p, size_t n)
{
  osqp_sim_free(p);
  return osqp_sim_malloc(n);
}
ATOMIC void osqp_set_default_settings(OSQPSettings * s)
{
  ctx().seen.defaults = true;
  s->rho = 0.1; s->sigma = 1e-6; s->scaling = 10; s->adaptive_rho = 1; s->adaptive_rho_interval = 0; s->adaptive_rho_tolerance = 5; s->adaptive_rho_fraction = 0.4;
  s->max_iter = 4000; s->eps_abs = 1e-3; s->eps_rel = 1e-3; s->eps_prim_inf = 1e-4; s->eps_dual_inf = 1e-4; s->alpha = 1.6; s->linsys_solver = QDLDL_SOLVER;
  s->delta = 1e-6; s->polish = 0; s->polish_refine_iter = 3; s->verbose = 1; s->scaled_termination = 0; s->check_termination = 25; s->warm_start = 1; s->time_limit = 0;
}
ATOMIC csc * csc_matrix(c_int m, c_int n, c_int nzmax, c_float * x, c_int * i, c_int * p)
{
  csc * M = (csc *)osqp_sim_malloc(sizeof(csc));
  if (!M) return nullptr;
  M->m = m; M->n = n; M->nz = -1; M->nzmax = nzmax; M->x = x; M->i = i; M->p = p;
  return M;
}
ATOMIC void csc_spfree(csc * M)
{
  if (!M) return;
  osqp_sim_free(M->p); osqp_sim_free(M->i); osqp_sim_free(M->x);
  osqp_sim_free(M);
}
ATOMIC c_int osqp_setup(OSQPWorkspace ** workp, const OSQPData * d, const OSQPSettings * st)
{
  auto & c = ctx();
  auto & s = c.seen;
  ++s.setups;
  s.setup = true;
  s.setup_ok = false;
  if (d && d->P && d->A && d->P->n > 0) {
    s.n = d->n; s.m = d->m;
    s.p_lower = false;
    bool dummy = false;
    dense(d->P, s.P, true, s.p_lower);
    dense(d->A, s.A, false, dummy);
    for (int k = 0; k < CAP; ++k) s.q[k] = d->q && k < d->n ? d->q[k] : 0;
    for (int k = 0; k < CAP; ++k) { s.l[k] = d->l && k < d->m ? d->l[k] : 0; s.u[k] = d->u && k < d->m ? d->u[k] : 0; }
  }
  if (const c_int e = bad_data(d)) { s.invalid = int(e); return OSQP_DATA_VALIDATION_ERROR; }
  if (const c_int e = bad_settings(st)) { s.invalid = int(e); return OSQP_SETTINGS_VALIDATION_ERROR; }
  s.st = *st;
  if (c.script.setup_fail == 1) { fired("setup_rejected"); return OSQP_DATA_VALIDATION_ERROR; }
  auto * w = (OSQPWorkspace *)osqp_sim_calloc(1, sizeof(OSQPWorkspace));
  if (!w) return OSQP_MEM_ALLOC_ERROR;
  *workp = w;
  if (c.nwork < 64) c.work[c.nwork++] = w;
  ++s.works;
  if (!(w->data = (OSQPData *)osqp_sim_calloc(1, sizeof(OSQPData)))) return OSQP_MEM_ALLOC_ERROR;
  w->data->n = d->n; w->data->m = d->m;
  if (!(w->settings = (OSQPSettings *)osqp_sim_malloc(sizeof(OSQPSettings)))) return OSQP_MEM_ALLOC_ERROR;
  *w->settings = *st;
  if (c.script.setup_fail == 2) { fired("setup_linsys_failed"); return OSQP_LINSYS_SOLVER_INIT_ERROR; }
  if (!(w->x = (double *)osqp_sim_calloc(size_t(d->n), 8))) return OSQP_MEM_ALLOC_ERROR;
  if (!(w->y = (double *)osqp_sim_calloc(size_t(d->m), 8))) return OSQP_MEM_ALLOC_ERROR;
  if (!(w->solution = (OSQPSolution *)osqp_sim_calloc(1, sizeof(OSQPSolution)))) return OSQP_MEM_ALLOC_ERROR;
  if (!(w->solution->x = (double *)osqp_sim_calloc(1, size_t(d->n) * 8))) return OSQP_MEM_ALLOC_ERROR;
  if (!(w->solution->y = (double *)osqp_sim_calloc(1, size_t(d->m) * 8))) return OSQP_MEM_ALLOC_ERROR;
  if (!(w->info = (OSQPInfo *)osqp_sim_calloc(1, sizeof(OSQPInfo)))) return OSQP_MEM_ALLOC_ERROR;
  w->info->status_val = OSQP_UNSOLVED;
  if (c.script.setup_fail == 3) { w->info->status_val = OSQP_NON_CVX; fired("setup_nonconvex"); return OSQP_NONCVX_ERROR; }
  s.setup_ok = true;
  return 0;
}
ATOMIC static bool usable(OSQPWorkspace * w, const char * what)
{
  if (!w) return false;
  if (find_work(w) < 0) { misuse(what); return false; }
  if (!w->info || !w->solution || !w->x || !w->y || !w->settings) { misuse("used the workspace of a failed setup"); return false; }
  return true;
}
ATOMIC c_int osqp_warm_start_x(OSQPWorkspace * w, const c_float * x)
{
  if (!usable(w, "warm start with a pointer that is not a workspace")) return OSQP_WORKSPACE_NOT_INIT_ERROR;
  w->settings->warm_start = 1;
  memcpy(w->x, x, size_t(w->data->n) * 8);
  return 0;
}
ATOMIC c_int osqp_warm_start_y(OSQPWorkspace * w, const c_float * y)
{
  if (!usable(w, "warm start with a pointer that is not a workspace")) return OSQP_WORKSPACE_NOT_INIT_ERROR;
  w->settings->warm_start = 1;
  if (w->data->m) memcpy(w->y, y, size_t(w->data->m) * 8);
  return 0;
}
ATOMIC c_int osqp_warm_start(OSQPWorkspace * w, const c_float * x, const c_float * y)
{
  if (!usable(w, "warm start with a pointer that is not a workspace")) return OSQP_WORKSPACE_NOT_INIT_ERROR;
  if (ctx().script.warm_fail) { fired("warm_start_failed"); return OSQP_WORKSPACE_NOT_INIT_ERROR; }
  osqp_warm_start_x(w, x);
  return osqp_warm_start_y(w, y);
}
ATOMIC c_int osqp_update_warm_start(OSQPWorkspace * w, c_int v) { if (!usable(w, "update of a pointer that is not a workspace")) return OSQP_WORKSPACE_NOT_INIT_ERROR; w->settings->warm_start = v; return 0; }
ATOMIC c_int osqp_update_max_iter(OSQPWorkspace * w, c_int v) { if (!usable(w, "update of a pointer that is not a workspace")) return OSQP_WORKSPACE_NOT_INIT_ERROR; w->settings->max_iter = v; return v <= 0; }
ATOMIC c_int osqp_update_time_limit(OSQPWorkspace * w, c_float v) { if (!usable(w, "update of a pointer that is not a workspace")) return OSQP_WORKSPACE_NOT_INIT_ERROR; w->settings->time_limit = v; return v < 0; }
ATOMIC c_int osqp_update_polish(OSQPWorkspace * w, c_int v) { if (!usable(w, "update of a pointer that is not a workspace")) return OSQP_WORKSPACE_NOT_INIT_ERROR; w->settings->polish = v; return 0; }
ATOMIC c_int osqp_update_verbose(OSQPWorkspace * w, c_int v) { if (!usable(w, "update of a pointer that is not a workspace")) return OSQP_WORKSPACE_NOT_INIT_ERROR; w->settings->verbose = v; return 0; }
ATOMIC c_int osqp_solve(OSQPWorkspace * w)
{
  auto & c = ctx();
  auto & s = c.seen;
  if (!usable(w, "solve with a pointer that is not a workspace")) return OSQP_WORKSPACE_NOT_INIT_ERROR;
  ++s.solves;
  s.solved = true;
  s.st     = *w->settings;
  s.warm   = w->settings->warm_start != 0;
  for (int k = 0; k < CAP; ++k) { s.x0[k] = s.warm && k < w->data->n ? w->x[k] : 0; s.y0[k] = s.warm && k < w->data->m ? w->y[k] : 0; }
  if (c.script.stall > 0) sim::clock_advance(int64_t(c.script.stall * 1e9));
  if (c.script.solve_fail) {  // interrupted: status is set, the solution is not
    fired("solve_failed");
    w->info->status_val = c.script.solve_fail == 1 ? OSQP_SIGINT : c.script.status;
    return 1;
  }
  w->info->status_val    = c.script.status;
  w->info->status_polish = c.script.polish;
  w->info->iter          = c.script.iter;
  w->info->obj_val       = c.script.obj;
  const bool none = c.script.status == OSQP_PRIMAL_INFEASIBLE || c.script.status == OSQP_DUAL_INFEASIBLE || c.script.status == OSQP_NON_CVX || c.script.status == OSQP_PRIMAL_INFEASIBLE_INACCURATE || c.script.status == OSQP_DUAL_INFEASIBLE_INACCURATE;
  if (none) w->info->obj_val = c.script.status == OSQP_NON_CVX ? OSQP_NAN : c.script.status == OSQP_PRIMAL_INFEASIBLE || c.script.status == OSQP_PRIMAL_INFEASIBLE_INACCURATE ? OSQP_INFTY : -OSQP_INFTY;
  for (c_int k = 0; k < w->data->n; ++k) w->solution->x[k] = none ? OSQP_NAN : xval(c.script.vs, int(k));
  for (c_int k = 0; k < w->data->m; ++k) w->solution->y[k] = none ? OSQP_NAN : yval(c.script.vs, int(k));
  return 0;
}
ATOMIC c_int osqp_cleanup(OSQPWorkspace * w)
{
  auto & c = ctx();
  if (!w) return 0;
  const int k = find_work(w);
  if (k < 0) { misuse("cleanup of a pointer that is not a workspace, or a second cleanup"); return 1; }
  c.work[k] = c.work[--c.nwork];
  ++c.seen.cleanups;
  osqp_sim_free(w->data); osqp_sim_free(w->settings); osqp_sim_free(w->x); osqp_sim_free(w->y);
  if (w->solution) { osqp_sim_free(w->solution->x); osqp_sim_free(w->solution->y); osqp_sim_free(w->solution); }
  osqp_sim_free(w->info);
  osqp_sim_free(w);
  return 0;
}
const char * osqp_version(void) { return OSQP_VERSION; }
}
