// QP solver domain: histories of solver objects under faults, limits and interleavings.
#include "qp_iface.hpp"
#include "rt.hpp"

#include <algorithm>
#include <cstring>
#include <iostream>
#include <limits>
#include <sstream>

using namespace sim;
using namespace qp;

namespace qp {
const IType & type(int k)
{
  switch (k) {
    case 0: return type_dense();
    case 1: return type_sparse();
    case 2: return type_static();
    case 3: return type_partial();
    default: return type_static2();
  }
}
}  // namespace qp

static const double INF = std::numeric_limits<double>::infinity();
static const char * kCode[] = {"Optimal", "PolishFailed", "PrimalInfeasible", "DualInfeasible", "MaxIterations", "MaxTime", "Unknown"};
static const char * cname(int c) { return c >= 0 && c < 7 ? kCode[c] : "?"; }
static bool usable(int c) { return c == 0 || c == 1; }

// kinds of problems
enum { K_SC, K_SEMI, K_FEAS, K_INF_BOUND, K_INF_PAIR, K_INF_COMB, K_UNB, K_M0, K_REDUND, K_BADSCALE, K_TIGHT, K_N };
static const char * kKind[] = {"strongly-convex", "semidefinite", "feasibility", "empty-bounds", "contradicting-rows", "contradicting-sum", "unbounded", "no-constraints", "redundant-rows", "badly-scaled", "active-heavy"};

static double inorm(const Vec & v) { return v.size() ? v.cwiseAbs().maxCoeff() : 0.; }

// ------------------------------------------------------------------ problem generation
static Prob make_prob(const Op & op)
{
  Prob p;
  p.n    = int(op.i("n", 2));
  p.m    = int(op.i("m", 2));
  p.kind = int(op.i("kind", 0));
  Rng gs(uint64_t(op.i("ss")) * 7919 + uint64_t(p.n) * 131 + uint64_t(p.m));  // structure
  Rng g(uint64_t(op.i("vs")) * 104729 + 17);                                   // values
  const int n = p.n, m = p.m;
  const double dens = op.d("dens", 0.7);

  p.Pm.setConstant(n, n, false);
  p.Am.setConstant(m, n, false);
  for (int i = 0; i < n; ++i) {
    p.Pm(i, i) = true;
    for (int j = i + 1; j < n; ++j) p.Pm(i, j) = p.Pm(j, i) = gs.p(dens);
  }
  for (int i = 0; i < m; ++i) {
    for (int j = 0; j < n; ++j) p.Am(i, j) = gs.p(dens);
    if (n && p.Am.row(i).count() == 0 && !gs.p(0.05)) p.Am(i, gs.i(0, n - 1)) = true;
  }

  p.P.setZero(n, n);
  p.q.setZero(n);
  p.A.setZero(m, n);
  p.l.setConstant(m, -INF);
  p.u.setConstant(m, INF);

  // base: strongly convex cost, rows ~ N(0,1)
  for (int i = 0; i < n; ++i)
    for (int j = i + 1; j < n; ++j)
      if (p.Pm(i, j)) p.P(i, j) = p.P(j, i) = g.u(-0.7, 0.7);
  for (int i = 0; i < n; ++i) p.P(i, i) = p.P.row(i).cwiseAbs().sum() + g.u(0.2, 2);
  for (int i = 0; i < m; ++i)
    for (int j = 0; j < n; ++j)
      if (p.Am(i, j)) {
        double v  = g.n();
        p.A(i, j) = std::fabs(v) < 0.05 ? 0.5 : v;
      }
  p.xs.resize(n);
  for (int i = 0; i < n; ++i) p.xs(i) = 2 * g.n();
  p.ys.setZero(m);

  const bool semi = p.kind == K_SEMI || p.kind == K_TIGHT;
  if (semi) {
    // drop curvature in some directions, box all variables (as far as rows go)
    for (int i = 0; i < n; ++i) {
      if (g.p(0.5)) { p.P.row(i).setZero(); p.P.col(i).setZero(); }
    }
    for (int i = 0; i < std::min(n, m); ++i) {
      p.A.row(i).setZero();
      p.Am(i, i) = true;
      p.A(i, i)  = 1;
    }
    if (m < n)
      for (int i = m; i < n; ++i)
        if (p.P(i, i) == 0) p.P(i, i) = 1;
  }
  if (p.kind == K_FEAS) p.P.setZero();

  Vec ax = p.A * p.xs;
  for (int i = 0; i < m; ++i) {
    const bool box   = (semi && i < n) || p.kind == K_FEAS;
    const bool emptyrow = p.A.row(i).cwiseAbs().maxCoeff() == 0;
    double r = g.u();
    double s1 = g.u(0.3, 3), s2 = g.u(0.3, 3), mu = g.u(0.1, 2);
    if (p.kind == K_TIGHT) r *= 0.45;
    if (emptyrow) { p.l(i) = -1; p.u(i) = 1; continue; }
    if (p.kind == K_FEAS) {
      if (r < 0.2) { p.l(i) = p.u(i) = ax(i); }
      else if (r < 0.6) { p.l(i) = ax(i) - s1; p.u(i) = ax(i) + s2; }
      else if (r < 0.8) { p.l(i) = ax(i) - s1; }
      else { p.u(i) = ax(i) + s2; }
      continue;
    }
    if (r < 0.15) {  // equality
      p.l(i) = p.u(i) = ax(i);
      p.ys(i)         = g.n();
    } else if (r < 0.3) {  // upper active
      p.u(i) = ax(i);
      if (box || g.p(0.5)) p.l(i) = ax(i) - s1 - 1;
      p.ys(i) = mu;
    } else if (r < 0.45) {  // lower active
      p.l(i) = ax(i);
      if (box || g.p(0.5)) p.u(i) = ax(i) + s1 + 1;
      p.ys(i) = -mu;
    } else if (r < 0.75 || box) {
      p.l(i) = ax(i) - s1;
      p.u(i) = ax(i) + s2;
    } else if (r < 0.85) {
      p.l(i) = ax(i) - s1;
    } else if (r < 0.95) {
      p.u(i) = ax(i) + s2;
    }  // else free row
  }
  if (p.kind == K_REDUND && m >= 2) {
    // make some rows scaled copies of earlier rows (consistent)
    for (int i = 1; i < m; ++i) {
      if (!g.p(0.6)) continue;
      int j     = int(g.i(0, i - 1));
      double sc = g.p(0.5) ? 1. : g.u(0.5, 2);
      p.A.row(i) = sc * p.A.row(j);
      p.Am.row(i) = p.Am.row(i) || p.Am.row(j);
      p.l(i) = sc * p.l(j);
      p.u(i) = sc * p.u(j);
      p.ys(i) = 0;
    }
  }
  p.q       = -(p.P * p.xs + p.A.transpose() * p.ys);
  p.has_opt = true;
  if (p.kind == K_FEAS) { p.q.setZero(); }

  const bool strict = op.i("strict");
  if (strict && (p.kind == K_INF_PAIR || p.kind == K_INF_COMB)) {
    // every other row is far from active: the conflict is found in a bounded number of steps
    for (int i = 0; i < m; ++i) {
      p.l(i) = g.p(0.3) ? -INF : -1e4 * g.u(1, 2);
      p.u(i) = g.p(0.3) ? INF : 1e4 * g.u(1, 2);
    }
  }
  p.detect = p.kind == K_INF_BOUND || p.kind == K_UNB || strict;
  switch (p.kind) {
    case K_INF_BOUND:
      if (m) {
        int r = int(g.i(0, m - 1));
        switch (g.i(0, 3)) {
          case 0: p.l(r) = 1 + g.u(); p.u(r) = -g.u() - 0.1; break;
          case 1: p.l(r) = INF; p.u(r) = INF; break;
          case 2: p.u(r) = -INF; p.l(r) = -INF; break;
          default: p.l(r) = 0.5; p.u(r) = -0.5; break;
        }
        p.feasible = false;
      }
      break;
    case K_INF_PAIR:
      if (m >= 2) {
        int i = int(g.i(0, m - 1)), j = int(g.i(0, m - 2));
        if (j >= i) ++j;
        if (p.A.row(i).cwiseAbs().maxCoeff() == 0) { p.A(i, 0) = 1; p.Am(i, 0) = true; }
        double k    = (g.p(0.5) ? 1 : -1) * g.u(0.6, 1.7);
        p.A.row(j)  = k * p.A.row(i);
        p.Am.row(j) = p.Am.row(j) || p.Am.row(i);
        double c    = 2 * g.n(), gap = g.u(1, 3) * (1 + p.A.row(i).cwiseAbs().maxCoeff());
        // a_i x <= c  and  a_i x >= c + gap
        p.u(i) = c;
        p.l(i) = g.p(0.5) ? -INF : c - g.u(0, 3);
        double lo = c + gap, hi = g.p(0.5) ? INF : c + gap + g.u(0, 3);
        if (k > 0) { p.l(j) = k * lo; p.u(j) = hi == INF ? INF : k * hi; }
        else { p.u(j) = k * lo; p.l(j) = hi == INF ? -INF : k * hi; }
        p.feasible = false;
      }
      break;
    case K_INF_COMB:
      if (m >= 3) {
        int r[3] = {0, 1, 2};
        for (int k = 0; k < 3; ++k) r[k] = int((r[k] + op.i("vs")) % m);
        for (int k = 0; k < 2; ++k)
          if (p.A.row(r[k]).cwiseAbs().maxCoeff() == 0) { p.A(r[k], k % n) = 1; p.Am(r[k], k % n) = true; }
        p.A.row(r[2])  = p.A.row(r[0]) + p.A.row(r[1]);
        p.Am.row(r[2]) = p.Am.row(r[0]) || p.Am.row(r[1]) || p.Am.row(r[2]);
        if (strict && n >= 2) {
          int a = int(g.i(0, n - 1)), b = (a + 1) % n;
          double sa = (g.p(0.5) ? 1 : -1) * g.u(0.6, 1.7), sb = (g.p(0.5) ? 1 : -1) * g.u(0.6, 1.7);
          p.A.row(r[0]).setZero(); p.A.row(r[1]).setZero();
          p.A(r[0], a) = sa;
          p.A(r[1], b) = sb;
          if (g.p(0.5)) p.A(r[1], a) = 0.4 * sa;
          p.A.row(r[2]) = p.A.row(r[0]) + p.A.row(r[1]);
          for (int k = 0; k < 3; ++k) for (int j = 0; j < n; ++j) if (p.A(r[k], j) != 0) p.Am(r[k], j) = true;
        }
        if (p.A.row(r[2]).cwiseAbs().maxCoeff() < 0.3) { p.A(r[0], 0) += 1; p.A(r[2], 0) += 1; p.Am(r[0], 0) = p.Am(r[2], 0) = true; }
        double c0 = g.n(), c1 = g.n();
        double gap = g.u(1, 3) * (1 + p.A.cwiseAbs().maxCoeff());
        p.u(r[0]) = c0; p.l(r[0]) = -INF;
        p.u(r[1]) = c1; p.l(r[1]) = -INF;
        p.l(r[2]) = c0 + c1 + gap; p.u(r[2]) = INF;
        p.feasible = false;
      }
      break;
    case K_UNB: {
      int j = int(g.i(0, n - 1));
      p.P.row(j).setZero();
      p.P.col(j).setZero();
      p.q    = -(p.P * p.xs);
      double s = g.p(0.5) ? 1 : -1;  // direction d = s e_j
      p.q(j) = -s * g.u(0.5, 2);
      for (int i = 0; i < m; ++i) {
        double a = p.A(i, j) * s;
        if (g.p(0.25)) { p.A(i, j) = 0; a = 0; }
        ax = p.A * p.xs;
        // rows stay feasible at xs
        if (a > 0) { p.l(i) = g.p(0.3) ? -INF : ax(i) - g.u(0.3, 2); p.u(i) = INF; }
        else if (a < 0) { p.u(i) = g.p(0.3) ? INF : ax(i) + g.u(0.3, 2); p.l(i) = -INF; }
        else { p.l(i) = ax(i) - g.u(0.3, 2); p.u(i) = ax(i) + g.u(0.3, 2); }
      }
      p.bounded = false;
      break;
    }
    case K_BADSCALE: {
      p.nice = false;
      double cs = g.logu(1e-2, 1e2);
      p.P *= cs; p.q *= cs; p.ys *= cs;
      for (int i = 0; i < m; ++i) {
        double rs = g.logu(1e-2, 1e2);
        p.A.row(i) *= rs;
        p.l(i) *= rs; p.u(i) *= rs;
        p.ys(i) /= rs;
      }
      break;
    }
    default: break;
  }
  if (!p.feasible || !p.bounded) p.has_opt = false;
  if (p.has_opt) p.fs = p.xs.dot(0.5 * (p.P * p.xs) + p.q);

  if (op.d("nan") > 0) {
    p.corrupt = true;
    p.has_opt = false;
    switch (op.i("nan")) {
      case 1: p.q(g.i(0, n - 1)) = NAN; break;
      case 2: if (m) p.l(g.i(0, m - 1)) = NAN; break;
      case 3: if (m) p.A(g.i(0, m - 1), g.i(0, n - 1)) = NAN; break;
      default: { int i = int(g.i(0, n - 1)); p.P(i, i) = NAN; break; }
    }
  }
  // stored pattern: natural (nonzeros only) or the structural mask
  if (!op.i("mask", 1)) {
    p.Pm.setConstant(false);
    p.Am.setConstant(false);
  }
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j)
      if (p.P(i, j) != 0) p.Pm(i, j) = true;
  for (int i = 0; i < m; ++i)
    for (int j = 0; j < n; ++j)
      if (p.A(i, j) != 0) p.Am(i, j) = true;
  uint64_t h = hcomb(uint64_t(n), uint64_t(m));
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) h = hcomb(h, p.Pm(i, j));
  for (int i = 0; i < m; ++i)
    for (int j = 0; j < n; ++j) h = hcomb(h, p.Am(i, j));
  p.pattern_hash = h;
  return p;
}

static QPSolverParams make_prm(const Op & op)
{
  QPSolverParams r;
  r.verbose         = op.i("verbose", 0);
  r.alpha           = float(op.d("alpha", 1.6));
  r.rho             = float(op.d("rho", 0.1));
  r.sigma           = float(op.d("sigma", 1e-6));
  r.scaling         = op.i("scaling", 1);
  r.eps_abs         = float(op.d("eps", 1e-3));
  r.eps_rel         = float(op.d("epsr", op.d("eps", 1e-3)));
  r.eps_primal_inf  = float(op.d("epi", 1e-4));
  r.eps_dual_inf    = float(op.d("edi", 1e-4));
  if (op.has("max_iter")) r.max_iter = uint32_t(op.i("max_iter"));
  if (op.has("max_time")) r.max_time = std::chrono::nanoseconds(int64_t(op.d("max_time") > 9.2e18 ? 9223372036854775807.0 : op.d("max_time")) );
  if (op.has("max_time") && op.d("max_time") > 9.2e18) r.max_time = std::chrono::nanoseconds::max();
  r.stop_check_iter = uint32_t(op.i("sci", 25));
  r.polish          = op.i("polish", 1);
  r.polish_iter     = uint32_t(op.i("polish_iter", 5));
  r.delta           = float(op.d("delta", 1e-6));
  return r;
}

// ------------------------------------------------------------------ oracles
static void check_kkt(const Prob & p, const QPSolverParams & prm, const SolView & s, const char * where)
{
  const double ea = prm.eps_abs, er = prm.eps_rel;
  if (s.x.size() != p.n || s.y.size() != p.m) fail("dimension", "%s: %s solution has sizes %ld,%ld for a problem with n=%d m=%d", where, cname(s.code), long(s.x.size()), long(s.y.size()), p.n, p.m);
  if (!s.x.allFinite() || !s.y.allFinite() || !std::isfinite(s.obj)) fail("optimal-nonfinite", "%s: %s with non-finite values", where, cname(s.code));
  Vec ax = p.A * s.x, px = p.P * s.x, aty = p.A.transpose() * s.y;
  const double sc_y = 1 + inorm(s.y), sc_ax = 1 + inorm(ax);
  const double tiny = 1e-9 * (sc_y + sc_ax);
  double rp = 0, zn = 0;
  int wr = -1;
  for (int i = 0; i < p.m; ++i) {
    double z = std::min(std::max(ax(i), p.l(i)), p.u(i));
    if (s.y(i) > tiny) z = p.u(i);
    if (s.y(i) < -tiny) z = p.l(i);
    // a tiny multiplier may belong to either an active or an inactive row
    if (std::fabs(s.y(i)) > tiny && std::fabs(s.y(i)) < 1e-6 * sc_y) {
      double zc = std::min(std::max(ax(i), p.l(i)), p.u(i));
      if (std::fabs(ax(i) - zc) < std::fabs(ax(i) - z)) z = zc;
    }
    double e = std::fabs(ax(i) - z);
    if (!(e <= rp)) { rp = e; wr = i; }
    if (std::isfinite(z)) zn = std::max(zn, std::fabs(z));
  }
  const double tolp = (ea + er * std::max(inorm(ax), zn)) * 1.02 + 1e-9 * (sc_ax + zn);
  if (!(rp <= tolp))
    fail("optimal-infeasible", "%s: %s but row %d: Ax=%.9g not in [%.9g,%.9g] / inconsistent with multiplier %.3g (residual %.3g > tol %.3g)", where, cname(s.code), wr, ax(wr), p.l(wr), p.u(wr), s.y(wr), rp, tolp);
  Vec rd            = px + p.q + aty;
  const double told = (ea + er * std::max({inorm(px), inorm(p.q), inorm(aty)})) * 1.02 + 1e-9 * (1 + inorm(px) + inorm(p.q) + inorm(aty));
  if (!(inorm(rd) <= told)) fail("optimal-not-stationary", "%s: %s but |Px+q+A'y|=%.4g > tol %.4g", where, cname(s.code), inorm(rd), told);
  if (p.has_opt) {
    double f  = s.x.dot(0.5 * px + p.q);
    double up = told * (s.x - p.xs).cwiseAbs().sum() + tolp * s.y.cwiseAbs().sum() + 1e-7 * (1 + std::fabs(p.fs));
    double lo = tolp * p.ys.cwiseAbs().sum() + 1e-7 * (1 + std::fabs(p.fs));
    if (f - p.fs > 1.5 * up || p.fs - f > 1.5 * lo) fail("optimal-wrong-value", "%s: %s but objective %.9g, optimum %.9g (allowed -%.3g/+%.3g)", where, cname(s.code), f, p.fs, lo, up);
  }
}
static void check_obj(const Prob & p, const SolView & s, const char * where)
{
  if (!s.x.allFinite()) return;
  Vec px   = p.P * s.x;
  double f = s.x.dot(0.5 * px + p.q), mag = 1 + std::fabs(s.x.dot(px)) + s.x.cwiseAbs().dot(p.q.cwiseAbs());
  if (std::isfinite(mag) && !(std::fabs(f - s.obj) <= 1e-9 * mag)) fail("objective", "%s: reported objective %.12g, cost at the returned point %.12g", where, s.obj, f);
}

static bool close(const Vec & a, const Vec & b, double tol)
{
  if (a.size() != b.size()) return false;
  double sc = 1 + std::max(inorm(a), inorm(b));
  if (!std::isfinite(sc)) return true;  // diverged iterates are not compared
  for (int i = 0; i < a.size(); ++i)
    if (!(std::fabs(a(i) - b(i)) <= tol * sc)) return false;
  return true;
}
static void check_same(const SolView & a, const SolView & b, const char * cls, const char * where, bool iters = true)
{
  if (a.code != b.code) fail(cls, "%s: status %s, but %s for the reference solve of the same problem", where, cname(a.code), cname(b.code));
  if (iters && a.iter != b.iter) fail(cls, "%s: %u iterations, but %u for the reference solve of the same problem", where, a.iter, b.iter);
  if (a.code == 2 || a.code == 3 || a.code == 6) return;  // no solution returned
  if (!close(a.x, b.x, 1e-8) || !close(a.y, b.y, 1e-8)) fail(cls, "%s: solution differs from the reference solve of the same problem by %.3g / %.3g", where, a.x.size() == b.x.size() ? inorm(a.x - b.x) : NAN, a.y.size() == b.y.size() ? inorm(a.y - b.y) : NAN);
  if (std::isfinite(b.obj) && std::fabs(a.obj - b.obj) > 1e-7 * (1 + std::fabs(b.obj))) fail(cls, "%s: objective %.12g, but %.12g for the reference solve", where, a.obj, b.obj);
}

// ------------------------------------------------------------------ faulty stdout
struct FaultBuf : std::streambuf
{
  int mode{0};          // 0: swallow, 1: fail after n chars, 2: throw after n chars, 3: accept one char per call, 4: stall clock
  int64_t left{0};
  uint64_t chars{0};
  std::string text;
  bool hit()
  {
    if (mode == 1) { if (left <= 0) { fault("stdout_write_error"); return true; } }
    if (mode == 2) { if (left <= 0) { fault("stdout_throws"); throw InjectedError("stdout device error"); } }
    return false;
  }
  int overflow(int c) override
  {
    if (hit()) return traits_type::eof();
    if (mode == 4) { clock_advance(left); fault("stdout_stall"); }
    else --left;
    ++chars;
    return c == traits_type::eof() ? 0 : c;
  }
  std::streamsize xsputn(const char * s, std::streamsize n) override
  {
    (void)s;
    if (hit()) return 0;
    if (mode == 3 && n > 1) { fault("stdout_short_write"); ++chars; return 1; }
    if (mode == 4) { clock_advance(left); fault("stdout_stall"); }
    else left -= n;
    chars += uint64_t(n);
    return n;
  }
  int sync() override { return mode == 1 && left <= 0 ? -1 : 0; }
};

// ------------------------------------------------------------------ execution
struct Slot
{
  std::unique_ptr<ISolver> s;
  int type{0};
  QPSolverParams prm;
  uint64_t sig{0};  // pattern the solver is analyzed for (0: none)
  int n{-1}, m{-1};
  bool has_sol{false};
  SolView last;
  bool far{false};    // last solve started far away, or from corrupted values
  bool clean{false};  // sol() refers to a completed solve
  int dn{-2}, dm{-2};  // dimensions used since construction (-3: several)
  uint64_t dsig{0};
};

struct Rec { SolView v; int p; int prm; std::string where; };

struct Exec
{
  const Plan & plan;
  std::string prop;
  std::map<int, Prob> probs;
  std::map<int, Op> prob_ops;
  std::map<int, Op> prms;
  std::map<std::pair<int, int>, std::unique_ptr<IPbm>> pbms;  // (prob, type)
  Exec(const Plan & pl) : plan(pl), prop(pl.prop) {}

  void prepare()
  {
    for (auto & op : plan.ops) {
      if (op.k == "prob") {
        auto & p = probs[int(op.i("id"))] = make_prob(op);
        prob_ops[int(op.i("id"))]         = op;
        if (g_trace) {
          auto dump = [&](const char * nm, const Mat & x) {
            fprintf(stderr, "  %s = [", nm);
            for (int i = 0; i < x.rows(); ++i) { for (int j = 0; j < x.cols(); ++j) fprintf(stderr, "%s%.17g", j ? ", " : i ? "; " : "", x(i, j)); }
            fprintf(stderr, "]\n");
          };
          fprintf(stderr, "problem %d (%s)\n", int(op.i("id")), kKind[p.kind]);
          dump("P", p.P); dump("q", p.q.transpose()); dump("A", p.A); dump("l", p.l.transpose()); dump("u", p.u.transpose());
        }
      }
      if (op.k == "prm") prms[int(op.i("id"))] = op;
    }
    for (auto & op : plan.ops) {
      if (!op.has("p")) continue;
      int pi = int(op.i("p"));
      if (!probs.count(pi)) continue;
      for (int t = 0; t < kTypes; ++t) {
        if (!compatible(t, probs[pi])) continue;
        if (!used(t)) continue;
        auto key = std::make_pair(pi, t);
        if (!pbms.count(key)) pbms[key] = type(t).pbm(probs[pi], int(prob_ops[pi].i("rep")), uint64_t(prob_ops[pi].i("vs")));
      }
    }
  }
  bool used(int t)
  {
    for (auto & op : plan.ops)
      if (op.has("ty") && int(op.i("ty")) == t) return true;
    return false;
  }
  static bool compatible(int t, const Prob & p)
  {
    auto & ty = type(t);
    return (ty.fixed_n() < 0 || ty.fixed_n() == p.n) && (ty.fixed_m() < 0 || ty.fixed_m() == p.m);
  }
  QPSolverParams prm(int id) { return prms.count(id) ? make_prm(prms[id]) : QPSolverParams{}; }

  void run(int tid, std::vector<Rec> * rec);
  void do_solve(std::map<int, Slot> & slots, const Op & op, std::vector<Rec> * rec, size_t opi);
  void verdict_oracles(const Prob & p, const QPSolverParams & q, const SolView & v, const char * w, bool ws_corrupt);
  void limits_oracle(const Prob & p, const QPSolverParams & q, Slot & s, const IPbm & pb, const ISol * ws, const Op & op, const char * w);
};

// state measure: what kind of situation was reached
static void note_state(const Prob & p, const QPSolverParams & q, const SolView & v, uint64_t ctx)
{
  uint64_t h = hcomb(uint64_t(p.kind), uint64_t(v.code));
  h          = hcomb(h, uint64_t(p.n * 32 + p.m));
  h          = hcomb(h, uint64_t(std::log2(1.0 + v.iter)));
  h          = hcomb(h, uint64_t(q.scaling) + 2 * q.polish + 4 * q.verbose + 8 * bool(q.max_iter) + 16 * bool(q.max_time));
  // active set signature
  if (v.y.size() == p.m && v.y.allFinite()) {
    uint64_t a = 0;
    for (int i = 0; i < p.m; ++i) a = a * 3 + (v.y(i) > 1e-7 ? 1 : v.y(i) < -1e-7 ? 2 : 0);
    h = hcomb(h, a);
  }
  state(hcomb(h, ctx));
}

void Exec::verdict_oracles(const Prob & p, const QPSolverParams & q, const SolView & v, const char * w, bool ws_corrupt)
{
  probe(std::string("verdict_") + cname(v.code));
  if (prop == "C01" && usable(v.code)) {
    check_kkt(p, q, v, w);
    check_obj(p, v, w);
  }
  if (prop == "C01" && (v.code == 4 || v.code == 5)) check_obj(p, v, w);
  const bool defaults = !ws_corrupt && !p.corrupt && p.nice && (!q.max_iter || *q.max_iter >= 10000) && !q.max_time && q.eps_abs >= 1e-5f;
  if (prop == "C01" && defaults && p.has_opt && !usable(v.code) && (v.code == 4 || v.code == 6))
    fail("no-progress", "%s: a well-posed %s problem with an optimum was not solved: %s after %u iterations", w, kKind[p.kind], cname(v.code), v.iter);
  if (prop == "C02" && !p.corrupt) {
    // Verdicts are certificates up to a tolerance. From an arbitrary start a borderline certificate may be met, but
    // never when the problem is feasible (bounded) with a margin above that tolerance.
    double slack = INF;
    if (p.feasible) { Vec ax = p.A * p.xs; for (int i = 0; i < p.m; ++i) slack = std::min({slack, ax(i) - p.l(i), p.u(i) - ax(i)}); }
    const bool far       = ws_corrupt;
    const bool sure_feas = p.feasible && (!far || slack > 1e-3 * (1 + p.xs.cwiseAbs().sum()));
    const bool sure_bnd  = p.bounded && (!far || p.kind == K_SC);
    if (sure_feas && v.code == 2) fail("false-infeasible", "%s: PrimalInfeasible for a %s problem that has a feasible point", w, kKind[p.kind]);
    if (sure_bnd && p.feasible && v.code == 3) fail("false-unbounded", "%s: DualInfeasible for a %s problem whose cost is bounded below", w, kKind[p.kind]);
    // "optimal" for such a problem is only right within the relative tolerance at a point far away
    if ((!p.feasible || !p.bounded) && usable(v.code)) {
      probe("optimal_within_relative_tolerance");
      try { check_kkt(p, q, v, w); } catch (Violation & x) { fail("false-optimal", "%s for a %s problem without optimum: %s", cname(v.code), kKind[p.kind], x.msg.c_str()); }
    }
    if (defaults && p.detect && v.code == 2 + !p.bounded) {
      probe(p.bounded ? "infeasibility_detected" : "unboundedness_detected");
      if (v.iter > 5000) probe("slow_detection");
    }
    if (defaults && p.detect && !p.feasible && v.code != 2) fail("undetected-infeasible", "%s: %s (expected PrimalInfeasible) for a %s problem after %u iterations", w, cname(v.code), kKind[p.kind], v.iter);
    if (defaults && p.detect && !p.bounded && v.code != 3) fail("undetected-unbounded", "%s: %s (expected DualInfeasible) for an unbounded problem after %u iterations", w, cname(v.code), v.iter);
  }
}

static SolView fresh(int t, const IPbm & pb, const QPSolverParams & q, const ISol * ws, SutResult * out = nullptr)
{
  auto s = type(t).solver();
  SutResult r = sut([&] { s->ctor(pb, q); });
  r           = sut([&] { s->solve(pb, ws); });
  if (!r.ok) fail("unexpected-exception", "fault-free solve threw: %s", r.ex.c_str());
  if (out) *out = r;
  SolView v = s->sol();
  sut([&] { s->destroy(); });
  return v;
}

void Exec::do_solve(std::map<int, Slot> & slots, const Op & op, std::vector<Rec> * rec, size_t opi)
{
  const int pi = int(op.i("p"));
  if (!slots.count(int(op.i("s"))) || !probs.count(pi)) return;
  Slot & s       = slots[int(op.i("s"))];
  const Prob & p = probs[pi];
  if (!s.s || !s.s->alive() || !compatible(s.type, p)) return;
  const IPbm & pb = *pbms.at({pi, s.type});
  std::string ws_name = "cold";
  char where[200];

  // (re)analyze when the structure changed
  if (s.sig != p.pattern_hash || op.i("an")) {
    auto r = sut([&] { s.s->analyze(pb); });
    if (!r.ok) fail("unexpected-exception", "op %zu analyze: %s", opi, r.ex.c_str());
    probe(s.sig ? "reanalyzed_for_other_structure" : "analyzed");
    if (s.dn == -2) { s.dn = p.n; s.dm = p.m; s.dsig = p.pattern_hash; }
    else if (s.dn != p.n || s.dm != p.m) s.dn = -3;
    s.sig     = p.pattern_hash;
    s.n       = p.n;
    s.m       = p.m;
    s.has_sol = false;
    s.clean   = false;
  }

  // warm start
  SolView wv;
  bool have_ws = false, self = false, ws_bad = false;
  Rng g(uint64_t(op.i("wseed")) + 99);
  auto rnd = [&](double sc) { wv.x.resize(p.n); wv.y.resize(p.m); for (int i = 0; i < p.n; ++i) wv.x(i) = sc * g.n(); for (int i = 0; i < p.m; ++i) wv.y(i) = sc * g.n(); };
  switch (op.i("ws")) {
    case 1: if (s.has_sol && s.last.x.size() == p.n && s.last.y.size() == p.m && s.last.x.allFinite() && s.last.y.allFinite() && inorm(s.last.x) < 1e6 && inorm(s.last.y) < 1e6) { wv = s.last; have_ws = true; ws_name = "last"; } break;
    case 2: if (p.has_opt) { wv.x = p.xs; wv.y = p.ys; have_ws = true; ws_name = "optimum"; } break;
    case 3: rnd(3); have_ws = true; ws_name = "random"; break;
    case 4: rnd(1e4); have_ws = true; ws_name = "far"; break;
    case 5: rnd(1); have_ws = true; ws_bad = true; if (g.p(0.5) || p.m == 0) wv.x(g.i(0, p.n - 1)) = NAN; else wv.y(g.i(0, p.m - 1)) = g.p(0.5) ? NAN : INF; ws_name = "corrupted"; fault("warmstart_corrupted"); break;
    case 6: if (s.clean && s.has_sol && s.last.x.size() == p.n && s.last.y.size() == p.m && s.last.x.allFinite() && s.last.y.allFinite() && inorm(s.last.x) < 1e6 && inorm(s.last.y) < 1e6) { wv = s.last; have_ws = self = true; ws_name = "self"; } break;
    default: break;
  }
  if (op.i("ws") == 4) ws_bad = true;  // far away start: only soundness is demanded
  if ((op.i("ws") == 1 || op.i("ws") == 6) && have_ws && (s.far || inorm(wv.x) > 1e3 || inorm(wv.y) > 1e3)) ws_bad = true;
  s.far = ws_bad;
  std::unique_ptr<ISol> ws = have_ws ? type(s.type).sol(wv) : nullptr;
  snprintf(where, sizeof where, "op %zu (%s solver %d, problem %d %s n=%d m=%d, warmstart %s)", opi, type(s.type).name(), int(op.i("s")), pi, kKind[p.kind], p.n, p.m, ws_name.c_str());
  probe("warmstart_" + ws_name);

  if (op.has("idle")) { clock_advance(int64_t(op.d("idle"))); }

  if (prop == "C03") {
    limits_oracle(p, s.prm, s, pb, ws.get(), op, where);
    s.last = s.s->sol(); s.has_sol = true; s.clean = true;
    return;
  }

  const bool need_base = prop == "C04" || prop == "C06" || prop == "C07" || op.has("af");
  SolView base;
  SutResult rb;
  if (need_base) {
    QPSolverParams q = s.prm;
    q.verbose        = prop == "C07" ? s.prm.verbose : false;
    FaultBuf sink;
    auto * old = std::cout.rdbuf(&sink);
    heap_fill(uint64_t(op.i("fill", 1)) * 3 + 1);
    base = fresh(s.type, pb, q, ws.get(), &rb);
    std::cout.rdbuf(old);
    heap_fill(uint64_t(op.i("fill", 1)) * 5 + 2);
  }
  CallFaults cf;
  // Eigen's dynamic storage does not survive a failing *re*-size, so memory only runs out in solvers
  // whose problem dimensions never changed (see DESIGN.md)
  if (op.has("af") && rb.allocs && s.dn != -3 && s.type != 1) {
    cf.fail_alloc   = 1 + uint64_t(op.d("af") * double(rb.allocs)) % rb.allocs;
    cf.fail_alloc_n = uint64_t(op.i("afn", 1));
    if (op.has("afe") && s.s->alive()) {
      // count from the end of this very call, measured on a copy of the solver
      auto tmp = type(s.type).solver();
      SutResult rc;
      FaultBuf quiet;
      auto * o2 = std::cout.rdbuf(&quiet);
      sut([&] { tmp->copy_ctor(*s.s); });
      rc = sut([&] { if (self) tmp->solve_self(pb); else tmp->solve(pb, ws.get()); });
      sut([&] { tmp->destroy(); });
      std::cout.rdbuf(o2);
      const uint64_t e = uint64_t(op.i("afe"));
      if (rc.ok && rc.allocs >= e && e >= 1) cf.fail_alloc = rc.allocs - e + 1;
    }
  }
  FaultBuf sink;
  sink.mode = int(op.i("io"));
  sink.left = op.i("io_at");
  auto * old       = std::cout.rdbuf(&sink);
  auto old_ex      = std::cout.exceptions();
  std::cout.clear();
  if (op.i("ioex")) std::cout.exceptions(std::ios::badbit | std::ios::failbit);
  auto r = sut([&] { if (self) s.s->solve_self(pb); else s.s->solve(pb, ws.get()); }, cf);
  std::cout.exceptions(std::ios::goodbit);
  std::cout.clear();
  std::cout.exceptions(old_ex);
  std::cout.rdbuf(old);
  SolView v = s.s->sol();
  if (sink.chars) probe("diagnostics_chars", sink.chars);

  const bool thrown = !r.ok;
  if (thrown) {
    const bool io_ok = op.i("ioex") && (sink.mode == 1 || sink.mode == 2 || sink.mode == 3);
    if (r.bad_alloc) {
      if (!r.alloc_failed) fail("unexpected-exception", "%s: bad_alloc without an allocation failure", where);
      probe("solve_aborted_by_allocation_failure");
    } else if (io_ok) {
      probe("solve_aborted_by_stdout");
    } else {
      fail("unexpected-exception", "%s: %s", where, r.ex.c_str());
    }
    s.clean = false;
    s.has_sol = false;
    if (usable(v.code)) {
      if (prop == "C01" || prop == "C07" || prop == "C06") {
        // whatever the solver now calls optimal must be optimal for the problem just passed
        try { check_kkt(p, s.prm, v, where); check_obj(p, v, where); } catch (Violation & x) { fail("stale-optimal", "after an aborted solve sol() still claims %s: %s", cname(v.code), x.msg.c_str()); }
      }
    }
    // retry: the same call without faults must work as on a fresh solver
    if (op.i("retry", 1)) {
      auto r2 = sut([&] { s.s->solve(pb, ws.get()); });
      if (!r2.ok) fail("not-reusable", "%s: retry after an aborted solve fails: %s", where, r2.ex.c_str());
      v = s.s->sol();
      if (need_base && (prop == "C07" || prop == "C04" || prop == "C06")) check_same(v, base, prop == "C04" ? "history-dependent" : "not-reusable", (std::string(where) + " retried after an aborted solve").c_str());
      probe("retried_after_abort");
      s.clean = s.has_sol = true;
      s.last  = v;
    }
    return;
  }
  s.last = v;
  s.has_sol = s.clean = true;
  logv(uint64_t(v.code)); logv(v.iter); logd(v.obj);
  for (int i = 0; i < v.x.size(); ++i) logd(v.x(i));
  for (int i = 0; i < v.y.size(); ++i) logd(v.y(i));
  if (g_trace) logs(fmt("%s -> %s iter=%u obj=%.9g", where, cname(v.code), v.iter, v.obj));
  note_state(p, s.prm, v, hcomb(uint64_t(op.i("ws")), uint64_t(s.type) + 8 * r.alloc_failed));
  if (rec) rec->push_back({v, pi, 0, where});

  verdict_oracles(p, s.prm, v, where, ws_bad);

  if (prop == "C04") check_same(v, base, "history-dependent", where, !self);
  if (prop == "C06") check_same(v, base, "diagnostics-change-result", where);
  if (prop == "C07") {
    if (r.alloc_failed) probe("solve_survived_allocation_failure");
    // an allocation failure during polishing may legitimately downgrade Optimal to PolishFailed
    if (r.alloc_failed && v.code != base.code) {
      if (usable(v.code) && usable(base.code)) check_kkt(p, s.prm, v, where);
      else if (v.code != 6) fail("wrong-after-alloc-failure", "%s: %s after an allocation failure, %s without", where, cname(v.code), cname(base.code));
    } else {
      check_same(v, base, "wrong-after-alloc-failure", where);
    }
  }
}

void Exec::limits_oracle(const Prob & p, const QPSolverParams & q, Slot & s, const IPbm & pb, const ISol * ws, const Op & op, const char * w)
{
  const uint32_t cap  = uint32_t(op.i("cap", 400));
  const uint32_t sci  = std::max<uint32_t>(1, q.stop_check_iter);
  QPSolverParams qu   = q;
  qu.verbose          = false;
  qu.max_time         = {};
  qu.max_iter         = cap;
  SutResult ru, r0;
  SolView u           = fresh(s.type, pb, qu, ws, &ru);     // reference without limits (up to cap)
  QPSolverParams qz   = qu;
  qz.max_iter         = 0;
  SolView z           = fresh(s.type, pb, qz, ws, &r0);     // set-up cost
  const double per    = (double(ru.edges) - double(r0.edges)) / std::max<double>(1, u.iter);
  const double nspe   = plan.ops.empty() ? 1 : [&] { for (auto & o : plan.ops) if (o.k == "env") return o.d("nspe", 1); return 1.0; }();

  const bool trivially = z.code != 4;  // verdict before the first iteration
  if (!trivially && z.iter != 0) fail("iteration-limit", "%s: max_iter=0 but %u iterations", w, z.iter);

  CallFaults cf;
  for (int k = 0; k < 3; ++k) {
    auto K = std::to_string(k);
    if (op.has("st" + K)) cf.stall.emplace_back(uint64_t(1 + op.d("st" + K) * double(ru.edges)), int64_t(op.d("sn" + K)));
    if (op.has("wj" + K)) cf.jump.emplace_back(uint64_t(1 + op.d("wj" + K) * double(ru.edges)), int64_t(op.d("wn" + K)));
  }
  // largest amount of work any outcome may take
  uint64_t budget = uint64_t(20 * double(ru.edges) + 1e6 + 400 * per);
  if (!q.max_iter && q.max_time) budget += uint64_t(std::min(1e9, 1.2 * std::max(0., double(q.max_time->count())) / nspe));
  FaultBuf sink;
  sink.mode  = int(op.i("io"));
  sink.left  = op.i("io_at");
  auto * old = std::cout.rdbuf(&sink);
  auto r     = sut([&] { s.s->solve(pb, ws); }, cf, budget);
  std::cout.clear();
  std::cout.rdbuf(old);
  if (!r.ok) fail("unexpected-exception", "%s: %s", w, r.ex.c_str());
  SolView v = s.s->sol();
  logv(uint64_t(v.code)); logv(v.iter);
  if (g_trace) logs(fmt("%s -> %s iter=%u edges=%llu ns=%lld (unlimited: %s iter=%u edges=%llu)", w, cname(v.code), v.iter, (unsigned long long)r.edges, (long long)r.ns, cname(u.code), u.iter, (unsigned long long)ru.edges));
  probe(std::string("verdict_") + cname(v.code));
  note_state(p, q, v, uint64_t(sci));

  if (q.max_iter && v.iter > *q.max_iter) fail("iteration-limit", "%s: %u iterations with max_iter=%u", w, v.iter, *q.max_iter);
  if (v.code == 4) {
    if (!q.max_iter) fail("iteration-limit", "%s: MaxIterations without an iteration limit", w);
    if (v.iter != *q.max_iter) fail("iteration-limit", "%s: MaxIterations after %u iterations, limit %u", w, v.iter, *q.max_iter);
  }
  if (v.code == 5) {
    if (!q.max_time) fail("time-limit-early", "%s: MaxTime without a time limit", w);
    if (double(r.ns) < double(q.max_time->count()) - 1) fail("time-limit-early", "%s: MaxTime after %lld ns of elapsed time, limit %lld ns", w, (long long)r.ns, (long long)q.max_time->count());
  }
  // which outcome is expected
  const bool u_done = u.code != 4;  // reference reached a verdict at u.iter
  if (v.code != 5) {
    // not timed out: must be the reference outcome, cut at max_iter
    if (q.max_iter && (!u_done || u.iter > *q.max_iter)) {
      if (v.code != 4 && *q.max_iter <= cap) fail("iteration-limit", "%s: %s after %u iterations with max_iter=%u, reference needs %u", w, cname(v.code), v.iter, *q.max_iter, u.iter);
    } else if (u_done) {
      if (v.code != u.code || v.iter != u.iter) fail("limit-changes-result", "%s: %s after %u iterations, but %s after %u without limits", w, cname(v.code), v.iter, cname(u.code), u.iter);
    }
  }
  // stopped early: the point must be the one an iteration limit would give
  if ((v.code == 5 || v.code == 4) && v.iter <= cap && v.iter > 0) {
    QPSolverParams qi = qu;
    qi.max_iter       = v.iter;
    SolView c         = fresh(s.type, pb, qi, ws);
    if (c.code == 4 || c.code == 5) {
      if (!close(c.x, v.x, 1e-8) || !close(c.y, v.y, 1e-8)) fail("stopped-point", "%s: point returned with %s differs from the iterate of that iteration", w, cname(v.code));
    } else {
      // reaching a verdict at exactly this iteration takes precedence
      fail("limit-changes-result", "%s: %s although %s was reached in iteration %u", w, cname(v.code), cname(c.code), c.iter);
    }
    Vec px = p.P * v.x;
    if (v.x.allFinite() && !p.corrupt) {
      double f = v.x.dot(0.5 * px + p.q), mag = 1 + std::fabs(v.x.dot(px)) + v.x.cwiseAbs().dot(p.q.cwiseAbs());
      if (std::isfinite(mag) && std::fabs(f - v.obj) > 1e-9 * mag) fail("stopped-point", "%s: objective %.12g is not the cost %.12g of the returned point", w, v.obj, f);
    }
  }
  // lateness
  if (q.max_time && !trivially && !(q.max_iter && *q.max_iter == 0) && sink.mode != 4) {
    const double E0 = double(r0.edges), Tn = double(q.max_time->count());
    // first edge at which the time spent since the end of set-up exceeds the limit
    double el = 0, at = E0, cross = -1;
    if (Tn < 0) cross = E0;
    auto st = cf.stall;
    std::sort(st.begin(), st.end());
    for (auto & [e, ns] : st) {
      if (cross >= 0) break;
      if (double(e) <= at) continue;  // during set-up: not counted against the solver
      double dt = (double(e) - at) * nspe;
      if (el + dt > Tn) { cross = at + (Tn - el) / nspe; break; }
      el += dt;
      at = double(e);
      el += double(ns);
      if (el > Tn) { cross = at; break; }
    }
    if (cross < 0) cross = at + (Tn - el) / nspe;
    const double allowed = std::max(cross, E0) + 1.6 * per * (sci + 2) + 2 * E0 + 3000;
    if (double(r.edges) > allowed * 1.05)
      fail("time-limit-late", "%s: time limit of %lld ns was exceeded in basic block ~%.0f, solver returned %s at %llu (one check interval is ~%.0f)", w, (long long)q.max_time->count(), cross, cname(v.code), (unsigned long long)r.edges, per * sci);
    if (v.code == 5) probe("time_limit_hit");
    if (cross < double(r.edges) && v.code != 5) probe("time_limit_race");
  }
  if (v.code == 4) probe("iteration_limit_hit");
}

void Exec::run(int tid, std::vector<Rec> * rec)
{
  std::map<int, Slot> slots;
  size_t opi = 0;
  for (auto & op : plan.ops) {
    ++opi;
    if (int(op.i("t")) != tid) continue;
    if (op.k == "new") {
      int si = int(op.i("s")), pi = int(op.i("p")), t = int(op.i("ty"));
      if (!probs.count(pi) || !compatible(t, probs[pi])) continue;
      Slot & s = slots[si];
      if (!s.s || s.type != t) { if (s.s) sut([&] { s.s->destroy(); }); s.s = type(t).solver(); s.type = t; }
      s.prm = prm(int(op.i("prm")));
      if (op.i("stale_prm")) s.prm.verbose = s.prm.verbose;
      s.has_sol = s.clean = false;
      s.sig = 0;
      auto & pb = *pbms.at({pi, t});
      CallFaults cf;
      if (prop == "C07" && op.has("af") && t != 1) {
        auto tmp = type(t).solver();
        auto r0  = sut([&] { tmp->ctor(pb, s.prm); });
        sut([&] { tmp->destroy(); });
        if (r0.allocs) cf.fail_alloc = 1 + uint64_t(op.d("af") * double(r0.allocs)) % r0.allocs;
      }
      const bool full = op.i("mode", 1);
      auto r = sut([&] { if (full) s.s->ctor(pb, s.prm); else s.s->ctor(s.prm); }, cf);
      if (!r.ok) {
        if (!r.bad_alloc || !r.alloc_failed) fail("unexpected-exception", "op %zu construct: %s", opi, r.ex.c_str());
        probe("construct_aborted");
        r = sut([&] { s.s->ctor(pb, s.prm); });
        if (!r.ok) fail("not-reusable", "op %zu: construction fails after an earlier allocation failure", opi);
      }
      s.dn = -2;
      if (full) { s.dn = probs[pi].n; s.dm = probs[pi].m; s.sig = probs[pi].pattern_hash; s.n = probs[pi].n; s.m = probs[pi].m; }
    } else if (op.k == "solve") {
      do_solve(slots, op, rec, opi);
    } else if (op.k == "copy") {
      int a = int(op.i("from")), b = int(op.i("s"));
      if (a == b || !slots.count(a) || !slots[a].s || !slots[a].s->alive()) continue;
      Slot & x = slots[a];
      Slot & y = slots[b];
      if (!y.s || y.type != x.type) { if (y.s) sut([&] { y.s->destroy(); }); y.s = type(x.type).solver(); y.type = x.type; }
      int how = int(op.i("how"));
      if (how >= 2 && !y.s->alive()) { auto q = x.prm; sut([&] { y.s->ctor(q); }); }
      CallFaults cf;
      if (prop == "C07" && op.has("af") && x.type != 1) {
        auto tmp = type(x.type).solver();
        auto r0  = sut([&] { tmp->copy_ctor(*x.s); });
        sut([&] { tmp->destroy(); });
        if (r0.allocs && how == 0) cf.fail_alloc = 1 + uint64_t(op.d("af") * double(r0.allocs)) % r0.allocs;
      }
      auto r = sut([&] {
        switch (how) {
          case 0: y.s->copy_ctor(*x.s); break;
          case 1: y.s->move_ctor(*x.s); break;
          case 2: y.s->copy_assign(*x.s); break;
          default: y.s->move_assign(*x.s); break;
        }
      }, cf);
      if (!r.ok) {
        if (!r.bad_alloc || !r.alloc_failed) fail("unexpected-exception", "op %zu copy: %s", opi, r.ex.c_str());
        probe("copy_aborted");
        // basic guarantee: destination is only good for destruction or re-analysis
        if (!y.s->alive()) { sut([&] { y.s->ctor(x.prm); }); y.prm = x.prm; }
        else { auto q = x.prm; sut([&] { y.s->destroy(); y.s->ctor(q); }); y.prm = x.prm; }
        y.dn = -2;
        y.sig = 0; y.has_sol = y.clean = false;
        continue;
      }
      probe(how == 0 ? "copy_construct" : how == 1 ? "move_construct" : how == 2 ? "copy_assign" : "move_assign");
      y.prm = x.prm; if (how < 2) { y.dn = x.dn; y.dm = x.dm; } else if (y.dn != x.dn || y.dm != x.dm) y.dn = -3;
      if (how == 1 || how == 3) x.dn = -3;
      y.sig = x.sig; y.n = x.n; y.m = x.m; y.has_sol = x.has_sol; y.clean = x.clean; y.far = x.far; y.last = x.last;
      if (y.clean && y.has_sol && prop == "C04") {
        SolView a1 = y.s->sol();
        check_same(a1, y.last, "history-dependent", fmt("op %zu: stored solution after copy/move", opi).c_str());
      }
      if (how == 1 || how == 3) { x.sig = 0; x.has_sol = x.clean = false; }
    } else if (op.k == "oneshot") {
      int pi = int(op.i("p")), t = int(op.i("ty"));
      if (!probs.count(pi) || !compatible(t, probs[pi])) continue;
      auto & pb = *pbms.at({pi, t});
      auto q    = prm(int(op.i("prm")));
      std::unique_ptr<ISol> ws;
      SolView wv;
      if (op.i("ws") == 2 && probs[pi].has_opt) { wv.x = probs[pi].xs; wv.y = probs[pi].ys; ws = type(t).sol(wv); }
      SolView v;
      auto r = sut([&] { type(t).oneshot(pb, q, ws.get(), v); });
      if (!r.ok) fail("unexpected-exception", "op %zu solve_qp: %s", opi, r.ex.c_str());
      auto w = fmt("op %zu (solve_qp %s, problem %d %s n=%d m=%d)", opi, type(t).name(), pi, kKind[probs[pi].kind], probs[pi].n, probs[pi].m);
      logv(uint64_t(v.code)); logv(v.iter); logd(v.obj);
      if (rec) rec->push_back({v, pi, 0, w});
      verdict_oracles(probs[pi], q, v, w.c_str(), false);
      if (prop == "C04") { SolView b = fresh(t, pb, q, ws.get()); check_same(v, b, "history-dependent", w.c_str()); }
      note_state(probs[pi], q, v, 0x1000 + uint64_t(t));
    } else if (op.k == "del") {
      int si = int(op.i("s"));
      if (slots.count(si) && slots[si].s) { sut([&] { slots[si].s->destroy(); }); slots.erase(si); }
    }
  }
  // tear down inside the simulated heap
  for (auto & [k, s] : slots) if (s.s) { auto * x = s.s.get(); sut([&] { x->destroy(); }); }
}

SchedOut g_last_sched();

struct QpDomain : Domain
{
  Plan generate(const std::string & prop, uint64_t seed, bool thorough) override;
  void execute(Plan & plan) override
  {
    Exec ex(plan);
    ex.prepare();
    double nspe = 1;
    for (auto & o : plan.ops) if (o.k == "env") nspe = o.d("nspe", 1);
    clock_reset(3600000000000ll, 1700000000ll * 1000000000ll, nspe);
    if (plan.prop == "C05") { exec_interleaved(plan, ex); return; }
    run_tasks({[&] {
      ex.run(0, nullptr);
      if (plan.prop == "C07" && heap_live() != 0) fail("leak", "%lld allocations made by the solver are still live after all solver objects were destroyed", (long long)heap_live());
    }});
  }
  void exec_interleaved(Plan & plan, Exec & ex)
  {
    int nt = 1;
    for (auto & o : plan.ops) nt = std::max(nt, int(o.i("t")) + 1);
    std::vector<std::vector<Rec>> ref(static_cast<size_t>(nt)), got(static_cast<size_t>(nt));
    SchedCfg cfg;
    for (auto & o : plan.ops)
      if (o.k == "sched") { cfg.seed = uint64_t(o.i("seed")); cfg.mean = o.d("mean", 200); cfg.use_explicit = o.i("explicit"); }
    for (auto & o : plan.ops)
      if (o.k == "switch") cfg.explicit_.emplace_back(uint64_t(o.d("at")), int(o.i("to")));
    // reference: every task alone
    for (int t = 0; t < nt; ++t) run_tasks({[&, t] { ex.run(t, &ref[size_t(t)]); }});
    heap_fill(plan.seed * 77 + 5);
    std::vector<std::function<void()>> bodies;
    for (int t = 0; t < nt; ++t) bodies.push_back([&, t] { ex.run(t, &got[size_t(t)]); });
    cfg.preempt = true;
    SchedOut so;
    try {
      so = run_tasks(bodies, cfg);
    } catch (Violation &) {
      record(plan, cfg);
      throw;
    }
    probe("interleavings");
    state(so.hash);
    logv(so.hash);
    for (int t = 0; t < nt; ++t) {
      auto & a = got[size_t(t)];
      auto & b = ref[size_t(t)];
      if (a.size() != b.size()) { record(plan, cfg); fail("interference", "task %d: %zu results when interleaved, %zu alone", t, a.size(), b.size()); }
      for (size_t k = 0; k < a.size(); ++k) {
        try { check_same(a[k].v, b[k].v, "interference", fmt("task %d, %s, interleaved with %d other task(s)", t, a[k].where.c_str(), nt - 1).c_str()); }
        catch (Violation &) { record(plan, cfg); throw; }
      }
    }
  }
  // replace the seeded schedule by the explicit list of switches that was taken
  static void record(Plan & plan, const SchedCfg & cfg)
  {
    if (cfg.use_explicit) return;
    auto so = g_last_sched();
    std::vector<Op> ops;
    for (auto & o : plan.ops) if (o.k != "switch") { ops.push_back(o); if (o.k == "sched") ops.back().set("explicit", 1); }
    for (auto & [e, t] : so.switches) ops.push_back(Op("switch").set("at", double(e)).set("to", t));
    plan.ops = ops;
  }
};

Plan QpDomain::generate(const std::string & prop, uint64_t seed, bool thorough)
{
  Rng g(seed);
  Plan pl;
  auto & ops = pl.ops;
  const int maxn = thorough ? 7 : 5, maxm = thorough ? 10 : 7;
  int T     = prop == "C05" ? int(g.i(2, 4)) : 1;
  int np    = int(g.i(1, prop == "C05" ? 3 : 4));
  int nprm  = int(g.i(1, 2));
  ops.push_back(Op("env").set("nspe", prop == "C03" ? g.logu(0.2, 100) : 1));
  // types used in this run
  int ty0 = g.p(0.35) ? 1 : g.p(0.5) ? 0 : int(g.i(2, 4));
  auto dims = [&](int t, int & n, int & m) {
    n = type(t).fixed_n() >= 0 ? type(t).fixed_n() : int(g.i(1, maxn));
    m = type(t).fixed_m() >= 0 ? type(t).fixed_m() : int(g.i(1, maxm));
  };
  int n, m;
  dims(ty0, n, m);
  int ss = int(g.seed32() & 0xffff);
  for (int i = 0; i < np; ++i) {
    if (i && g.p(0.35)) { dims(ty0, n, m); ss = int(g.seed32() & 0xffff); }
    int kind;
    if (prop == "C02") {
      kind = g.pick<int>({K_INF_BOUND, K_INF_PAIR, K_INF_PAIR, K_INF_COMB, K_INF_COMB, K_UNB, K_UNB, K_SC, K_SEMI, K_FEAS, K_REDUND, K_BADSCALE, K_TIGHT});
      if (kind == K_TIGHT && type(ty0).fixed_n() < 0 && i == 0 && g.p(0.6)) n = int(g.i(1, 2));
      if (kind == K_INF_PAIR && m < 2) kind = K_INF_BOUND;
      if (kind == K_INF_COMB && m < 3) kind = m < 2 ? K_INF_BOUND : K_INF_PAIR;
    } else if (prop == "C01") {
      kind = g.pick<int>({K_SC, K_SC, K_SEMI, K_SEMI, K_FEAS, K_REDUND, K_BADSCALE, K_TIGHT, K_TIGHT, K_UNB, K_INF_PAIR});
      if (kind == K_INF_PAIR && m < 2) kind = K_SC;
    } else {
      kind = g.pick<int>({K_SC, K_SC, K_SC, K_SEMI, K_FEAS, K_REDUND, K_BADSCALE, K_TIGHT, K_TIGHT, K_UNB, K_INF_PAIR, K_INF_BOUND});
      if (kind == K_INF_PAIR && m < 2) kind = K_SC;
    }
    int mm = m;
    if (type(ty0).fixed_m() < 0 && g.p(0.04)) { mm = 0; kind = K_M0; }
    Op o("prob");
    o.set("id", i).set("n", n).set("m", mm).set("kind", kind).set("ss", ss).set("vs", double(g.seed32() & 0xfffff)).set("dens", g.pick<double>({0.4, 0.7, 1.0}));
    o.set("rep", double(g.pick<int>({0, 0, 1, 2}) | (g.p(0.15) ? 4 : 0))).set("mask", g.p(0.7));
    if (g.p(0.7)) o.set("strict", 1);
    if (prop == "C01" && g.p(0.05)) o.set("nan", double(g.i(1, 4)));
    ops.push_back(o);
  }
  for (int i = 0; i < nprm; ++i) {
    Op o("prm");
    o.set("id", i);
    o.set("scaling", g.p(0.8)).set("polish", g.p(0.7)).set("sci", double(g.pick<int>({25, 25, 10, 7, 3, 2, 1, 50})));
    o.set("eps", g.pick<double>({1e-3, 1e-3, 1e-4, 1e-5}));
    if (g.p(0.3)) o.set("alpha", g.pick<double>({1.0, 1.3, 1.8}));
    if (g.p(0.3)) o.set("rho", g.pick<double>({0.05, 0.3, 1.0}));
    if (g.p(0.15)) o.set("polish_iter", double(g.i(1, 8)));
    if (g.p(0.1)) o.set("sigma", 1e-5);
    int mi = 20000;
    if (prop == "C01" && g.p(0.6)) mi = 1500;
    if (prop == "C04" || prop == "C06" || prop == "C07" || prop == "C05") mi = int(g.pick<int>({400, 400, 60, 10}));
    if (prop == "C01" && g.p(0.25)) mi = int(g.i(0, 120));
    if (prop == "C02" && g.p(0.1)) mi = int(g.i(1, 100));
    o.set("max_iter", mi);
    if (prop == "C03") {
      o.a.erase("max_iter");
      o.set("sci", double(g.pick<int>({25, 25, 10, 7, 3, 2, 1, 0, 50, 40})));
      if (g.p(0.4)) o.set("eps", g.pick<double>({1e-12, 1e-8}));
      double r = g.u();
      const double nspe = ops[0].d("nspe", 1);
      if (r < 0.75) o.set("max_time", g.p(0.1) ? 9.3e18 : g.p(0.07) ? double(g.pick<int>({0, 1, -5})) : g.logu(1e3 * nspe, 1e6 * nspe));
      if (r > 0.6 || o.d("max_time") > 9e18 || g.p(0.3)) o.set("max_iter", double(g.p(0.2) ? g.i(0, 3) : g.i(0, 390)));
      if (!o.has("max_time") && !o.has("max_iter")) o.set("max_iter", 100);
      if (o.has("max_time") && o.d("max_time") > 9e18 && !o.has("max_iter")) o.set("max_iter", 100);
      if (g.p(0.15)) o.set("verbose", 1);
    }
    if (prop == "C06") {
      o.set("verbose", g.p(0.9));
      // limits that are past at the first check, or never reached, whatever the speed of the diagnostics
      if (g.p(0.25)) o.set("max_time", g.pick<double>({1, 1, -5, 9.3e18}));
    }
    ops.push_back(o);
  }
  if (prop == "C05") ops.push_back(Op("sched").set("seed", double(g.seed32())).set("mean", g.logu(20, 4000)));
  for (int t = 0; t < T; ++t) {
    int ns = int(g.i(1, prop == "C05" ? 2 : 3));
    for (int s = 0; s < ns; ++s) {
      Op o("new");
      o.set("t", t).set("s", s).set("p", double(g.i(0, np - 1))).set("prm", double(g.i(0, nprm - 1))).set("ty", ty0).set("mode", g.p(0.6));
      if (prop == "C07" && g.p(0.3)) o.set("af", g.u());
      ops.push_back(o);
    }
    int nops = int(g.i(1, prop == "C05" ? 3 : prop == "C04" ? 9 : 6));
    for (int k = 0; k < nops; ++k) {
      double r = g.u();
      if (r < 0.78 || prop == "C03") {
        Op o("solve");
        o.set("t", t).set("s", double(g.i(0, ns - 1))).set("p", double(g.i(0, np - 1))).set("ws", double(g.pick<int>({0, 0, 1, 1, 2, 3, 6}))).set("wseed", double(g.seed32() & 0xffff));
        if (prop == "C01" && g.p(0.12)) o.set("ws", double(g.pick<int>({4, 5})));
        if ((prop == "C04" || prop == "C02") && g.p(0.05)) o.set("ws", 4);
        if (g.p(0.05)) o.set("an", 1);
        o.set("fill", double(g.i(1, 1000)));
        if (prop == "C07") {
          if (g.p(0.7)) o.set("af", g.u()).set("afn", double(g.pick<int>({1, 1, 2, 50})));
          if (o.has("af") && g.p(0.35)) o.set("afe", double(g.i(1, 10)));
        }
        if ((prop == "C04" || prop == "C01") && g.p(0.15)) { o.set("af", g.u()); if (g.p(0.3)) o.set("afe", double(g.i(1, 10))); if (prop == "C04") o.set("retry", g.p(0.5)); }
        if (prop == "C06" && g.p(0.8)) {
          o.set("io", double(g.i(1, 3))).set("io_at", double(g.p(0.3) ? g.i(0, 70) : g.i(0, 1500)));
          if (g.p(0.35)) o.set("ioex", 1);
        }
        if (prop == "C03") {
          int nf = int(g.i(0, 3));
          for (int f = 0; f < nf; ++f) {
            auto F = std::to_string(f);
            if (g.p(0.6)) o.set("st" + F, g.u()).set("sn" + F, g.logu(1e3, 1e10));
            if (g.p(0.6)) o.set("wj" + F, g.u()).set("wn" + F, (g.p(0.5) ? -1 : 1) * g.logu(1e6, 1e14));
          }
          if (g.p(0.3)) o.set("idle", g.logu(1e6, 1e15));
          o.set("cap", 400);
        }
        ops.push_back(o);
      } else if (r < 0.9) {
        Op o("copy");
        o.set("t", t).set("s", double(g.i(0, 3))).set("from", double(g.i(0, ns - 1))).set("how", double(g.i(0, 3)));
        if (prop == "C07" && g.p(0.4)) o.set("af", g.u());
        ops.push_back(o);
        ns = std::max(ns, int(o.i("s")) + 1);
      } else if (r < 0.97) {
        ops.push_back(Op("oneshot").set("t", t).set("p", double(g.i(0, np - 1))).set("prm", double(g.i(0, nprm - 1))).set("ty", ty0).set("ws", double(g.pick<int>({0, 2}))));
      } else {
        ops.push_back(Op("del").set("t", t).set("s", double(g.i(0, ns - 1))));
        ops.push_back(Op("new").set("t", t).set("s", double(g.i(0, ns - 1))).set("p", double(g.i(0, np - 1))).set("prm", double(g.i(0, nprm - 1))).set("ty", ty0).set("mode", 1));
      }
    }
  }
  return pl;
}

namespace sim {
Domain & domain()
{
  static QpDomain d;
  return d;
}
}  // namespace sim
