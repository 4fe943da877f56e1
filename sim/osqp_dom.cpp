// OSQP interface domain (C18): histories of calls of the adapter against a simulated OSQP that records what it is
// given, fails on command and reports arbitrary outcomes.
#include "osqp_sim.hpp"
#include "rt.hpp"
#include <smooth/feedback/compat/osqp.hpp>

#include <alloca.h>
#include <cstring>
#include <new>
#include <optional>

using namespace sim;
namespace fb = smooth::feedback;
using Sol = fb::QPSolution<-1, -1, double>;
using Mat = Eigen::MatrixXd;
using Vec = Eigen::VectorXd;
using osqpsim::ctx;

static constexpr double INF = std::numeric_limits<double>::infinity();

__attribute__((noinline, no_sanitize("address"))) static void scribble(int b)
{
  volatile char * p = (volatile char *)alloca(12000);
  for (int k = 0; k < 12000; ++k) p[k] = char(b);
}
static bool bits(double a, double b) { return std::memcmp(&a, &b, 8) == 0; }
static bool same(double a, double b) { return (std::isnan(a) && std::isnan(b)) || a == b; }
static bool close(double a, double b, double rel) { return a == b || std::abs(a - b) <= rel * std::abs(b); }

struct Prob
{
  int n, m;
  Mat P, A;   // P as the caller stores it
  Vec q, l, u;
};
static double val(Rng & g)
{
  const double r = g.u();
  return r < 0.06 ? g.n() * 1e-5 : r < 0.1 ? g.n() * 1e-8 : r < 0.16 ? g.n() * 1e6 : r < 0.3 ? double(g.i(-3, 3)) : g.n();
}
static Prob make(const Op & op, int n, int m)
{
  Rng g(uint64_t(op.i("vs")) * 31 + 7);
  Prob p{n, m, Mat::Zero(n, n), Mat::Zero(m, n), Vec(n), Vec(m), Vec(m)};
  const double dens = op.d("dens", 0.7);
  for (int j = 0; j < n; ++j)
    for (int i = 0; i <= j; ++i)
      if (i == j || g.p(dens)) p.P(i, j) = i == j ? std::abs(g.n()) + (g.p(0.8) ? 0.1 : 0) : val(g);
  const int low = int(op.i("low"));  // 0: symmetric, 1: only the upper part is filled
  if (low == 0) for (int j = 0; j < n; ++j) for (int i = 0; i < j; ++i) p.P(j, i) = p.P(i, j);
  for (int j = 0; j < n; ++j) for (int i = 0; i < m; ++i) if (g.p(dens)) p.A(i, j) = val(g);
  for (int j = 0; j < n; ++j) p.q(j) = val(g);
  for (int i = 0; i < m; ++i) {
    const double c = g.n(), w = g.p(0.25) ? 0 : std::abs(g.n());
    p.l(i) = g.p(0.25) ? -INF : g.p(0.05) ? -1e35 : c - w;
    p.u(i) = g.p(0.25) ? INF : g.p(0.05) ? 1e35 : c + w;
    if (g.p(0.02)) std::swap(p.l(i), p.u(i));  // contradictory: to be rejected by OSQP
  }
  return p;
}
static fb::QPSolverParams params(const Op & op)
{
  Rng g(uint64_t(op.i("ps")) * 17 + 3);
  fb::QPSolverParams prm{};
  if (g.p(0.2)) return prm;
  prm.verbose        = g.p(0.3);
  prm.alpha          = float(g.u(0.1, 1.99));
  prm.rho            = float(g.logu(1e-4, 10));
  prm.sigma          = float(g.logu(1e-8, 1e-2));
  prm.scaling        = g.p(0.5);
  prm.eps_abs        = float(g.logu(1e-9, 1e-1));
  prm.eps_rel        = float(g.logu(1e-9, 1e-1));
  prm.eps_primal_inf = float(g.logu(1e-9, 1e-1));
  prm.eps_dual_inf   = float(g.logu(1e-9, 1e-1));
  if (g.p(0.5)) prm.max_iter = g.p(0.1) ? 0xffffffffu : g.p(0.05) ? 0u : uint32_t(g.logu(1, 1e6));
  if (g.p(0.6)) prm.max_time = std::chrono::nanoseconds(g.p(0.15) ? 0 : g.p(0.1) ? g.i(1, 1000) : int64_t(g.logu(1e3, 1e13)));
  prm.stop_check_iter = uint32_t(g.i(0, 100));
  prm.polish         = g.p(0.5);
  prm.polish_iter    = uint32_t(g.i(0, 20));
  prm.delta          = float(g.logu(1e-9, 1e-2));
  if (g.p(0.03)) prm.alpha = 2.5f;  // to be rejected by OSQP
  return prm;
}

template<class T> static std::string raw(const T & M)
{
  if constexpr (std::is_base_of_v<Eigen::SparseMatrixBase<T>, T>) {
    std::string s((const char *)M.valuePtr(), size_t(M.data().size()) * 8);
    s.append((const char *)M.innerIndexPtr(), size_t(M.data().size()) * sizeof(*M.innerIndexPtr()));
    s.append((const char *)M.outerIndexPtr(), size_t(M.outerSize() + 1) * sizeof(*M.outerIndexPtr()));
    s += M.isCompressed() ? "c" : "u";
    if (!M.isCompressed()) s.append((const char *)M.innerNonZeroPtr(), size_t(M.outerSize()) * sizeof(*M.innerNonZeroPtr()));
    return s;
  } else
    return std::string((const char *)M.data(), size_t(M.size()) * 8);
}

template<class Q> static Q conv(const Prob & p, const Op & op)
{
  Q r{};
  using AT = decltype(Q::A);
  if constexpr (std::is_base_of_v<Eigen::SparseMatrixBase<AT>, AT>) {
    Rng g(uint64_t(op.i("vs")) + 99);
    const int form = int(op.i("form")) % 3;  // compressed, uncompressed, with explicit zeros
    auto fill = [&](auto & S, const Mat & M) {
      S.resize(M.rows(), M.cols());
      std::vector<Eigen::Triplet<double>> t;
      for (int i = 0; i < M.rows(); ++i) for (int j = 0; j < M.cols(); ++j) if (M(i, j) != 0 || (form == 2 && g.p(0.2))) t.emplace_back(i, j, M(i, j));
      S.setFromTriplets(t.begin(), t.end());
      if (form == 1 && S.outerSize() > 0) S.reserve(Eigen::VectorXi::Constant(S.outerSize(), 2));
    };
    fill(r.P, p.P);
    fill(r.A, p.A);
    r.q = p.q; r.l = p.l; r.u = p.u;
  } else {
    r.P = p.P; r.A = p.A; r.q = p.q; r.l = p.l; r.u = p.u;
  }
  return r;
}

struct Exec
{
  Plan & plan;
  bool shared;  // several tasks: the heap is shared
  Exec(Plan & p, bool s) : plan(p), shared(s) {}

  struct Out { bool ok{false}; fb::QPSolutionStatus code{}; uint32_t iter{0}; Vec x, y; double obj{0}; };

  template<class Q> void solve(const Op & op, size_t opi, int n, int m)
  {
    const Prob p = make(op, n, m);
    const Q q    = conv<Q>(p, op);
    const fb::QPSolverParams prm = params(op);
    Rng g(uint64_t(op.i("ws")) * 5 + 1);
    std::optional<Sol> ws;
    if (op.i("warm")) {
      ws.emplace();
      ws->code   = fb::QPSolutionStatus::Optimal;
      ws->iter   = 3;
      ws->primal = Vec(n);
      ws->dual   = Vec(m);
      for (int k = 0; k < n; ++k) ws->primal(k) = g.n();
      for (int k = 0; k < m; ++k) ws->dual(k) = g.n();
    }
    const std::string b0 = raw(q.P) + "|" + raw(q.A) + "|" + raw(q.q) + "|" + raw(q.l) + "|" + raw(q.u) + (ws ? raw(ws->primal) + "|" + raw(ws->dual) : "");
    fb::QPSolverParams prm0 = prm;

    osqpsim::Script sc;
    sc.setup_fail = int(op.i("sf"));
    sc.warm_fail  = int(op.i("wf"));
    sc.solve_fail = int(op.i("vf"));
    sc.alloc_fail = int(op.i("af"));
    sc.status     = op.i("status", OSQP_SOLVED);
    sc.polish     = op.i("pol");
    sc.iter       = op.i("iter", 25);
    sc.obj        = op.d("obj", 0);
    sc.stall      = op.d("stall", 0);
    sc.vs         = uint64_t(op.i("ws"));

    const auto wh = fmt("op %zu: %s n=%d m=%d", opi, op.k.c_str(), n, m);
    std::vector<Out> outs;
    uint64_t allocs = 0;
    const int rounds = 2 + int(op.i("cxx") != 0);
    for (int round = 0; round < rounds; ++round) {
      auto & c = ctx();
      c        = osqpsim::Ctx{};
      c.script = sc;
      const int64_t live0 = heap_live();
      alignas(16) unsigned char slot[sizeof(Sol)];
      std::memset(slot, round == 0 ? 0x11 : 0x77, sizeof slot);
      Sol * r = nullptr;
      CallFaults cf;
      if (round == 2) {
        const uint64_t back = uint64_t(op.i("cxx")) - 1;
        if (allocs <= back) break;
        cf.fail_alloc = allocs - back;
      }
      scribble(round == 0 ? 0x22 : 0x5b);
      const auto s = sut([&] {
        if (ws) r = new (slot) Sol(fb::solve_qp_osqp(q, prm, std::cref(*ws)));
        else if (op.i("nullwarm")) r = new (slot) Sol(fb::solve_qp_osqp(q, prm, std::nullopt));
        else r = new (slot) Sol(fb::solve_qp_osqp(q, prm));
      }, cf);
      const osqpsim::Seen seen = c.seen;
      if (round == 0) allocs = s.allocs;
      for (int k = 0; k < seen.nfired; ++k) fault(seen.fired[k]);
      // ---- use of OSQP
      if (round == 2 && !seen.solves) { if (r) r->~Sol(); return; }  // failed inside Eigen containers that are not exception safe
      if (seen.misuse) fail("misuse", "%s: adapter %s", wh.c_str(), seen.misuse);
      if (seen.live || c.nlive) fail("leak", "%s: %d allocations made through OSQP were not released (setup error %d, solve error %d, allocation %d failed%s)", wh.c_str(), seen.live, sc.setup_fail, sc.solve_fail, sc.alloc_fail, s.bad_alloc ? ", exception" : "");
      if (seen.works != seen.cleanups) fail("leak", "%s: %d workspaces, %d cleanups", wh.c_str(), seen.works, seen.cleanups);
      // ---- the caller's data
      const std::string b1 = raw(q.P) + "|" + raw(q.A) + "|" + raw(q.q) + "|" + raw(q.l) + "|" + raw(q.u) + (ws ? raw(ws->primal) + "|" + raw(ws->dual) : "");
      if (b0 != b1) fail("caller-data-changed", "%s: the problem or the warm start was changed", wh.c_str());
      if (prm.max_iter != prm0.max_iter || prm.max_time != prm0.max_time || prm.polish != prm0.polish || prm.alpha != prm0.alpha || prm.rho != prm0.rho || prm.verbose != prm0.verbose)
        fail("caller-data-changed", "%s: the parameters were changed", wh.c_str());
      if (ws && (ws->code != fb::QPSolutionStatus::Optimal || ws->iter != 3)) fail("caller-data-changed", "%s: the warm start was changed", wh.c_str());
      // ---- result
      Out o;
      if (r) {
        o.ok = true; o.code = r->code; o.iter = r->iter; o.obj = r->objective;
        o.x = r->primal; o.y = r->dual;
        r->~Sol();
      }
      if (!shared && heap_live() != live0) fail("leak", "%s: %lld allocations of the call were not released", wh.c_str(), (long long)(heap_live() - live0));
      if (!s.ok) {
        if (!s.bad_alloc) fail("unexpected-exception", "%s: %s", wh.c_str(), s.ex.c_str());
        if (!s.alloc_failed && !sc.alloc_fail) fail("unexpected-exception", "%s: out of memory reported, no allocation failed", wh.c_str());
        probe("bad_alloc_thrown");
        if (round == 2) { probe("cxx_alloc_failed_after_solve"); break; }
        outs.push_back(o);
        continue;
      }
      if (round == 2) break;
      judge(wh, p, prm, ws, sc, seen, o);
      outs.push_back(o);
    }
    if (outs.size() >= 2) {
      const Out & a = outs[0], & b = outs[1];
      if (a.ok != b.ok || a.code != b.code || a.iter != b.iter || a.x.size() != b.x.size() || a.y.size() != b.y.size() || !(bits(a.obj, b.obj) || same(a.obj, b.obj)))
        fail("uninitialised", "%s: the same call with other memory contents returned code %d iter %u objective %g, before code %d iter %u objective %g", wh.c_str(), int(b.code), b.iter, b.obj, int(a.code), a.iter, a.obj);
      for (int k = 0; k < a.x.size(); ++k) if (!same(a.x(k), b.x(k))) fail("uninitialised", "%s: primal depends on memory contents", wh.c_str());
      for (int k = 0; k < a.y.size(); ++k) if (!same(a.y(k), b.y(k))) fail("uninitialised", "%s: dual depends on memory contents", wh.c_str());
    }
    if (!outs.empty() && outs[0].ok) {
      logv(uint64_t(outs[0].code)); logv(outs[0].iter); logd(outs[0].obj);
      for (int k = 0; k < outs[0].x.size(); ++k) logd(outs[0].x(k));
    }
    state(hcomb(hcomb(hash_str(op.k), uint64_t(n * 32 + m)), hcomb(hcomb(uint64_t(sc.setup_fail * 64 + sc.solve_fail * 16 + sc.warm_fail * 4 + op.i("warm")), uint64_t(sc.alloc_fail)), hcomb(uint64_t(sc.status + 20), uint64_t((prm.max_iter ? 1 : 0) + (prm.max_time ? 2 : 0) + (prm.polish ? 4 : 0) + (prm.scaling ? 8 : 0) + op.i("cxx") * 16)))));
  }

  static void judge(const std::string & wh, const Prob & p, const fb::QPSolverParams & prm, const std::optional<Sol> & ws, const osqpsim::Script & sc, const osqpsim::Seen & s, const Out & o)
  {
    using St = fb::QPSolutionStatus;
    bool valid = p.n > 0 && !(prm.max_iter && *prm.max_iter == 0) && prm.alpha < 2;
    for (int i = 0; i < p.m; ++i) valid = valid && p.l(i) <= p.u(i);
    const bool allocfail = sc.alloc_fail && s.allocs >= sc.alloc_fail;
    // failures
    const bool failed = !s.setup_ok || !s.solves || sc.solve_fail || (allocfail && !s.solves);
    if (valid && s.invalid && !allocfail) fail("rejected", "%s: OSQP rejects the data or settings it is given (reason %d)", wh.c_str(), s.invalid);
    if (failed) {
      if (valid && !sc.setup_fail && !sc.solve_fail && !sc.warm_fail && !allocfail) fail("not-solved", "%s: OSQP was not asked to solve a valid problem", wh.c_str());
      if (o.code != St::Unknown) fail("failure-hidden", "%s: setup or solve failed but the result says %d", wh.c_str(), int(o.code));
      probe(sc.solve_fail ? "solve_failed" : s.invalid ? "rejected_input" : allocfail ? "osqp_out_of_memory" : sc.warm_fail ? "warm_start_failed" : "setup_failed");
      return;
    }
    // the problem
    if (s.too_big) fail("wrong-problem", "%s: OSQP was given a matrix of other dimensions", wh.c_str());
    if (s.n != p.n || s.m != p.m) fail("wrong-problem", "%s: OSQP was given %lld variables and %lld constraints", wh.c_str(), s.n, s.m);
    const auto differs = [](double got, double want) { return !(got == want || (std::abs(want) < 1e-12 && std::abs(got) < 1e-12)); };
    for (int j = 0; j < p.n; ++j)
      for (int i = 0; i < p.n; ++i)
        if (differs(s.P[i + j * p.n], i <= j ? p.P(i, j) : 0)) fail("wrong-problem", "%s: P(%d,%d) is %.17g, OSQP was given %.17g", wh.c_str(), i, j, p.P(i, j), s.P[i + j * p.n]);
    for (int j = 0; j < p.n; ++j)
      for (int i = 0; i < p.m; ++i)
        if (differs(s.A[i + j * p.m], p.A(i, j))) fail("wrong-problem", "%s: A(%d,%d) is %.17g, OSQP was given %.17g", wh.c_str(), i, j, p.A(i, j), s.A[i + j * p.m]);
    for (int j = 0; j < p.n; ++j) if (s.q[j] != p.q(j)) fail("wrong-problem", "%s: q(%d) is %.17g, OSQP was given %.17g", wh.c_str(), j, p.q(j), s.q[j]);
    for (int i = 0; i < p.m; ++i) {
      const auto bad = [](double got, double want) {
        if (want >= 1e20) return !(got >= 1e20 && std::isfinite(got));
        if (want <= -1e20) return !(got <= -1e20 && std::isfinite(got));
        return got != want;
      };
      if (bad(s.l[i], p.l(i))) fail("wrong-problem", "%s: l(%d) is %.17g, OSQP was given %.17g", wh.c_str(), i, p.l(i), s.l[i]);
      if (bad(s.u[i], p.u(i))) fail("wrong-problem", "%s: u(%d) is %.17g, OSQP was given %.17g", wh.c_str(), i, p.u(i), s.u[i]);
      if (std::isinf(p.l(i)) || std::isinf(p.u(i))) probe("infinite_bound");
    }
    // the parameters
    const auto par = [&](const char * name, double got, double want, double rel = 1e-6) {
      if (!close(got, want, rel)) fail("wrong-parameter", "%s: %s is %.9g, OSQP was given %.9g", wh.c_str(), name, want, got);
    };
    par("alpha", s.st.alpha, prm.alpha);
    par("rho", s.st.rho, prm.rho);
    par("sigma", s.st.sigma, prm.sigma);
    par("eps_abs", s.st.eps_abs, prm.eps_abs);
    par("eps_rel", s.st.eps_rel, prm.eps_rel);
    par("eps_primal_inf", s.st.eps_prim_inf, prm.eps_primal_inf);
    par("eps_dual_inf", s.st.eps_dual_inf, prm.eps_dual_inf);
    par("delta", s.st.delta, prm.delta);
    par("verbose", double(s.st.verbose), prm.verbose);
    par("scaling", double(s.st.scaling != 0), prm.scaling);
    par("stop_check_iter", double(s.st.check_termination), prm.stop_check_iter);
    par("polish", double(s.st.polish), prm.polish);
    par("polish_iter", double(s.st.polish_refine_iter), prm.polish_iter);
    if (prm.max_iter) par("max_iter", double(s.st.max_iter), *prm.max_iter, 1e-12);
    else if (s.st.max_iter < 0x7fffffff) fail("wrong-parameter", "%s: no iteration limit was given, OSQP was given %lld", wh.c_str(), s.st.max_iter);
    const double lim = s.st.time_limit;
    if (prm.max_time) {
      const double want = double(prm.max_time->count()) * 1e-9;
      if (want <= 0) {
        if (!(lim > 0 && lim < 1e-3)) fail("wrong-parameter", "%s: the time limit is zero, OSQP was given %.9g (zero means no limit)", wh.c_str(), lim);
        probe("zero_time_limit");
      } else
        par("time limit", lim, want, 1e-9);
    } else if (lim != 0 && lim < 1e9)
      fail("wrong-parameter", "%s: no time limit was given, OSQP was given %.9g", wh.c_str(), lim);
    // the warm start
    if (!sc.warm_fail) {
      if (ws && !s.warm) fail("wrong-warmstart", "%s: the warm start is switched off", wh.c_str());
      for (int k = 0; k < p.n; ++k)
        if (s.x0[k] != (ws ? ws->primal(k) : 0)) fail("wrong-warmstart", "%s: iterations start from primal(%d) = %.17g instead of %.17g", wh.c_str(), k, s.x0[k], ws ? ws->primal(k) : 0);
      for (int k = 0; k < p.m; ++k)
        if (s.y0[k] != (ws ? ws->dual(k) : 0)) fail("wrong-warmstart", "%s: iterations start from dual(%d) = %.17g instead of %.17g", wh.c_str(), k, s.y0[k], ws ? ws->dual(k) : 0);
      if (ws) probe("warm_started");
    }
    // the outcome
    const auto want = [&](St a, const char * name) {
      if (o.code != a) fail("wrong-outcome", "%s: OSQP reports '%s', the result says %d", wh.c_str(), name, int(o.code));
    };
    bool values = true;
    switch (sc.status) {
    case OSQP_SOLVED:
      if (!(o.code == St::PolishFailed && sc.polish == -1)) want(St::Optimal, "solved");
      break;
    case OSQP_PRIMAL_INFEASIBLE: want(St::PrimalInfeasible, "primal infeasible"); break;
    case OSQP_DUAL_INFEASIBLE: want(St::DualInfeasible, "dual infeasible"); break;
    case OSQP_MAX_ITER_REACHED: want(St::MaxIterations, "maximum iterations reached"); break;
    case OSQP_TIME_LIMIT_REACHED: want(St::MaxTime, "time limit reached"); break;
    default:
      values = false;
      if (o.code == St::Optimal || o.code == St::PolishFailed) fail("wrong-outcome", "%s: OSQP reports status %lld, the result claims an optimum", wh.c_str(), sc.status);
      if (o.code == St::PrimalInfeasible && sc.status != OSQP_PRIMAL_INFEASIBLE_INACCURATE) fail("wrong-outcome", "%s: OSQP reports status %lld, the result claims infeasibility", wh.c_str(), sc.status);
      if (o.code == St::DualInfeasible && sc.status != OSQP_DUAL_INFEASIBLE_INACCURATE) fail("wrong-outcome", "%s: OSQP reports status %lld, the result claims unboundedness", wh.c_str(), sc.status);
    }
    probe(fmt("status_%lld", sc.status));
    if (!values) return;
    if (int64_t(o.iter) != sc.iter) fail("wrong-outcome", "%s: OSQP took %lld iterations, the result says %u", wh.c_str(), sc.iter, o.iter);
    const bool none = sc.status == OSQP_PRIMAL_INFEASIBLE || sc.status == OSQP_DUAL_INFEASIBLE;
    if (none) return;
    if (o.obj != sc.obj) fail("wrong-outcome", "%s: OSQP reports objective %.17g, the result says %.17g", wh.c_str(), sc.obj, o.obj);
    if (o.x.size() != p.n || o.y.size() != p.m) fail("wrong-outcome", "%s: solution of sizes %d and %d", wh.c_str(), int(o.x.size()), int(o.y.size()));
    for (int k = 0; k < p.n; ++k) if (o.x(k) != osqpsim::xval(sc.vs, k)) fail("wrong-outcome", "%s: primal(%d) is %.17g, OSQP reports %.17g", wh.c_str(), k, o.x(k), osqpsim::xval(sc.vs, k));
    for (int k = 0; k < p.m; ++k) if (o.y(k) != osqpsim::yval(sc.vs, k)) fail("wrong-outcome", "%s: dual(%d) is %.17g, OSQP reports %.17g", wh.c_str(), k, o.y(k), osqpsim::yval(sc.vs, k));
  }

  void run(int tid)
  {
    size_t opi = 0;
    for (auto & op : plan.ops) {
      ++opi;
      if (op.k == "fill") { if (tid == 0) heap_fill(uint64_t(op.i("f"))); continue; }
      if (op.k == "sched" || op.k == "switch" || int(op.i("t")) != tid) continue;
      const int n = int(op.i("n", 2)), m = int(op.i("m", 2));
      if (op.k == "dense") solve<fb::QuadraticProgram<-1, -1>>(op, opi, n, m);
      else if (op.k == "sparse") solve<fb::QuadraticProgramSparse<double>>(op, opi, n, m);
      else if (op.k == "fixed") solve<fb::QuadraticProgram<3, 4>>(op, opi, 4, 3);
      else if (op.k == "square") solve<fb::QuadraticProgram<2, 2>>(op, opi, 2, 2);
      else if (op.k == "partial") solve<fb::QuadraticProgram<-1, 3>>(op, opi, 3, m);
    }
  }
};

SchedOut g_last_sched();
struct OsqpDomain : Domain
{
  Plan generate(const std::string &, uint64_t seed, bool thorough) override
  {
    Rng g(seed);
    Plan pl;
    const int T = g.p(0.2) ? 2 : 1;
    pl.ops.push_back(Op("fill").set("f", double(g.i(1, 1000))));
    if (T > 1) pl.ops.push_back(Op("sched").set("seed", double(g.seed32())).set("mean", g.logu(20, 1000)));
    for (int t = 0; t < T; ++t) {
      const int k = int(g.i(1, thorough ? 8 : 5));
      for (int j = 0; j < k; ++j) {
        Op o(g.pick<const char *>({"dense", "dense", "sparse", "sparse", "fixed", "square", "partial"}));
        o.set("t", t).set("n", double(g.p(0.01) ? 0 : g.i(1, thorough ? 14 : 7))).set("m", double(g.p(0.08) ? 0 : g.i(1, thorough ? 14 : 9))).set("vs", double(g.seed32() & 0xfffff)).set("ps", double(g.seed32() & 0xfffff)).set("ws", double(g.seed32() & 0xfffff));
        o.set("dens", g.pick<double>({0.2, 0.6, 1.0})).set("low", double(g.i(0, 1))).set("form", double(g.i(0, 2)));
        if (g.p(0.4)) o.set("warm", 1); else if (g.p(0.3)) o.set("nullwarm", 1);
        const double r = g.u();
        o.set("status", double(r < 0.45 ? OSQP_SOLVED : g.pick<int>({OSQP_PRIMAL_INFEASIBLE, OSQP_DUAL_INFEASIBLE, OSQP_MAX_ITER_REACHED, OSQP_TIME_LIMIT_REACHED, OSQP_SOLVED_INACCURATE, OSQP_PRIMAL_INFEASIBLE_INACCURATE, OSQP_DUAL_INFEASIBLE_INACCURATE, OSQP_SIGINT, OSQP_NON_CVX, OSQP_UNSOLVED})));
        o.set("pol", double(g.pick<int>({0, 1, -1}))).set("iter", double(int64_t(g.logu(1, 1e6)))).set("obj", g.n() * g.pick<double>({1, 1, 1e6, 1e-6}));
        if (g.p(0.35)) {
          const double f = g.u();
          if (f < 0.25) o.set("sf", double(g.i(1, 3)));
          else if (f < 0.3) o.set("wf", 1);
          else if (f < 0.5) o.set("vf", double(g.i(1, 2)));
          else if (f < 0.8) o.set("af", double(g.i(1, 14)));
          else o.set("cxx", double(g.i(1, 2)));
        }
        if (g.p(0.1)) o.set("stall", g.logu(1e-3, 10));
        pl.ops.push_back(o);
      }
    }
    return pl;
  }
  void execute(Plan & plan) override
  {
    clock_reset(1000000000ll, 1700000000ll * 1000000000ll, 1);
    int nt = 1;
    SchedCfg cfg;
    for (auto & o : plan.ops) {
      nt = std::max(nt, int(o.i("t")) + 1);
      if (o.k == "sched") { cfg.seed = uint64_t(o.i("seed")); cfg.mean = o.d("mean", 200); cfg.use_explicit = o.i("explicit"); }
      if (o.k == "switch") cfg.explicit_.emplace_back(uint64_t(o.d("at")), int(o.i("to")));
    }
    Exec ex(plan, nt > 1);
    std::vector<std::function<void()>> bodies;
    for (int t = 0; t < nt; ++t) bodies.push_back([&, t] { ex.run(t); });
    cfg.preempt = nt > 1;
    auto so = run_tasks(bodies, cfg);
    if (nt > 1) { probe("interleavings"); logv(so.hash); }
  }
};

namespace sim {
Domain & domain()
{
  static OsqpDomain d;
  return d;
}
}  // namespace sim
