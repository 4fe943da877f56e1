// Ipopt interface domain (C17): the real Ipopt library solving generated nonlinear programs whose callbacks fail, return
// non-finite values or stall, under a simulated CPU clock; and a simulated Ipopt driving the interface in seeded order.
#include "rt.hpp"
#include "smooth/feedback/compat/ipopt.hpp"

#include <Eigen/Dense>
#include <cstring>
#include <sys/resource.h>

using namespace sim;
namespace fb = smooth::feedback;
using Mat = Eigen::MatrixXd;
using Vec = Eigen::VectorXd;
using Sp  = Eigen::SparseMatrix<double>;
using St  = fb::NLPSolution::Status;

static const double INF = std::numeric_limits<double>::infinity();
static const char * kSt[] = {"Optimal", "PrimalInfeasible", "DualInfeasible", "MaxIterations", "MaxTime", "Unknown"};
static const char * sname(St s) { int k = int(s); return k >= 0 && k < 6 ? kSt[k] : "uninitialised"; }

// CPU time of the simulated process (Ipopt reads it through getrusage)
extern "C" int getrusage(__rusage_who_t, struct rusage * r) noexcept
{
  memset(r, 0, sizeof *r);
  const int64_t t   = mono_ns();
  r->ru_utime.tv_sec  = t / 1000000000;
  r->ru_utime.tv_usec = (t / 1000) % 1000000;
  return 0;
}

enum { K_QP, K_EQ, K_EXP, K_ROSEN, K_SPHERE, K_INFEAS, K_UNB, K_BOX, K_FIXED, K_ALLFIXED, K_OVERDET, K_N };
static const char * kKind[] = {"convex-qp", "equality-qp", "convex-exp", "rosenbrock", "sphere", "infeasible", "unbounded", "box-only", "some-fixed", "all-fixed", "overdetermined"};
enum { CB_F, CB_DF, CB_G, CB_DG, CB_HF, CB_HG, CB_XL, CB_GL, CB_N };
static const char * kCb[] = {"f", "df_dx", "g", "dg_dx", "d2f_dx2", "d2g_dx2", "xl", "gl"};

struct Model
{
  int kind{0}, n{0}, m{0};
  Mat Q, A;
  std::vector<Mat> B;
  Vec c, xl, xu, gl, gu;
  double rosen{0};
  Mat D;  // rows: exponents
  bool convex{false}, solvable{false};
  Eigen::Array<bool, -1, -1> jp, hfp, hgp;  // stored patterns

  double f(const Vec & x) const
  {
    double r = 0.5 * x.dot(Q * x) + c.dot(x);
    for (int k = 0; k < D.rows(); ++k) r += std::exp(D.row(k).dot(x));
    if (rosen > 0) for (int i = 0; i + 1 < n; ++i) r += rosen * std::pow(x(i + 1) - x(i) * x(i), 2) + std::pow(1 - x(i), 2);
    return r;
  }
  Vec df(const Vec & x) const
  {
    Vec r = Q * x + c;
    for (int k = 0; k < D.rows(); ++k) r += std::exp(D.row(k).dot(x)) * D.row(k).transpose();
    if (rosen > 0)
      for (int i = 0; i + 1 < n; ++i) {
        const double e = x(i + 1) - x(i) * x(i);
        r(i) += -4 * rosen * x(i) * e - 2 * (1 - x(i));
        r(i + 1) += 2 * rosen * e;
      }
    return r;
  }
  Mat d2f(const Vec & x) const
  {
    Mat r = Q;
    for (int k = 0; k < D.rows(); ++k) r += std::exp(D.row(k).dot(x)) * D.row(k).transpose() * D.row(k);
    if (rosen > 0)
      for (int i = 0; i + 1 < n; ++i) {
        r(i, i) += 12 * rosen * x(i) * x(i) - 4 * rosen * x(i + 1) + 2;
        r(i, i + 1) += -4 * rosen * x(i);
        r(i + 1, i) += -4 * rosen * x(i);
        r(i + 1, i + 1) += 2 * rosen;
      }
    return r;
  }
  Vec g(const Vec & x) const
  {
    Vec r = A * x;
    for (int i = 0; i < m; ++i) r(i) += 0.5 * x.dot(B[size_t(i)] * x);
    return r;
  }
  Mat dg(const Vec & x) const
  {
    Mat r = A;
    for (int i = 0; i < m; ++i) r.row(i) += (B[size_t(i)] * x).transpose();
    return r;
  }
  Mat d2g(const Vec & l) const
  {
    Mat r = Mat::Zero(n, n);
    for (int i = 0; i < m; ++i) r += l(i) * B[size_t(i)];
    return r;
  }
};

static Model make_model(const Op & op)
{
  Model p;
  Rng g(uint64_t(op.i("vs")) * 7919 + uint64_t(op.i("kind")));
  p.kind = int(op.i("kind")) % K_N;
  p.n    = std::max(1, int(op.i("n")));
  p.m    = std::max(0, int(op.i("m")));
  int n = p.n;
  if (p.kind == K_BOX || p.kind == K_UNB) p.m = 0;
  if (p.kind == K_UNB && g.p(0.5)) p.m = 1;
  if (p.kind == K_EQ) p.m = std::min(std::max(1, p.m), std::max(1, n - 1));
  if (p.kind == K_EQ && n == 1) { p.n = n = 2; p.m = 1; }
  if ((p.kind == K_SPHERE || p.kind == K_ROSEN) && n < 2) p.n = n = 2;
  if (p.kind == K_SPHERE) p.m = 1;
  if (p.kind == K_INFEAS) p.m = std::max(2, p.m);
  if (p.kind == K_OVERDET) p.m = n + 1 + p.m % 2;
  const int m = p.m;
  auto vec = [&](int k, double s) { Vec v(k); for (int i = 0; i < k; ++i) v(i) = s * g.n(); return v; };
  auto mat = [&](int r, int q, double s) { Mat v(r, q); for (int i = 0; i < r; ++i) for (int j = 0; j < q; ++j) v(i, j) = s * g.n(); return v; };
  Mat R = mat(n, n, 0.6);
  p.Q   = R * R.transpose() + 0.3 * Mat::Identity(n, n);
  p.c   = vec(n, 2);
  p.A   = mat(m, n, 1);
  for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) if (g.p(0.25)) p.A(i, j) = 0;
  for (int i = 0; i < m; ++i) if (p.A.row(i).cwiseAbs().maxCoeff() < 0.2) p.A(i, int(g.i(0, n - 1))) = 1;
  p.B.assign(size_t(m), Mat::Zero(n, n));
  p.D  = Mat::Zero(0, n);
  p.xl = Vec::Constant(n, -INF);
  p.xu = Vec::Constant(n, INF);
  p.gl = Vec::Constant(m, -INF);
  p.gu = Vec::Constant(m, INF);
  Vec x0 = vec(n, 0.7);
  auto boxes = [&] { for (int i = 0; i < n; ++i) { if (g.p(0.5)) p.xl(i) = x0(i) - g.u(0.3, 2); if (g.p(0.5)) p.xu(i) = x0(i) + g.u(0.3, 2); } };
  auto rows  = [&] {
    Vec gx = p.g(x0);
    for (int i = 0; i < m; ++i) {
      const double r = g.u();
      if (r < 0.7) p.gu(i) = gx(i) + g.u(0.2, 2);
      if (r > 0.3) p.gl(i) = gx(i) - g.u(0.2, 2);
    }
  };
  p.convex = p.solvable = true;
  switch (p.kind) {
    case K_QP: boxes(); rows(); break;
    case K_EQ: {
      if (g.p(0.5)) boxes();
      Vec gx = p.g(x0);
      p.gl = p.gu = gx;
      for (int i = 1; i < m; ++i) if (g.p(0.3)) p.gu(i) += 1;
      // keep equality rows independent
      for (int i = 0; i < m; ++i) { p.A.row(i).setZero(); p.A(i, i) = 1; p.A(i, n - 1) = g.u(-1, 1); }
      gx = p.g(x0);
      for (int i = 0; i < m; ++i) { const double w = p.gu(i) - p.gl(i); p.gl(i) = gx(i); p.gu(i) = gx(i) + w; }
      break;
    }
    case K_EXP: {
      p.D = mat(int(g.i(1, 3)), n, 0.5);
      boxes();
      for (int i = 0; i < m; ++i) if (g.p(0.5)) { p.B[size_t(i)] = Mat::Identity(n, n) * g.u(0.3, 1); }
      Vec gx = p.g(x0);
      for (int i = 0; i < m; ++i) p.gu(i) = gx(i) + g.u(0.2, 2);
      break;
    }
    case K_ROSEN: {
      p.Q.setZero();
      p.c.setZero();
      p.rosen  = g.pick<double>({1, 10, 50});
      p.convex = false;
      if (g.p(0.5)) boxes();
      for (int i = 0; i < m; ++i) p.B[size_t(i)] = Mat::Identity(n, n) * g.u(0.3, 1);
      Vec gx = p.g(x0);
      for (int i = 0; i < m; ++i) p.gu(i) = gx(i) + g.u(0.2, 2);
      p.solvable = false;  // local optimum only, no demand to reach it
      break;
    }
    case K_SPHERE: {
      p.Q.setZero();
      p.A.setZero();
      p.B[0] = 2 * Mat::Identity(n, n);
      p.gl(0) = p.gu(0) = g.u(0.5, 3);
      p.c /= std::max(0.5, p.c.norm());
      p.convex   = false;
      p.solvable = false;
      break;
    }
    case K_INFEAS: {
      p.solvable = false;
      if (g.p(0.5)) boxes();
      rows();
      if (g.p(0.5)) { p.A.row(1) = p.A.row(0); p.gl(0) = 1; p.gu(0) = INF; p.gu(1) = -1; p.gl(1) = -INF; }
      else { p.A.row(0).setZero(); p.B[0] = Mat::Identity(n, n); p.gu(0) = -1 - g.u(); p.gl(0) = -INF; }
      break;
    }
    case K_UNB: {
      p.Q.setZero();
      p.solvable = false;
      for (int i = 0; i < n; ++i) if (std::fabs(p.c(i)) < 0.3) p.c(i) = 0.5;
      if (m) { p.gl(0) = -1; p.A.row(0) = -p.c.transpose(); }
      break;
    }
    case K_BOX: boxes(); break;
    case K_FIXED: case K_ALLFIXED: {
      boxes();
      rows();
      for (int i = 0; i < n; ++i) if (p.kind == K_ALLFIXED || (g.p(0.4) && i)) p.xl(i) = p.xu(i) = x0(i);
      break;
    }
    case K_OVERDET: { Vec gx = p.g(x0); p.gl = p.gu = gx; p.solvable = false; break; }
  }
  // stored patterns: structural nonzeros plus some explicit zeros, the same at every point
  p.jp.setConstant(m, n, false);
  p.hfp.setConstant(n, n, false);
  p.hgp.setConstant(n, n, false);
  for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) p.jp(i, j) = p.A(i, j) != 0 || p.B[size_t(i)].row(j).cwiseAbs().maxCoeff() > 0 || g.p(0.1);
  for (int i = 0; i < n; ++i)
    for (int j = i; j < n; ++j) {
      p.hfp(i, j) = p.Q(i, j) != 0 || p.D.rows() || (p.rosen > 0 && j <= i + 1) || g.p(0.1);
      for (auto & b : p.B) if (b(i, j) != 0) p.hgp(i, j) = true;
      if (g.p(0.1)) p.hgp(i, j) = true;
    }
  return p;
}

// ------------------------------------------------------------------ callbacks with faults
struct CbError : std::runtime_error { using runtime_error::runtime_error; };
struct Script
{
  int cb{-1}, mode{0};
  uint64_t k{0};
  bool persistent{false};
  uint64_t stall_at{0};
  int64_t stall_ns{0};
  // recorded
  uint64_t calls[CB_N]{}, total{0}, fired{0}, after_limit{0};
  int64_t t0{0}, limit_ns{-1};
  bool live{false};
};

struct Fwd
{
  const Model * p{nullptr};
  Script * s{nullptr};

  // returns the value to poison a result with (or 0), may throw
  bool hit(int cb) const
  {
    if (!s || !s->live) return false;
    ++s->calls[cb];
    ++s->total;
    if (s->stall_at && s->total == s->stall_at) { clock_advance(s->stall_ns); fault("callback_stall"); }
    if (s->limit_ns >= 0 && mono_ns() - s->t0 > s->limit_ns) ++s->after_limit;
    if (s->cb != cb || !s->k) return false;
    if (s->persistent ? s->calls[cb] < s->k : s->calls[cb] != s->k) return false;
    ++s->fired;
    if (s->mode == 0) { fault(std::string("throw_") + kCb[cb]); throw CbError(std::string("callback ") + kCb[cb] + " failed"); }
    if (s->mode == 1) { fault(std::string("bad_alloc_") + kCb[cb]); throw std::bad_alloc(); }
    if (s->mode == 4) { fault(std::string("throw_other_") + kCb[cb]); throw 42; }
    fault(std::string(s->mode == 2 ? "nan_" : "inf_") + kCb[cb]);
    return true;
  }
  double bad() const { return s->mode == 2 ? std::numeric_limits<double>::quiet_NaN() : INF; }

  std::size_t n() const { return size_t(p->n); }
  std::size_t m() const { return size_t(p->m); }
  Vec xl() const { hit(CB_XL); return p->xl; }
  Vec xu() const { return p->xu; }
  Vec gl() const { hit(CB_GL); return p->gl; }
  Vec gu() const { return p->gu; }
  double f(const Eigen::Ref<const Vec> x) const { bool b = hit(CB_F); return b ? bad() : p->f(x); }
  static Sp store(const Mat & v, const Eigen::Array<bool, -1, -1> & pat)
  {
    Sp r(v.rows(), v.cols());
    for (int j = 0; j < v.cols(); ++j)
      for (int i = 0; i < v.rows(); ++i)
        if (pat(i, j)) r.insert(i, j) = v(i, j);
    r.makeCompressed();
    return r;
  }
  Sp df_dx(const Eigen::Ref<const Vec> x) const
  {
    bool b = hit(CB_DF);
    Mat d  = p->df(x).transpose();
    if (b) d(0, 0) = bad();
    return store(d, (d.array() != 0).eval());
  }
  Vec g(const Eigen::Ref<const Vec> x) const
  {
    bool b = hit(CB_G);
    Vec r  = p->g(x);
    if (b && r.size()) r(r.size() - 1) = bad();
    return r;
  }
  Sp dg_dx(const Eigen::Ref<const Vec> x) const
  {
    bool b = hit(CB_DG);
    Sp r   = store(p->dg(x), p->jp);
    if (b && r.nonZeros()) r.valuePtr()[0] = bad();
    return r;
  }
};
struct Hess : Fwd
{
  Sp d2f_dx2(const Eigen::Ref<const Vec> x) const
  {
    bool b = hit(CB_HF);
    Sp r   = store(p->d2f(x), p->hfp);
    if (b && r.nonZeros()) r.valuePtr()[0] = bad();
    return r;
  }
  Sp d2g_dx2(const Eigen::Ref<const Vec>, const Eigen::Ref<const Vec> l) const
  {
    bool b = hit(CB_HG);
    Sp r   = store(p->d2g(l), p->hgp);
    if (b && r.nonZeros()) r.valuePtr()[0] = bad();
    return r;
  }
};
static_assert(fb::NLP<Fwd> && !fb::HessianNLP<Fwd> && fb::HessianNLP<Hess>);

// ------------------------------------------------------------------ oracles
static void check_kkt(const Model & p, const fb::NLPSolution & s, const char * w)
{
  if (s.x.size() != p.n || s.zl.size() != p.n || s.zu.size() != p.n || s.lambda.size() != p.m) fail("wrong-size", "%s: Optimal with vectors of wrong size", w);
  if (!s.x.allFinite() || !s.zl.allFinite() || !s.zu.allFinite() || !s.lambda.allFinite() || !std::isfinite(s.objective)) fail("non-finite", "%s: Optimal with non-finite values", w);
  auto scale = [](double a) { return 1 + std::fabs(a); };
  for (int i = 0; i < p.n; ++i) {
    if (s.x(i) < p.xl(i) - 1e-6 * scale(p.xl(i)) || s.x(i) > p.xu(i) + 1e-6 * scale(p.xu(i))) fail("not-optimal", "%s: Optimal but variable %d = %g outside [%g, %g]", w, i, s.x(i), p.xl(i), p.xu(i));
    if (s.zl(i) < -1e-7 || s.zu(i) < -1e-7) fail("not-optimal", "%s: Optimal but bound multiplier %d has wrong sign", w, i);
  }
  Vec gx = p.g(s.x), df = p.df(s.x);
  Mat J = p.dg(s.x);
  const double mult = 1 + (p.n ? std::max(s.zl.cwiseAbs().maxCoeff(), s.zu.cwiseAbs().maxCoeff()) : 0) + (p.m ? s.lambda.cwiseAbs().maxCoeff() : 0);
  const double tol  = 2e-4 * (mult + df.cwiseAbs().maxCoeff());
  for (int i = 0; i < p.m; ++i) {
    const double t = 2e-4 * (1 + std::fabs(gx(i)) + J.row(i).cwiseAbs().maxCoeff());
    if (gx(i) < p.gl(i) - t || gx(i) > p.gu(i) + t) fail("not-optimal", "%s: Optimal but constraint %d = %g outside [%g, %g]", w, i, gx(i), p.gl(i), p.gu(i));
    const double lp = std::max(0., s.lambda(i)), lm = std::max(0., -s.lambda(i));
    auto comp = [&](double l, double gap) { return std::isinf(gap) ? l : l * std::max(0., gap); };
    if (comp(lp, p.gu(i) - gx(i)) > tol || comp(lm, gx(i) - p.gl(i)) > tol) fail("not-optimal", "%s: Optimal but multiplier %d = %g for value %g in [%g, %g]", w, i, s.lambda(i), gx(i), p.gl(i), p.gu(i));
  }
  Vec r = df - s.zl + s.zu;
  if (p.m) r += J.transpose() * s.lambda;
  for (int i = 0; i < p.n; ++i) {
    if (p.xl(i) == p.xu(i)) continue;
    if (!(std::fabs(r(i)) <= tol)) fail("not-optimal", "%s: Optimal but gradient of the Lagrangian is %g in component %d (tolerance %g)", w, r(i), i, tol);
    auto comp = [&](double z, double gap) { return std::isinf(gap) ? z : z * std::max(0., gap); };
    if (comp(s.zl(i), s.x(i) - p.xl(i)) > tol || comp(s.zu(i), p.xu(i) - s.x(i)) > tol) fail("not-optimal", "%s: Optimal but bound multipliers (%g, %g) of variable %d are not complementary", w, s.zl(i), s.zu(i), i);
  }
}
static void check_objective(const Model & p, const fb::NLPSolution & s, const char * w)
{
  const double f = p.f(s.x), mag = 1 + std::fabs(f) + std::fabs(p.c.dot(s.x)) + std::fabs(s.x.dot(p.Q * s.x));
  // Ipopt moves the point into its bounds after the last evaluation
  const double moved = 1e-7 * (1 + s.x.cwiseAbs().maxCoeff()) * p.df(s.x).cwiseAbs().sum();
  if (!(std::fabs(f - s.objective) <= 1e-6 * mag + moved)) fail("wrong-objective", "%s: objective %.12g but the cost of the returned point is %.12g", w, s.objective, f);
}

struct Exec
{
  Plan & plan;
  std::map<int, Model> ms;
  std::map<int, fb::NLPSolution> last;
  explicit Exec(Plan & p) : plan(p) { for (auto & o : p.ops) if (o.k == "prob") ms[int(o.i("id"))] = make_model(o); }

  struct Out { fb::NLPSolution s; SutResult r; };
  Out call(const Model & p, Script & sc, const Op & op, const std::optional<fb::NLPSolution> & ws, int max_iter, double cpu, const CallFaults & cf = {})
  {
    std::vector<std::pair<std::string, int>> oi{{"print_level", 0}};
    if (max_iter >= 0) oi.emplace_back("max_iter", max_iter);
    std::vector<std::pair<std::string, std::string>> os;
    const bool hess = op.i("ty"), exact = hess && op.i("exact");
    if (op.i("exact") && hess) os.emplace_back("hessian_approximation", "exact");
    else if (op.i("lm", 1)) os.emplace_back("hessian_approximation", "limited-memory");
    if (op.i("ls")) os.emplace_back("linear_solver", "mumps");
    if (op.i("mu")) os.emplace_back("mu_strategy", "adaptive");
    if (op.i("junk")) { os.emplace_back("no_such_option", "yes"); fault("invalid_option"); }
    std::vector<std::pair<std::string, double>> on;
    if (cpu >= 0) on.emplace_back("max_cpu_time", cpu);
    if (op.has("tol")) on.emplace_back("tol", op.d("tol"));
    Out o;
    o.s.status = St(77);
    sc.live = true;
    sc.t0   = mono_ns();
    sc.limit_ns = cpu >= 0 ? int64_t(cpu * 1e9) : -1;
    Fwd fw{&p, &sc};
    Hess he;
    he.p = &p; he.s = &sc;
    (void)exact;
    o.r = sut([&] { if (hess) o.s = fb::solve_nlp_ipopt(he, ws, oi, os, on); else o.s = fb::solve_nlp_ipopt(fw, ws, oi, os, on); }, cf);
    sc.live = false;
    return o;
  }

  void do_solve(const Op & op, size_t opi)
  {
    const int pi = int(op.i("p"));
    if (!ms.count(pi)) return;
    const Model & p = ms[pi];
    std::optional<fb::NLPSolution> ws;
    const char * wn = "none";
    Rng g(uint64_t(op.i("wseed")) + 17);
    switch (op.i("ws")) {
      case 1: case 2:
        if (last.count(pi) && last[pi].x.size() == p.n && last[pi].zl.size() == p.n && last[pi].lambda.size() == p.m && last[pi].x.allFinite() && last[pi].zl.allFinite() && last[pi].zu.allFinite() && last[pi].lambda.allFinite() && last[pi].x.cwiseAbs().maxCoeff() < 1e6) { ws = last[pi]; wn = "last"; if (op.i("ws") == 2) ws->status = St::Optimal; }
        break;
      case 3: {
        fb::NLPSolution s;
        s.status = St::Optimal;
        s.x = Vec::NullaryExpr(p.n, [&] { return g.n(); });
        s.zl = Vec::NullaryExpr(p.n, [&] { return g.u(0, 1); });
        s.zu = Vec::NullaryExpr(p.n, [&] { return g.u(0, 1); });
        s.lambda = Vec::NullaryExpr(p.m, [&] { return g.n(); });
        ws = s; wn = "random";
        break;
      }
      default: break;
    }
    const bool wlast = ws && op.i("ws") != 3;
    const int mi     = op.has("mi") ? int(op.i("mi")) : 600;
    const double cpu = op.has("cpu") ? op.d("cpu") : -1;
    auto w = fmt("op %zu (%s n=%d m=%d, %s, warm start %s)", opi, kKind[p.kind], p.n, p.m, op.i("ty") ? (op.i("exact") ? "exact Hessian" : "Hessian not used") : op.i("lm", 1) ? "no Hessian" : "default options", wn);

    // reference: same call, no limits, no faults
    Script s0;
    Out ref = call(p, s0, op, ws, 600, -1);
    if (!ref.r.ok) {
      if (op.i("junk")) { probe("invalid_option_rejected"); return; }
      fail("unexpected-exception", "%s without faults: %s", w.c_str(), ref.r.ex.c_str());
    }
    judge(p, ref, s0, w + " without faults", -2, -1, op);
    if (op.i("ty") && op.i("exact") && (s0.calls[CB_HF] < 2 || (p.m && s0.calls[CB_HG] < 2)) && ref.s.status == St::Optimal && ref.s.iter > 1 && p.kind != K_ALLFIXED) fail("hessian-unused", "%s: exact second derivatives were requested but not used", w.c_str());
    if (p.solvable && p.convex && !(wlast || !ws ? false : true)) {
      // convex problem with an interior: has to be solved (an already tight tolerance may end at an acceptable point)
      const bool expect = p.kind == K_QP || p.kind == K_EQ || p.kind == K_EXP || p.kind == K_BOX || p.kind == K_FIXED;
      if (expect && ref.s.status != St::Optimal && !op.i("mu")) fail("not-solved", "%s: solvable convex problem ended with %s", w.c_str(), sname(ref.s.status));
    }
    if (p.kind == K_INFEAS && ref.s.status == St::DualInfeasible) fail("wrong-verdict", "%s: infeasible problem reported as dual infeasible", w.c_str());
    if (p.solvable && (ref.s.status == St::PrimalInfeasible || ref.s.status == St::DualInfeasible)) fail("wrong-verdict", "%s: solvable problem reported as %s", w.c_str(), sname(ref.s.status));
    if (wlast && last[pi].status == St::Optimal && p.solvable && p.convex && ref.s.status == St::Optimal) {
      if (std::fabs(ref.s.objective - last[pi].objective) > 1e-4 * (1 + std::fabs(last[pi].objective))) fail("warm-start", "%s: objective %.9g after a warm start from the solution with objective %.9g", w.c_str(), ref.s.objective, last[pi].objective);
      probe("warm_start_reconverged");
    }

    const bool faulty = op.has("cb") || op.has("st") || op.has("af") || op.has("mi") || cpu >= 0;
    Out o = ref;
    Script s1;
    if (faulty) {
      if (op.has("cb")) {
        s1.cb = int(op.i("cb")) % CB_N;
        s1.mode = int(op.i("fm"));
        s1.persistent = op.i("fp");
        const uint64_t tot = s0.calls[s1.cb];
        s1.k = tot ? 1 + uint64_t(op.d("fk") * double(tot)) % tot : 1;
        if ((s1.cb == CB_XL || s1.cb == CB_GL) && s1.mode >= 2 && s1.mode != 4) s1.mode = 0;
      }
      if (op.has("st")) { s1.stall_at = 1 + uint64_t(op.d("st") * double(s0.total)); s1.stall_ns = int64_t(op.d("sn")); }
      CallFaults cf;
      if (op.has("af") && ref.r.allocs) cf.fail_alloc = 1 + uint64_t(op.d("af") * double(ref.r.allocs)) % ref.r.allocs;
      o = call(p, s1, op, ws, mi, cpu, cf);
      std::string wf = w;
      if (s1.fired) wf += fmt(", %s %s at call %llu%s", kCb[s1.cb], s1.mode == 0 || s1.mode == 4 ? "throws" : s1.mode == 1 ? "runs out of memory" : s1.mode == 2 ? "gives NaN" : "gives inf", (unsigned long long)s1.k, s1.persistent ? " and all later ones" : "");
      if (!o.r.ok) {
        if (o.r.alloc_failed) { probe("call_aborted_by_allocation_failure"); return; }
        // exceptions of the caller's own functions may be passed on to the caller
        if (s1.fired && (s1.mode < 2 || s1.mode == 4)) { probe("callback_exception_passed_on"); return; }
        fail("unexpected-exception", "%s: %s", wf.c_str(), o.r.ex.c_str());
      }
      judge(p, o, s1, wf, op.has("mi") ? mi : -1, cpu, op);
      const bool broke = s1.fired && (s1.mode < 2 || s1.mode == 4);
      if (o.r.alloc_failed || broke) {
        // the solver was interrupted: nothing but "unknown" (or a limit that had been reached before) may be reported
        if (o.s.status == St::Optimal || o.s.status == St::PrimalInfeasible || o.s.status == St::DualInfeasible) {
          if (broke || o.s.x.size() == 0) fail("failure-hidden", "%s: reported %s although the run was aborted", wf.c_str(), sname(o.s.status));
        }
        probe("run_aborted_by_callback");
      } else if (s1.fired && s1.persistent && s1.k == 1 && o.s.status == St::Optimal && p.kind != K_ALLFIXED) {
        // functions that never gave a number: cannot know an optimum
        const bool used = s1.cb == CB_F || s1.cb == CB_DF || ((s1.cb == CB_G || s1.cb == CB_DG) && p.m && p.jp.count());
        if (used) fail("failure-hidden", "%s: reported Optimal", wf.c_str());
      }
      // limits against the unlimited reference
      if (!s1.fired && !o.r.alloc_failed && !s1.stall_at && cpu < 0 && op.has("mi")) {
        // (Ipopt may count iterations of its restoration phase differently when it gives up)
        if (ref.s.status != St::Optimal && ref.s.status != St::MaxIterations) {
          if (o.s.status == St::Optimal || (o.s.status != ref.s.status && o.s.status != St::MaxIterations)) fail("iteration-limit", "%s: %s with max_iter=%d but %s without", wf.c_str(), sname(o.s.status), mi, sname(ref.s.status));
        } else if (ref.s.status == St::MaxIterations || int(ref.s.iter) > mi) {
          if (o.s.status != St::MaxIterations) fail("iteration-limit", "%s: %s with max_iter=%d, %zu iterations needed", wf.c_str(), sname(o.s.status), mi, ref.s.iter);
        } else if (o.s.status != ref.s.status || o.s.iter != ref.s.iter) fail("iteration-limit", "%s: %s after %zu with max_iter=%d, but %s after %zu without", wf.c_str(), sname(o.s.status), o.s.iter, mi, sname(ref.s.status), ref.s.iter);
        probe("iteration_limit_checked");
      }
      // the history must not matter: repeat the undisturbed call
      Script s2;
      Out rep = call(p, s2, op, ws, 600, -1);
      if (!rep.r.ok || rep.s.status != ref.s.status || rep.s.iter != ref.s.iter || !same(rep.s.x, ref.s.x) || !same(rep.s.lambda, ref.s.lambda)) fail("history-dependent", "%s: the same undisturbed call gives another result after the disturbed one (%s, %s)", wf.c_str(), sname(rep.s.status), sname(ref.s.status));
    }
    logv(uint64_t(o.s.status)); logv(o.s.iter); logd(o.s.objective);
    for (int i = 0; i < o.s.x.size(); ++i) logd(o.s.x(i));
    if (g_trace) logs(fmt("%s -> %s iter=%zu obj=%.9g evaluations=%llu fired=%llu", w.c_str(), sname(o.s.status), o.s.iter, o.s.objective, (unsigned long long)(faulty ? s1.total : s0.total), (unsigned long long)s1.fired));
    probe(std::string("verdict_") + sname(o.s.status));
    int l2 = 0;
    for (size_t k = o.s.iter; k; k >>= 1) ++l2;
    state(hcomb(hcomb(uint64_t(p.kind) * 8 + uint64_t(o.s.status), uint64_t(p.n * 8 + p.m)), hcomb(uint64_t(l2 * 8 + op.i("ty") * 4 + op.i("exact") * 2), uint64_t(s1.fired ? 1 + s1.cb * 8 + s1.mode : 0) * 8 + uint64_t(op.i("ws")))));
    last[pi] = ref.s;
  }
  static bool same(const Vec & a, const Vec & b) { return a.size() == b.size() && (a.size() == 0 || memcmp(a.data(), b.data(), sizeof(double) * size_t(a.size())) == 0); }

  void judge(const Model & p, const Out & o, const Script & s, const std::string & w, int mi, double cpu, const Op &)
  {
    const int st = int(o.s.status);
    if (st < 0 || st > 5) fail("uninitialised-status", "%s: returned status is %d", w.c_str(), st);
    if (o.s.status == St::Optimal) { check_kkt(p, o.s, w.c_str()); check_objective(p, o.s, w.c_str()); }
    if (o.s.status == St::MaxIterations) {
      if (mi == -1) mi = 600;
      if (mi == -2) mi = 600;
      if (int(o.s.iter) != mi) fail("iteration-limit", "%s: MaxIterations after %zu iterations with max_iter=%d", w.c_str(), o.s.iter, mi);
    }
    if (mi >= 0 && int(o.s.iter) > mi) fail("iteration-limit", "%s: %zu iterations with max_iter=%d", w.c_str(), o.s.iter, mi);
    if (o.s.status == St::MaxTime) {
      if (cpu < 0) fail("time-limit", "%s: MaxTime without a time limit", w.c_str());
      if (double(o.r.ns) < cpu * 1e9 - 2e3) fail("time-limit", "%s: MaxTime after %lld ns of CPU time, limit %g s", w.c_str(), (long long)o.r.ns, cpu);
      probe("time_limit_hit");
    }
    if (cpu >= 0 && !(s.fired && s.persistent) && s.after_limit > 400) fail("time-limit", "%s: %llu evaluations after the time limit had passed (status %s)", w.c_str(), (unsigned long long)s.after_limit, sname(o.s.status));
  }

  // ---------------------------------------------------------------- simulated Ipopt
  template<class N> void drive_t(const Model & p, const Op & op, size_t opi, bool use_h)
  {
    using namespace Ipopt;
    Rng g(uint64_t(op.i("vs")) * 3 + 1);
    Script sc;
    N nl;
    nl.p = &p; nl.s = &sc;
    SmartPtr<fb::IpoptNLP<N>> t;
    const bool rv = op.i("rv");
    auto r = sut([&] { if (rv) { N c = nl; t = new fb::IpoptNLP<N>(std::move(c), use_h); } else t = new fb::IpoptNLP<N>(nl, use_h); });
    auto w = fmt("op %zu (simulated Ipopt, %s n=%d m=%d%s)", opi, kKind[p.kind], p.n, p.m, use_h ? ", exact Hessian" : "");
    if (!r.ok) fail("unexpected-exception", "%s: %s", w.c_str(), r.ex.c_str());
    Index n = -1, m = -1, nj = -1, nh = -1;
    TNLP::IndexStyleEnum is = TNLP::FORTRAN_STYLE;
    bool ok = false;
    auto go = [&](const char * what, auto && f) {
      // the k:th call of a callback may fail; the simulated solver then repeats the request
      sc.live = true;
      auto q  = sut([&] { ok = f(); });
      sc.live = false;
      if (!q.ok) {
        if (!sc.fired) fail("unexpected-exception", "%s: %s: %s", w.c_str(), what, q.ex.c_str());
        probe("driven_callback_failed");
        sc.cb = -1;
        q = sut([&] { ok = f(); });
        if (!q.ok) fail("not-reusable", "%s: %s fails again after a failed callback: %s", w.c_str(), what, q.ex.c_str());
      }
      if (!ok) fail("interface", "%s: %s refused", w.c_str(), what);
    };
    go("get_nlp_info", [&] { return t->get_nlp_info(n, m, nj, nh, is); });
    const int want_nj = int(p.jp.count()), want_nh = use_h ? int((p.hfp || p.hgp).count()) : 0;
    if (n != p.n || m != p.m || nj != want_nj || nh != want_nh || is != TNLP::C_STYLE) fail("interface", "%s: get_nlp_info gives n=%d m=%d nnz=%d/%d, expected %d %d %d/%d", w.c_str(), n, m, nj, nh, p.n, p.m, want_nj, want_nh);
    struct Arr
    {
      std::vector<double> v;
      int k;
      explicit Arr(int n_) : v(size_t(n_) + 2, 4.5e33), k(n_) {}
      double * d() { return v.data() + 1; }
      void chk(const char * what, const std::string & w) { if (v[0] != 4.5e33 || v[size_t(k) + 1] != 4.5e33) fail("overrun", "%s: %s writes outside its array", w.c_str(), what); }
    };
    std::vector<int> jr(size_t(nj) + 1, -7), jc(size_t(nj) + 1, -7), hr(size_t(nh) + 1, -7), hc(size_t(nh) + 1, -7);
    bool have_j = false, have_h = false;
    auto vec = [&](int k, double s) { Vec v(k); for (int i = 0; i < k; ++i) v(i) = s * g.n(); return v; };
    fb::NLPSolution start;
    start.status = St::Optimal;
    start.x = vec(p.n, 1); start.zl = vec(p.n, 1); start.zu = vec(p.n, 1); start.lambda = vec(p.m, 1);
    t->sol() = start;
    auto near = [](double a, double b) { return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(b)); };
    const int steps = int(op.i("steps", 20));
    if (op.has("cb")) { sc.cb = int(op.i("cb")) % CB_N; sc.k = uint64_t(1 + op.i("fk")); sc.mode = 0; for (auto & c : sc.calls) c = 0; }
    Vec x = vec(p.n, 1), lam = vec(p.m, 1);
    for (int k = 0; k < steps; ++k) {
      bool nx = g.p(0.5);
      if (nx) x = vec(p.n, 1);
      switch (g.i(0, 6)) {
        case 0: {
          Arr a(p.n), b(p.n), c(p.m), d(p.m);
          go("get_bounds_info", [&] { return t->get_bounds_info(p.n, a.d(), b.d(), p.m, c.d(), d.d()); });
          a.chk("x_l", w); b.chk("x_u", w); c.chk("g_l", w); d.chk("g_u", w);
          auto lo = [](double got, double want) { return want == -INF ? got <= -1e19 && std::isfinite(got) : got == want; };
          auto hi = [](double got, double want) { return want == INF ? got >= 1e19 && std::isfinite(got) : got == want; };
          for (int i = 0; i < p.n; ++i) if (!lo(a.d()[i], p.xl(i)) || !hi(b.d()[i], p.xu(i))) fail("interface", "%s: bounds of variable %d passed as [%g, %g], given [%g, %g]", w.c_str(), i, a.d()[i], b.d()[i], p.xl(i), p.xu(i));
          for (int i = 0; i < p.m; ++i) if (!lo(c.d()[i], p.gl(i)) || !hi(d.d()[i], p.gu(i))) fail("interface", "%s: bounds of constraint %d passed as [%g, %g], given [%g, %g]", w.c_str(), i, c.d()[i], d.d()[i], p.gl(i), p.gu(i));
          break;
        }
        case 1: {
          Arr a(p.n), b(p.n), c(p.n), d(p.m);
          const bool ix = g.p(0.8), iz = g.p(0.6), il = g.p(0.6);
          go("get_starting_point", [&] { return t->get_starting_point(p.n, ix, a.d(), iz, b.d(), c.d(), p.m, il, d.d()); });
          a.chk("x", w); b.chk("z_L", w); c.chk("z_U", w); d.chk("lambda", w);
          for (int i = 0; i < p.n; ++i) {
            if (ix && a.d()[i] != t->sol().x(i)) fail("interface", "%s: starting point differs from the warm start", w.c_str());
            if (iz && (b.d()[i] != t->sol().zl(i) || c.d()[i] != t->sol().zu(i))) fail("interface", "%s: starting multipliers differ from the warm start", w.c_str());
          }
          for (int i = 0; i < p.m; ++i) if (il && d.d()[i] != t->sol().lambda(i)) fail("interface", "%s: starting multipliers differ from the warm start", w.c_str());
          break;
        }
        case 2: {
          double f = 0;
          go("eval_f", [&] { return t->eval_f(p.n, x.data(), nx, f); });
          if (!near(f, p.f(x))) fail("interface", "%s: objective %g, model %g", w.c_str(), f, p.f(x));
          break;
        }
        case 3: {
          Arr a(p.n);
          go("eval_grad_f", [&] { return t->eval_grad_f(p.n, x.data(), nx, a.d()); });
          a.chk("grad_f", w);
          Vec df = p.df(x);
          for (int i = 0; i < p.n; ++i) if (!near(a.d()[i], df(i))) fail("interface", "%s: gradient component %d is %g, model %g", w.c_str(), i, a.d()[i], df(i));
          break;
        }
        case 4: {
          Arr a(p.m);
          go("eval_g", [&] { return t->eval_g(p.n, x.data(), nx, p.m, a.d()); });
          a.chk("g", w);
          Vec gx = p.g(x);
          for (int i = 0; i < p.m; ++i) if (!near(a.d()[i], gx(i))) fail("interface", "%s: constraint %d is %g, model %g", w.c_str(), i, a.d()[i], gx(i));
          break;
        }
        case 5: {
          if (!have_j || g.p(0.2)) {
            go("eval_jac_g structure", [&] { return t->eval_jac_g(p.n, nullptr, nx, p.m, nj, jr.data(), jc.data(), nullptr); });
            have_j = true;
            Eigen::Array<bool, -1, -1> seen = Eigen::Array<bool, -1, -1>::Constant(p.m, p.n, false);
            for (int i = 0; i < nj; ++i) {
              if (jr[size_t(i)] < 0 || jr[size_t(i)] >= p.m || jc[size_t(i)] < 0 || jc[size_t(i)] >= p.n) fail("interface", "%s: Jacobian entry %d at (%d,%d)", w.c_str(), i, jr[size_t(i)], jc[size_t(i)]);
              if (seen(jr[size_t(i)], jc[size_t(i)])) fail("interface", "%s: duplicate Jacobian entry", w.c_str());
              seen(jr[size_t(i)], jc[size_t(i)]) = true;
            }
            if (jr[size_t(nj)] != -7 || jc[size_t(nj)] != -7) fail("overrun", "%s: Jacobian structure writes outside its arrays", w.c_str());
          }
          Arr a(nj);
          go("eval_jac_g", [&] { return t->eval_jac_g(p.n, x.data(), nx, p.m, nj, nullptr, nullptr, a.d()); });
          a.chk("Jacobian", w);
          Mat J = Mat::Zero(p.m, p.n), want = p.dg(x);
          for (int i = 0; i < nj; ++i) J(jr[size_t(i)], jc[size_t(i)]) += a.d()[i];
          if (J.size() && (J - want).cwiseAbs().maxCoeff() > 1e-9 * (1 + want.cwiseAbs().maxCoeff())) fail("interface", "%s: Jacobian passed to the solver differs from the model", w.c_str());
          break;
        }
        default: {
          if (!use_h) break;
          const bool nlm = g.p(0.5);
          if (nlm) lam = vec(p.m, 2);
          const double sigma = g.pick<double>({1, 0, 0.5, -1, 3});
          if (!have_h || g.p(0.2)) {
            go("eval_h structure", [&] { return t->eval_h(p.n, nullptr, nx, 0, p.m, nullptr, nlm, nh, hr.data(), hc.data(), nullptr); });
            have_h = true;
            for (int i = 0; i < nh; ++i) {
              if (hr[size_t(i)] < 0 || hr[size_t(i)] >= p.n || hc[size_t(i)] < 0 || hc[size_t(i)] >= p.n) fail("interface", "%s: Hessian entry %d at (%d,%d)", w.c_str(), i, hr[size_t(i)], hc[size_t(i)]);
              if (hr[size_t(i)] < hc[size_t(i)]) fail("interface", "%s: Hessian entry (%d,%d) is not in the lower triangle", w.c_str(), hr[size_t(i)], hc[size_t(i)]);
            }
            if (hr[size_t(nh)] != -7 || hc[size_t(nh)] != -7) fail("overrun", "%s: Hessian structure writes outside its arrays", w.c_str());
          }
          Arr a(nh);
          go("eval_h", [&] { return t->eval_h(p.n, x.data(), nx, sigma, p.m, lam.data(), nlm, nh, nullptr, nullptr, a.d()); });
          a.chk("Hessian", w);
          Mat H = Mat::Zero(p.n, p.n), want = sigma * p.d2f(x) + p.d2g(lam);
          for (int i = 0; i < nh; ++i) H(hr[size_t(i)], hc[size_t(i)]) += a.d()[i];
          Mat low = want.triangularView<Eigen::Lower>();
          if ((H - low).cwiseAbs().maxCoeff() > 1e-9 * (1 + want.cwiseAbs().maxCoeff())) fail("interface", "%s: Hessian of the Lagrangian (factor %g) passed to the solver differs from the model by %g", w.c_str(), sigma, (H - low).cwiseAbs().maxCoeff());
          probe("driven_hessian");
        }
      }
    }
    // outcome: every reason Ipopt can give
    static const SolverReturn all[] = {SUCCESS, MAXITER_EXCEEDED, CPUTIME_EXCEEDED, STOP_AT_TINY_STEP, STOP_AT_ACCEPTABLE_POINT, LOCAL_INFEASIBILITY, USER_REQUESTED_STOP, FEASIBLE_POINT_FOUND, DIVERGING_ITERATES, RESTORATION_FAILURE, ERROR_IN_STEP_COMPUTATION, INVALID_NUMBER_DETECTED, TOO_FEW_DEGREES_OF_FREEDOM, INVALID_OPTION, OUT_OF_MEMORY, INTERNAL_ERROR, UNASSIGNED};
    const auto why = all[g.i(0, 16)];
    St want        = St::Unknown;
    if (why == SUCCESS || why == STOP_AT_ACCEPTABLE_POINT) want = St::Optimal;
    if (why == MAXITER_EXCEEDED) want = St::MaxIterations;
    if (why == CPUTIME_EXCEEDED) want = St::MaxTime;
    if (why == LOCAL_INFEASIBILITY) want = St::PrimalInfeasible;
    if (why == DIVERGING_ITERATES) want = St::DualInfeasible;
    Vec fx = vec(p.n, 1), fl = vec(p.n, 1), fu = vec(p.n, 1), gg = vec(p.m, 1), la = vec(p.m, 1);
    const int it     = int(g.i(0, 5000));
    const double obj = g.n();
    // data of the simulated run
    SmartPtr<IpoptData> dat = new IpoptData();
    dat->Set_iter_count(it);
    sut([&] { t->finalize_solution(why, p.n, fx.data(), fl.data(), fu.data(), p.m, gg.data(), la.data(), obj, GetRawPtr(dat), nullptr); });
    auto & s = t->sol();
    if (s.status != want) fail("wrong-verdict", "%s: solver return %d reported as %s", w.c_str(), int(why), sname(s.status));
    if (!same(s.x, fx) || !same(s.zl, fl) || !same(s.zu, fu) || !same(s.lambda, la) || s.objective != obj || int(s.iter) != it) fail("interface", "%s: returned solution is not the one the solver gave", w.c_str());
    probe("driven");
    logv(uint64_t(why)); logd(obj);
    state(hcomb(uint64_t(why) + 1000, hcomb(uint64_t(p.kind), uint64_t(p.n * 16 + p.m * 2 + use_h))));
  }

  void run()
  {
    size_t opi = 0;
    for (auto & op : plan.ops) {
      ++opi;
      if (op.k == "fill") heap_fill(uint64_t(op.i("f")));
      else if (op.k == "solve") do_solve(op, opi);
      else if (op.k == "drive" && ms.count(int(op.i("p")))) {
        auto & p = ms[int(op.i("p"))];
        if (op.i("ty")) drive_t<Hess>(p, op, opi, op.i("exact")); else drive_t<Fwd>(p, op, opi, false);
      }
    }
  }
};

struct IpDomain : Domain
{
  Plan generate(const std::string &, uint64_t seed, bool thorough) override
  {
    Rng g(seed);
    Plan pl;
    pl.ops.push_back(Op("fill").set("f", double(g.i(1, 1000))));
    const int np = int(g.i(1, 2));
    for (int i = 0; i < np; ++i)
      pl.ops.push_back(Op("prob").set("id", i).set("kind", double(g.i(0, K_N - 1))).set("n", double(g.i(1, thorough ? 7 : 5))).set("m", double(g.i(0, thorough ? 5 : 3))).set("vs", double(g.seed32() & 0xfffff)));
    const int no = int(g.i(1, 4));
    for (int k = 0; k < no; ++k) {
      const bool drv = g.p(0.4);
      Op o(drv ? "drive" : "solve");
      o.set("p", double(g.i(0, np - 1))).set("ty", g.p(0.7)).set("exact", g.p(0.7)).set("vs", double(g.seed32() & 0xffff));
      if (drv) {
        o.set("steps", double(g.i(3, 40))).set("rv", g.p(0.5));
        if (g.p(0.4)) o.set("cb", double(g.i(0, 7))).set("fk", double(g.i(0, 6)));
      } else {
        o.set("ws", double(g.pick<int>({0, 0, 1, 1, 2, 3}))).set("wseed", double(g.seed32() & 0xffff));
        if (g.p(0.15)) o.set("lm", 0);
        if (g.p(0.1)) o.set("mu", 1);
        if (g.p(0.1)) o.set("ls", 1);
        if (g.p(0.05)) o.set("junk", 1);
        if (g.p(0.2)) o.set("tol", g.pick<double>({1e-6, 1e-7}));
        if (g.p(0.25)) o.set("mi", double(g.i(0, 12)));
        if (g.p(0.25)) { o.set("cpu", g.pick<double>({0.001, 0.1, 1, 1e5})); }
        if (g.p(0.3)) { o.set("st", g.u()).set("sn", g.logu(1e5, 1e11)); }
        if (g.p(0.5)) { o.set("cb", double(g.i(0, 7))).set("fk", g.u()).set("fm", double(g.i(0, 4))).set("fp", g.p(0.5)); if (g.p(0.2)) o.set("fk", 0); }
        else if (g.p(0.25)) o.set("af", g.u());
      }
      pl.ops.push_back(o);
    }
    return pl;
  }
  void execute(Plan & plan) override
  {
    clock_reset(1000000000ll, 1700000000ll * 1000000000ll, 1);
    Exec ex(plan);
    run_tasks({[&] { ex.run(); }});
  }
};

namespace sim {
Domain & domain()
{
  static IpDomain d;
  return d;
}
}  // namespace sim
