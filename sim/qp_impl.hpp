#pragma once
#include "qp_iface.hpp"
#include "rt.hpp"
#include <new>
#include <optional>

namespace qp {
using namespace smooth::feedback;

template<class P>
struct Impl : IType
{
  using AT = decltype(P::A);
  static constexpr bool kSparse = std::is_base_of_v<Eigen::SparseMatrixBase<AT>, AT>;
  using Sol = detail::qp_solution_t<P>;
  using Solver = QPSolver<P>;
  std::string nm;
  explicit Impl(std::string s) : nm(std::move(s)) {}

  struct Pbm : IPbm { P p; };
  struct SolH : ISol { Sol s; };
  static const P & P_(const IPbm & p) { return static_cast<const Pbm &>(p).p; }
  static SolView view(const Sol & s)
  {
    SolView v;
    v.code = int(s.code);
    v.iter = s.iter;
    v.x    = s.primal;
    v.y    = s.dual;
    v.obj  = s.objective;
    return v;
  }

  struct S : ISolver
  {
    alignas(64) unsigned char buf[sizeof(Solver)];
    Solver * s{nullptr};
    ~S() override { if (s) { auto * t = s; s = nullptr; t->~Solver(); } }
    void put(Solver * t) { s = t; }
    void ctor(const QPSolverParams & prm) override { destroy(); s = new (buf) Solver(prm); }
    void ctor(const IPbm & p, const QPSolverParams & prm) override { destroy(); s = new (buf) Solver(P_(p), prm); }
    void analyze(const IPbm & p) override { s->analyze(P_(p)); }
    void solve(const IPbm & p, const ISol * ws) override
    {
      if (ws) s->solve(P_(p), static_cast<const SolH *>(ws)->s); else s->solve(P_(p));
    }
    void solve_self(const IPbm & p) override { s->solve(P_(p), s->sol()); }
    void copy_ctor(const ISolver & o) override { destroy(); s = new (buf) Solver(*static_cast<const S &>(o).s); }
    void move_ctor(ISolver & o) override { destroy(); s = new (buf) Solver(std::move(*static_cast<S &>(o).s)); }
    void copy_assign(const ISolver & o) override { *s = *static_cast<const S &>(o).s; }
    void move_assign(ISolver & o) override { *s = std::move(*static_cast<S &>(o).s); }
    void destroy() override { if (s) { auto * t = s; s = nullptr; t->~Solver(); } }
    bool alive() const override { return s != nullptr; }
    SolView sol() const override { return view(s->sol()); }
  };

  const char * name() const override { return nm.c_str(); }
  int fixed_n() const override { return int(AT::ColsAtCompileTime); }
  int fixed_m() const override { return int(AT::RowsAtCompileTime); }
  bool sparse() const override { return kSparse; }

  std::unique_ptr<IPbm> pbm(const Prob & p, int rep, uint64_t seed) const override
  {
    auto r = std::make_unique<Pbm>();
    sim::Rng g(seed);
    const int low = rep & 3;
    if constexpr (kSparse) {
      r->p.P.resize(p.n, p.n);
      r->p.A.resize(p.m, p.n);
      if (rep & REP_UNCOMPRESSED) {
        r->p.P.reserve(Eigen::VectorXi::Constant(p.n, p.n + 1));
        r->p.A.reserve(Eigen::VectorXi::Constant(p.m, p.n + 1));
      }
      for (int j = 0; j < p.n; ++j)
        for (int i = 0; i < p.n; ++i) {
          if (!p.Pm(i, j)) continue;
          if (i > j && low == REP_UPPER) continue;
          double v = p.P(i, j);
          if (i > j && low == REP_GARBAGE_LOWER) v = g.u(-5, 5);
          r->p.P.insert(i, j) = v;
        }
      for (int i = 0; i < p.m; ++i)
        for (int j = 0; j < p.n; ++j)
          if (p.Am(i, j)) r->p.A.insert(i, j) = p.A(i, j);
      if (!(rep & REP_UNCOMPRESSED)) {
        r->p.P.makeCompressed();
        r->p.A.makeCompressed();
      }
    } else {
      r->p.P = p.P;
      for (int j = 0; j < p.n; ++j)
        for (int i = j + 1; i < p.n; ++i) {
          if (low == REP_UPPER) r->p.P(i, j) = 0;
          if (low == REP_GARBAGE_LOWER) r->p.P(i, j) = g.u(-5, 5);
        }
      r->p.A = p.A;
    }
    r->p.q = p.q;
    r->p.l = p.l;
    r->p.u = p.u;
    return r;
  }
  std::unique_ptr<ISol> sol(const SolView & v) const override
  {
    auto r       = std::make_unique<SolH>();
    r->s.code    = QPSolutionStatus(v.code);
    r->s.iter    = v.iter;
    r->s.primal  = v.x;
    r->s.dual    = v.y;
    r->s.objective = v.obj;
    return r;
  }
  std::unique_ptr<ISolver> solver() const override { return std::make_unique<S>(); }
  void oneshot(const IPbm & p, const QPSolverParams & prm, const ISol * ws, SolView & out) const override
  {
    if (ws) {
      auto s = solve_qp(P_(p), prm, static_cast<const SolH *>(ws)->s);
      out    = view(s);
    } else {
      auto s = solve_qp(P_(p), prm);
      out    = view(s);
    }
  }
};
}  // namespace qp
