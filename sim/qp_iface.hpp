// Type-erased access to the real QPSolver instantiations.
#pragma once
#include <Eigen/Dense>
#include <memory>
#include <string>
#include <smooth/feedback/qp.hpp>
#include <smooth/feedback/qp_solver.hpp>

namespace qp {
using Vec = Eigen::VectorXd;
using Mat = Eigen::MatrixXd;
using smooth::feedback::QPSolutionStatus;
using smooth::feedback::QPSolverParams;

struct Prob
{
  int n{0}, m{0}, kind{0};
  Mat P;     // full symmetric
  Vec q;
  Mat A;
  Vec l, u;
  Eigen::Matrix<bool, -1, -1> Pm, Am;  // stored sparsity pattern (superset of the nonzeros)
  bool detect{false};
  bool feasible{true}, bounded{true};
  bool has_opt{false};
  bool nice{true};      // well scaled: liveness is demanded
  bool corrupt{false};  // contains NaN
  Vec xs, ys;
  double fs{0};
  uint64_t pattern_hash{0};
};

struct SolView
{
  int code{6};
  uint32_t iter{0};
  Vec x, y;
  double obj{0};
};

struct IPbm { virtual ~IPbm() = default; };
struct ISol { virtual ~ISol() = default; };

struct ISolver
{
  virtual ~ISolver() = default;
  // these call the real code
  virtual void ctor(const QPSolverParams & prm) = 0;
  virtual void ctor(const IPbm & p, const QPSolverParams & prm) = 0;
  virtual void analyze(const IPbm & p) = 0;
  virtual void solve(const IPbm & p, const ISol * ws) = 0;
  virtual void solve_self(const IPbm & p) = 0;  // warm start from own sol()
  virtual void copy_ctor(const ISolver & o) = 0;
  virtual void move_ctor(ISolver & o) = 0;
  virtual void copy_assign(const ISolver & o) = 0;
  virtual void move_assign(ISolver & o) = 0;
  virtual void destroy() = 0;
  virtual bool alive() const = 0;
  // harness side
  virtual SolView sol() const = 0;
};

// what the upper-triangular / storage form of the problem looks like
enum Rep { REP_FULL = 0, REP_UPPER = 1, REP_GARBAGE_LOWER = 2, REP_UNCOMPRESSED = 4 };

struct IType
{
  virtual ~IType() = default;
  virtual const char * name() const = 0;
  virtual int fixed_n() const = 0;  // -1: dynamic
  virtual int fixed_m() const = 0;
  virtual bool sparse() const = 0;
  virtual std::unique_ptr<IPbm> pbm(const Prob & p, int rep, uint64_t seed) const = 0;
  virtual std::unique_ptr<ISol> sol(const SolView & v) const = 0;
  virtual std::unique_ptr<ISolver> solver() const = 0;
  // one-shot API; writes to a typed solution owned by the returned object (real code runs inside)
  virtual void oneshot(const IPbm & p, const QPSolverParams & prm, const ISol * ws, SolView & out) const = 0;
};
const IType & type(int k);
constexpr int kTypes = 5;
const IType & type_dense();
const IType & type_sparse();
const IType & type_static();
const IType & type_partial();
const IType & type_static2();
}  // namespace qp
