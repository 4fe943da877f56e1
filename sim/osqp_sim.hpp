// Simulated OSQP: what it was given, what it is told to do, and what its caller did wrong.
#pragma once
#include <osqp/osqp.h>
#include <cstdint>

namespace osqpsim {

struct Script
{
  int setup_fail{0};    // 1: rejected before a workspace exists, 2: linear solver fails, 3: not convex (workspace exists)
  int warm_fail{0};
  int solve_fail{0};    // solve returns an error
  int alloc_fail{0};    // index of the allocation made through OSQP that fails (1-based)
  c_int status{OSQP_SOLVED}, polish{0}, iter{0};
  double obj{0}, stall{0};
  uint64_t vs{0};       // contents of the returned vectors
};
constexpr int CAP = 400;
struct Seen
{
  bool setup{false}, setup_ok{false}, solved{false}, defaults{false};
  c_int n{0}, m{0};
  double P[CAP]{}, A[CAP]{}, q[CAP]{}, l[CAP]{}, u[CAP]{}, x0[CAP]{}, y0[CAP]{};
  bool p_lower{false}, warm{false}, too_big{false};
  int invalid{0};       // reason the data or settings were rejected
  OSQPSettings st{};
  int allocs{0}, live{0}, works{0}, cleanups{0}, setups{0}, solves{0};
  const char * misuse{nullptr};
  const char * fired[8]{};  // faults (reported after the call: statistics allocate)
  int nfired{0};
};
struct Ctx
{
  Script script;
  Seen seen;
  void * live[256]{};
  int nlive{0};
  OSQPWorkspace * work[64]{};
  int nwork{0};
};
Ctx & ctx();  // of the running task
double xval(uint64_t vs, int k);
double yval(uint64_t vs, int k);

}  // namespace osqpsim
