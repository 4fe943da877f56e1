// Extended Kalman filter domain (C10, C11).
#include "ekf_iface.hpp"
using namespace sim;

struct EkfDomain : Domain
{
  Plan generate(const std::string & prop, uint64_t seed, bool thorough) override
  {
    Rng g(seed);
    Plan pl;
    const bool faulty = prop == "C11";
    const int nt = g.p(0.2) ? 2 : 1;
    pl.ops.push_back(Op("cfg").set("G", double(g.i(0, 2))).set("rk4", g.p(0.35)));
    pl.ops.push_back(Op("fill").set("f", double(g.i(1, 1000))));
    if (nt > 1) pl.ops.push_back(Op("sched").set("seed", double(g.seed32())).set("mean", g.logu(50, 3000)));
    for (int k = 0; k < nt; ++k) {
      const int no = int(g.i(1, 2));
      for (int o = 0; o < no; ++o) pl.ops.push_back(Op("new").set("k", k).set("o", o));
      const int n = int(g.i(3, thorough ? 40 : 16));
      // sensor stream: irregular periods, lost and reordered measurements, stalls
      for (int q = 0; q < n; ++q) {
        const double r = g.u();
        Op o(r < 0.45 ? "predict" : r < 0.85 ? "update" : r < 0.93 ? "reset" : "copy");
        o.set("k", k).set("o", double(g.i(0, no - 1))).set("vs", double(g.seed32() & 0xffff));
        if (o.k == "predict") {
          double tau = g.p(0.1) ? 0 : g.p(0.15) ? g.u(0.5, 1.5) : g.logu(1e-4, 0.5);
          if (g.p(0.12)) tau = -0.3 * tau;
          o.set("tau", tau).set("nl", g.pick<double>({0, 0.3, 0.3, 0.8}));
          if (g.p(0.5)) {
            const double e = g.u();
            double dt = e < 0.25 ? std::fabs(tau) / double(g.i(1, 6)) : e < 0.5 ? std::fabs(tau) * g.u(1, 3) : std::max(std::fabs(tau) * g.u(0.04, 1), 1e-6);
            if (dt <= 0) dt = 0.1;
            o.set("dt", dt);
          }
          if (g.p(0.3)) o.set("junk", 1);
          if (faulty && g.p(0.3)) o.set("fail", double(g.i(0, 30)));
        } else if (o.k == "update") {
          o.set("m", double(g.i(0, 3))).set("nl", g.pick<double>({0, 0.3, 0.8})).set("ys", g.pick<double>({0.01, 0.2, 1}));
          if (g.p(0.3)) o.set("junk", 1);
          if (g.p(0.05)) o.set("deg", 1);
          if (faulty && g.p(0.5)) o.set("fail", double(g.i(0, 9)));
          else if (faulty && g.p(0.2)) o.set("oom", double(g.i(1, 3)));
        } else if (o.k == "reset") {
          o.set("sing", double(g.p(0.75) ? 0 : g.i(1, 3)));
        } else
          o.set("to", double(g.i(0, no))).set("how", double(g.i(0, 1)));
        pl.ops.push_back(o);
        if (faulty && o.k == "predict" && o.has("fail") && g.p(0.7)) pl.ops.push_back(Op("reset").set("k", k).set("o", double(o.i("o"))).set("vs", double(g.seed32() & 0xffff)));
      }
    }
    return pl;
  }
  void execute(Plan & plan) override
  {
    clock_reset(1000000000ll, 1700000000ll * 1000000000ll, 1);
    int nt = 1, G = 0;
    bool rk4 = false;
    SchedCfg cfg;
    for (auto & o : plan.ops) {
      nt = std::max(nt, int(o.i("k")) + 1);
      if (o.k == "cfg") { G = int(o.i("G")); rk4 = o.i("rk4"); }
      if (o.k == "sched") { cfg.seed = uint64_t(o.i("seed")); cfg.mean = o.d("mean", 200); cfg.use_explicit = o.i("explicit"); }
      if (o.k == "switch") cfg.explicit_.emplace_back(uint64_t(o.d("at")), int(o.i("to")));
    }
    std::vector<std::function<void()>> bodies;
    for (int t = 0; t < nt; ++t) bodies.push_back([&, t] { (G == 0 ? make_ekf_r2(rk4) : G == 1 ? make_ekf_se2(rk4) : make_ekf_so3(rk4))->run(plan, t); });
    cfg.preempt = nt > 1;
    auto so = run_tasks(bodies, cfg);
    if (nt > 1) { probe("interleavings"); logv(so.hash); }
  }
};

namespace sim {
Domain & domain()
{
  static EkfDomain d;
  return d;
}
}  // namespace sim
