// Model-predictive control domain (C12, C13).
#include "mpc_iface.hpp"
using namespace sim;

struct MpcDomain : Domain
{
  Plan generate(const std::string & prop, uint64_t seed, bool thorough) override
  {
    Rng g(seed);
    Plan pl;
    const bool copies = prop == "C13";
    const int nt      = g.p(copies ? 0.5 : 0.1) ? 2 : 1;
    const bool faulty = g.p(0.6);
    pl.ops.push_back(Op("cfg").set("T", double(g.i(0, 2))).set("ep", double(g.i(0, 5))));
    pl.ops.push_back(Op("fill").set("f", double(g.i(1, 1000))));
    if (nt > 1) pl.ops.push_back(Op("sched").set("seed", double(g.seed32())).set("mean", g.logu(300, 100000)));
    auto v16 = [&] { return double(g.seed32() & 0xffff); };
    auto mk  = [&](int k, int o) {
      Op n("new");
      n.set("k", k).set("o", o).set("vs", v16()).set("nl", g.pick<double>({0, 0.4, 0.9})).set("cold", g.p(0.2)).set("big", g.p(0.2));
      if (faulty && g.p(0.3)) n.set("mt", 1);
      if (faulty && g.p(0.1)) n.set("mi", double(g.i(1, 40)));
      return n;
    };
    auto gen = [&](int k, int no, bool pre) {
      const double r = g.u();
      Op o(r < 0.62 ? "call" : r < 0.72 ? "xdes" : r < 0.79 ? "udes" : r < 0.86 ? "weights" : r < 0.89 ? "resetw" : (copies || r < 0.94) ? "copy" : "call");
      o.set("k", k).set("o", double(g.i(0, no - 1))).set("vs", v16());
      if (pre) o.set("pre", 1);
      if (o.k == "call") {
        // sampling with jitter, repeated, late and backward calls
        const double q = g.u();
        o.set("dt", q < 0.5 ? 0.02 * g.u(0.5, 1.5) : q < 0.65 ? 0 : q < 0.85 ? g.u(0.1, 3) : q < 0.95 ? -g.u(0.01, 2) : g.u(10, 1000));
        o.set("xs", g.pick<double>({0, 0.05, 0.2, 0.2, 0.5}));
        if (g.p(0.3)) o.set("noout", 1);
        if (g.p(0.35)) o.set("fresh", 1);
        if (faulty) {
          if (g.p(0.15)) o.set("fail", double(g.i(0, 120)));
          if (g.p(0.2)) o.set("stall", g.logu(100, 300000)).set("sns", g.u(0.5, 10));
          if (g.p(0.08)) o.set("xs", 2);
        }
      } else if (o.k == "xdes" || o.k == "udes")
        o.set("how", double(g.i(0, 1)));
      else if (o.k == "weights") {
        if (faulty && g.p(0.2)) o.set("fail", double(g.i(0, 30)));
      } else if (o.k == "copy")
        o.set("to", double(g.i(0, no))).set("how", double(g.p(0.7) ? g.i(0, 1) : g.i(0, 3))).set("drop", g.p(0.1));
      return o;
    };
    if (copies) {
      pl.ops.push_back(mk(0, 0).set("pre", 1));
      const int n = int(g.i(0, 4));
      for (int q = 0; q < n; ++q) pl.ops.push_back(gen(0, 1, true));
      for (int k = 0; k < nt; ++k) for (int o = 0; o < 2; ++o) if (k || o) pl.ops.push_back(Op("copy").set("k", 0).set("o", 0).set("pre", 1).set("tk", k).set("to", o).set("how", double(g.i(0, 1))));
    }
    for (int k = 0; k < nt; ++k) {
      const int no = copies ? 2 : int(g.i(1, 2)), n = int(g.i(3, thorough ? 24 : 10));
      if (!copies) for (int o = 0; o < no; ++o) pl.ops.push_back(mk(k, o));
      for (int q = 0; q < n; ++q) pl.ops.push_back(gen(k, no, false));
    }
    return pl;
  }
  void execute(Plan & plan) override
  {
    clock_reset(1000000000ll, 1700000000ll * 1000000000ll, 1);
    int nt = 1, T = 0;
    SchedCfg cfg;
    for (auto & o : plan.ops) {
      nt = std::max(nt, int(o.i("k")) + 1);
      if (o.k == "cfg") T = int(o.i("T"));
      if (o.k == "sched") { cfg.seed = uint64_t(o.i("seed")); cfg.mean = o.d("mean", 200); cfg.use_explicit = o.i("explicit"); }
      if (o.k == "switch") cfg.explicit_.emplace_back(uint64_t(o.d("at")), int(o.i("to")));
    }
    auto r = T == 0 ? make_mpc_a() : T == 1 ? make_mpc_b() : make_mpc_c();
    run_tasks({[&] { r->run(plan, 0, true); }});
    std::vector<std::function<void()>> bodies;
    for (int t = 0; t < nt; ++t) bodies.push_back([&, t] { r->run(plan, t, false); });
    cfg.preempt = nt > 1;
    auto so = run_tasks(bodies, cfg);
    if (nt > 1) { probe("interleavings"); logv(so.hash); }
  }
};

namespace sim {
Domain & domain()
{
  static MpcDomain d;
  return d;
}
}  // namespace sim
