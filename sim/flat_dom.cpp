// Flattened optimal control problems (C21) and the derivative checker (C22).
#include "flat_iface.hpp"
using namespace sim;

struct FlatDomain : Domain
{
  Plan generate(const std::string & prop, uint64_t seed, bool thorough) override
  {
    Rng g(seed);
    Plan pl;
    const bool der = prop == "C22";
    const int nt = !der && g.p(0.2) ? 2 : 1;
    const bool faulty = g.p(0.6);
    pl.ops.push_back(Op("cfg").set("T", double(g.i(0, 3))));
    pl.ops.push_back(Op("fill").set("f", double(g.i(1, 1000))));
    if (nt > 1) pl.ops.push_back(Op("sched").set("seed", double(g.seed32())).set("mean", g.logu(50, 20000)));
    auto v16 = [&] { return double(g.seed32() & 0xffff); };
    for (int k = 0; k < nt; ++k) {
      auto put = [&](Op o) { pl.ops.push_back(o.set("k", k)); };
      auto mk  = [&](int o) { put(Op("new").set("o", o).set("fs", v16()).set("ms", double(g.seed32() & 0xff)).set("dens", g.pick<double>({0.2, 0.5, 0.9})).set("life", faulty ? double(g.i(0, 2)) : 0)); };
      if (der) {
        const int n = int(g.i(1, thorough ? 4 : 2));
        for (int q = 0; q < n; ++q) {
          Op o("tder");
          o.set("fs", v16()).set("dens", g.pick<double>({0.2, 0.5, 0.9})).set("var", double(g.p(0.6) ? 0 : g.i(1, 2))).set("rs", double(g.i(1, 100000))).set("n", double(g.p(0.05) ? 0 : g.i(1, 2)));
          if (g.p(0.3)) o.set("eps", g.pick<double>({1e-3, 1e-2}));
          if (faulty) {
            if (g.p(0.8)) o.set("fn", double(g.i(0, 4))).set("order", double(g.i(1, 2))).set("kind", double(g.p(0.7) ? 0 : g.i(1, 2))).set("r", double(g.i(0, 40))).set("c", double(g.i(0, 200))).set("by", g.pick<double>({0.5, -0.5, 2}));
            if (g.p(0.3)) o.set("dev", double(g.i(1, 2)));
            if (g.p(0.1)) o.set("fail", double(g.i(0, 400)));
          }
          put(o);
        }
        continue;
      }
      const int no = int(g.i(1, 2)), n = int(g.i(3, thorough ? 16 : 8));
      const bool grid = g.p(0.5);  // points that agree in time, state or input with earlier ones, few functions
      const int gfn[2] = {int(g.i(0, 4)), int(g.p(0.5) ? 1 : g.i(0, 4))};
      for (int o = 0; o < no; ++o) mk(o);
      for (int q = 0; q < n; ++q) {
        const double r = g.u();
        const int ob = int(g.i(0, no - 1));
        if (r < 0.72) {
          Op o("eval");
          const int what = int(g.p(0.3) ? 0 : g.i(1, 4));
          o.set("o", ob).set("fn", double(g.p(0.4) ? 1 : g.i(0, 4))).set("what", what).set("vs", double(g.p(0.2) ? 5 : v16())).set("sc", g.pick<double>({0, 0.1, 1, 1})).set("fresh", g.p(0.4)).set("c", g.p(0.3));
          if (grid) o.set("fn", gfn[g.i(0, 1)]).set("sc", 1).set("gt", double(g.p(0.2))).set("ge", double(g.p(0.3))).set("gv", double(g.p(0.5)));
          if (faulty && g.p(0.3)) o.set("fail", double(g.i(0, 9))).set("retry", g.p(0.7));
          put(o);
        } else if (r < 0.84)
          put(Op("copy").set("o", ob).set("to", double(g.i(0, no))).set("how", double(g.i(0, 3))));
        else if (r < 0.88)
          put(Op("drop").set("o", double(g.i(0, no))));
        else if (r < 0.94)
          mk(int(g.i(0, no)));
        else {
          Op o("unflat");
          o.set("vs", v16()).set("ms", double(g.seed32() & 0xff)).set("how", double(g.i(0, 1))).set("drop", g.p(0.5));
          if (faulty && g.p(0.3)) o.set("fail", double(g.i(0, 1)));
          put(o);
        }
      }
    }
    return pl;
  }
  void execute(Plan & plan) override
  {
    clock_reset(1000000000ll, 1700000000ll * 1000000000ll, 1);
    int nt = 1, T = 0;
    SchedCfg cfg;
    for (auto & o : plan.ops) {
      nt = std::max(nt, int(o.i("k")) + 1);
      if (o.k == "cfg") T = int(o.i("T"));
      if (o.k == "sched") { cfg.seed = uint64_t(o.i("seed")); cfg.mean = o.d("mean", 200); cfg.use_explicit = o.i("explicit"); }
      if (o.k == "switch") cfg.explicit_.emplace_back(uint64_t(o.d("at")), int(o.i("to")));
    }
    std::vector<std::function<void()>> bodies;
    for (int t = 0; t < nt; ++t) bodies.push_back([&, t] { (T == 0 ? make_flat_a() : T == 1 ? make_flat_b() : T == 2 ? make_flat_c() : make_flat_d())->run(plan, t); });
    cfg.preempt = nt > 1;
    auto so = run_tasks(bodies, cfg);
    if (nt > 1) { probe("interleavings"); logv(so.hash); }
  }
};

namespace sim {
Domain & domain()
{
  static FlatDomain d;
  return d;
}
}  // namespace sim
