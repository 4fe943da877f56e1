// Collocation domain: mesh histories (C15), work memory over a mesh (C16), conversions of solutions (C19).
#include "mesh_iface.hpp"
using namespace sim;

struct MeshDomain : Domain
{
  Plan generate(const std::string & prop, uint64_t seed, bool thorough) override
  {
    Rng g(seed);
    Plan pl;
    const int nt = g.p(0.2) ? 2 : 1;
    const int p  = prop == "C15" ? 0 : prop == "C16" ? 1 : 2;
    const bool faulty = g.p(0.6);  // the rest runs without faults
    pl.ops.push_back(Op("cfg").set("p", p).set("T", double(g.i(0, p ? 2 : kMeshTypes - 1))));
    pl.ops.push_back(Op("fill").set("f", double(g.i(1, 1000))));
    if (nt > 1) pl.ops.push_back(Op("sched").set("seed", double(g.seed32())).set("mean", g.logu(50, 5000)));
    auto v16 = [&] { return double(g.seed32() & 0xffff); };
    for (int k = 0; k < nt; ++k) {
      auto put = [&](Op o) { pl.ops.push_back(o.set("k", k)); };
      if (p == 0) {
        const int no = int(g.i(1, 2)), n = int(g.i(3, thorough ? 40 : 16));
        for (int o = 0; o < no; ++o) put(Op("new").set("o", o).set("how", double(g.i(0, 2))).set("n", double(g.p(0.3) ? 0 : g.i(0, 6))).set("deg", double(g.i(0, 12))));
        for (int q = 0; q < n; ++q) {
          const double r = g.u();
          Op o(r < 0.34 ? "ph" : r < 0.48 ? "errs" : r < 0.58 ? "setk" : r < 0.68 ? "inc" : r < 0.76 ? "dec" : r < 0.93 ? "look" : "copy");
          o.set("o", double(g.i(0, no - 1))).set("i", double(g.p(0.3) ? 0 : g.i(0, 50))).set("vs", v16());
          if (o.k == "ph") { o.set("base", double(g.i(0, 7))).set("off", double(g.i(-1, 1) + (g.p(0.1) ? g.i(-6, 20) : 0))); }
          else if (o.k == "errs") { o.set("bad", faulty && g.p(0.4) ? 0.3 : 0).set("tz", faulty && g.p(0.1) ? 1 : 0); }
          else if (o.k == "setk") o.set("deg", double(g.i(0, 12)));
          else if (o.k == "inc" || o.k == "dec") o.set("times", double(g.p(0.2) ? g.i(1, 7) : 0));
          else if (o.k == "copy") o.set("to", double(g.i(0, no))).set("how", double(g.i(0, 1)));
          if (faulty && (o.k == "ph" || o.k == "errs" || o.k == "copy") && g.p(0.15)) o.set("oom", double(g.i(1, 4)));
          put(o);
        }
      } else if (p == 1) {
        const int n = int(g.i(3, thorough ? 24 : 10));
        const uint64_t ms[2] = {g.seed32() & 0xff, g.seed32() & 0xff};
        const int mode = int(g.i(0, 4));  // 0, 1: functions, 2, 3: nonlinear programs, 4: quadratic programs
        const bool nl = mode == 2 || mode == 3, qp = mode == 4;
        const int no  = int(g.i(1, 2));
        const int fix = int(g.i(0, 2)), kfix = int(g.i(0, 3));
        if (nl) for (int o = 0; o < no; ++o) put(Op("nnew").set("o", o).set("fs", v16()).set("ms", double(ms[0])).set("dens", g.pick<double>({0.25, 0.6, 1})));
        if (qp) for (int o = 0; o < no; ++o) put(Op("qnew").set("o", o).set("fs", v16()).set("ms", double(ms[0])).set("dens", g.pick<double>({0.25, 0.6, 1})));
        for (int q = 0; q < n; ++q) {
          Op o(qp ? (g.p(0.12) ? "qnew" : "qupd") : nl ? (g.p(0.08) ? "ncopy" : g.p(0.05) ? "nnew" : "ncall") : "fun");
          o.set("o", double(g.i(0, no - 1))).set("vs", v16());
          if (g.p(0.1)) o.set("lz", 1);
          if (o.k == "fun") {
            o.set("D", double(g.p(0.7) ? fix : g.i(0, 2))).set("kind", double(g.p(0.6) ? kfix : g.i(0, 3))).set("ms", double(ms[g.p(0.2)])).set("fs", v16()).set("dens", g.pick<double>({0.2, 0.6, 1})).set("zm", g.p(0.3)).set("vec", g.p(0.3)).set("comp", double(g.i(0, 3))).set("smash", g.p(0.3)).set("realloc", g.p(0.08)).set("sc", g.pick<double>({0, 1, 1, 5}));
          } else if (o.k == "ncall") {
            o.set("what", double(g.i(0, 5))).set("sc", g.pick<double>({0, 1, 1, 3}));
          } else if (o.k == "qupd") {
            o.set("sc", g.pick<double>({0, 1, 1, 3})).set("comp", double(g.i(0, 3))).set("failx", g.p(0.3));
          } else if (o.k == "qnew") {
            o.set("fs", v16()).set("ms", double(ms[g.p(0.5)])).set("dens", g.pick<double>({0.25, 0.6, 1})).set("over", g.p(0.5));
          } else if (o.k == "ncopy")
            o.set("to", double(g.i(0, no))).set("how", double(g.i(0, 2)));
          else
            o.set("fs", v16()).set("ms", double(ms[1])).set("dens", g.pick<double>({0.25, 0.6, 1}));
          if (faulty && g.p(0.35)) o.set("fail", double(g.p(0.5) ? g.i(0, 4) : g.i(0, 60))).set("giveup", g.p(0.5));
          put(o);
        }
      } else {
        const int n = int(g.i(2, thorough ? 20 : 8)), no = int(g.i(1, 2));
        for (int o = 0; o < no; ++o) put(Op("snew").set("o", o).set("vs", v16()).set("fs", v16()).set("ms", double(g.seed32() & 0xff)).set("smooth", g.p(0.4)));
        for (int q = 0; q < n; ++q) {
          const double r = g.u();
          Op o(r < 0.38 ? "sback" : r < 0.56 ? "serr" : r < 0.74 ? "scopy" : r < 0.88 ? "snew" : "qsol");
          o.set("o", double(g.i(0, no - 1))).set("vs", v16()).set("fs", v16()).set("ms", double(g.seed32() & 0xff)).set("smooth", g.p(0.4));
          if (o.k == "sback") o.set("ref", g.p(0.5)).set("onward", g.p(0.5));
          if (o.k == "qsol") o.set("how", g.p(0.5));
          if (o.k == "scopy") o.set("to", double(g.i(0, no))).set("how", double(g.i(0, 1))).set("drop", g.p(0.3));
          if (o.k == "serr" && faulty && g.p(0.4)) o.set("fail", double(g.i(0, 20)));
          put(o);
        }
      }
    }
    return pl;
  }
  void execute(Plan & plan) override
  {
    clock_reset(1000000000ll, 1700000000ll * 1000000000ll, 1);
    int nt = 1, p = 0, T = 0;
    SchedCfg cfg;
    for (auto & o : plan.ops) {
      nt = std::max(nt, int(o.i("k")) + 1);
      if (o.k == "cfg") { p = int(o.i("p")); T = int(o.i("T")); }
      if (o.k == "sched") { cfg.seed = uint64_t(o.i("seed")); cfg.mean = o.d("mean", 200); cfg.use_explicit = o.i("explicit"); }
      if (o.k == "switch") cfg.explicit_.emplace_back(uint64_t(o.d("at")), int(o.i("to")));
    }
    std::vector<std::function<void()>> bodies;
    for (int t = 0; t < nt; ++t) bodies.push_back([&, t] { (p == 0 ? make_mesh_hist(T) : T == 0 ? make_mesh_fun_a() : T == 1 ? make_mesh_fun_b() : make_mesh_fun_c())->run(plan, t); });
    cfg.preempt = nt > 1;
    auto so = run_tasks(bodies, cfg);
    if (nt > 1) { probe("interleavings"); logv(so.hash); }
  }
};

namespace sim {
Domain & domain()
{
  static MeshDomain d;
  return d;
}
}  // namespace sim
