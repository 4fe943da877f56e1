// Mesh refinement histories (C15).
#include "mesh_iface.hpp"
#include "smooth/feedback/collocation/mesh.hpp"
#include <Eigen/Dense>
using namespace sim;
namespace fb = smooth::feedback;

namespace {
struct Ival { size_t K; double a; };
using Model = std::vector<Ival>;

template<class M>
struct Hist final : MeshRunner
{
  static constexpr size_t Kmin = M::Kmin, Kmax = M::Kmax;

  // what the mesh says about itself
  static Model read(const M & m, const std::string & wh)
  {
    Model r;
    const size_t n = m.N_ivals();
    if (n == 0 || n > 200000) fail("invalid-mesh", "%s: %zu intervals", wh.c_str(), n);
    for (size_t i = 0; i < n; ++i) {
      const size_t K = m.N_colloc_ival(i);
      if (K < Kmin || K > Kmax + 1) fail("degree-range", "%s: interval %zu of %zu has degree %zu outside [%zu, %zu]", wh.c_str(), i, n, K, Kmin, Kmax + 1);
      r.push_back({K, *m.interval_nodes(i).begin()});
    }
    return r;
  }

  static double end(const Model & v, size_t i) { return i + 1 < v.size() ? v[i + 1].a : 1.; }

  // the mesh is valid
  static Model valid(const M & m, const std::string & wh, bool deep)
  {
    Model v = read(m, wh);
    if (v[0].a != 0) fail("invalid-mesh", "%s: first interval starts at %g", wh.c_str(), v[0].a);
    size_t N = 0;
    for (size_t i = 0; i < v.size(); ++i) {
      const double a = v[i].a, b = end(v, i);
      if (!(a < b)) fail("not-increasing", "%s: interval %zu of %zu is [%.17g, %.17g]", wh.c_str(), i, v.size(), a, b);
      N += v[i].K;
    }
    if (m.N_colloc() != N) fail("wrong-count", "%s: N_colloc() is %zu, degrees sum to %zu", wh.c_str(), m.N_colloc(), N);
    if (!deep) return v;
    for (size_t i = 0; i < v.size(); ++i) {
      const double a = v[i].a, b = end(v, i), w = b - a;
      const size_t K = v[i].K;
      std::vector<double> ns, ws;
      for (double x : m.interval_nodes(i)) ns.push_back(x);
      for (double x : m.interval_weights(i)) ws.push_back(x);
      if (ns.size() != K + 1 || ws.size() != K + 1) fail("wrong-count", "%s: interval %zu of degree %zu has %zu nodes, %zu weights", wh.c_str(), i, K, ns.size(), ws.size());
      double sum = 0;
      for (size_t j = 0; j <= K; ++j) {
        if (ns[j] < a - 1e-12 * w || ns[j] > b + 1e-12 * w) fail("node-outside", "%s: node %zu of interval %zu is %.17g outside [%.17g, %.17g]", wh.c_str(), j, i, ns[j], a, b);
        if (j && !(ns[j - 1] < ns[j])) fail("not-increasing", "%s: nodes %zu, %zu of interval %zu: %.17g, %.17g", wh.c_str(), j - 1, j, i, ns[j - 1], ns[j]);
        if (ws[j] < 0) fail("negative-weight", "%s: interval %zu", wh.c_str(), i);
        sum += ws[j];
      }
      if (std::fabs(ns[0] - a) > 1e-12 * w || std::fabs(ns[K] - b) > 1e-12 * w) fail("node-outside", "%s: end nodes of interval %zu are %.17g, %.17g for [%.17g, %.17g]", wh.c_str(), i, ns[0], ns[K], a, b);
      if (ws[K] != 0) fail("wrong-weight", "%s: weight of the extra node is %g", wh.c_str(), ws[K]);
      if (std::fabs(sum - w) > 1e-11 * w) fail("wrong-weight", "%s: weights of interval %zu sum to %.15g, length is %.15g", wh.c_str(), i, sum, w);
      // quadrature and differentiation in local coordinates are exact
      double q = 0;
      const int p = int(std::min<size_t>(2 * K - 2, 6));
      for (size_t j = 0; j <= K; ++j) q += ws[j] * std::pow((ns[j] - a) / w, p);
      if (std::fabs(q - w / (p + 1)) > 1e-10 * w) fail("wrong-weight", "%s: interval %zu of degree %zu integrates t^%d to %.15g instead of %.15g", wh.c_str(), i, K, p, q / w, 1. / (p + 1));
      if (i < 12) {
        const Eigen::MatrixXd D = m.interval_diffmat(i), I = m.interval_intmat(i);
        const auto [al, Du]     = m.interval_diffmat_unscaled(i);
        if (D.rows() != Eigen::Index(K + 1) || D.cols() != Eigen::Index(K) || Du.rows() != D.rows() || Du.cols() != D.cols()) fail("wrong-count", "%s: differentiation matrix of interval %zu is %dx%d", wh.c_str(), i, int(D.rows()), int(D.cols()));
        if (!((D - al * Du).cwiseAbs().maxCoeff() <= 1e-9 * (1 + D.cwiseAbs().maxCoeff()))) fail("inconsistent", "%s: scaled and unscaled differentiation matrices of interval %zu differ", wh.c_str(), i);
        for (int d = 0; d <= int(K); d += std::max(1, int(K) / 2)) {
          Eigen::RowVectorXd x(K + 1), dx(K);
          for (size_t j = 0; j <= K; ++j) {
            const double s = (ns[j] - a) / w;
            x(j)           = std::pow(s, d);
            if (j < K) dx(j) = d ? d * std::pow(s, d - 1) : 0;
          }
          const double e = ((x * D) * w - dx).cwiseAbs().maxCoeff();
          if (!(e < 1e-6)) fail("wrong-derivative", "%s: differentiation matrix of interval %zu (degree %zu) is off by %g for t^%d", wh.c_str(), i, K, e, d);
          const double e2 = (x.tail(K) - Eigen::RowVectorXd::Constant(K, x(0)) - (dx / w) * I).cwiseAbs().maxCoeff();
          if (!(e2 < 1e-6)) fail("wrong-integral", "%s: integration matrix of interval %zu (degree %zu) is off by %g for t^%d", wh.c_str(), i, K, e2, d);
        }
      }
    }
    size_t n = 0;
    double last = -1, sw = 0;
    for (double x : m.all_nodes()) {
      if (n == 0 && x != 0) fail("invalid-mesh", "%s: first node %g", wh.c_str(), x);
      if (!(x > last)) fail("not-increasing", "%s: node %zu of the mesh is %.17g after %.17g", wh.c_str(), n, x, last);
      last = x;
      ++n;
    }
    if (n != N + 1 || std::fabs(last - 1) > 1e-12) fail("wrong-count", "%s: %zu nodes ending at %.15g for %zu points", wh.c_str(), n, last, N);
    n = 0;
    for (double x : m.all_weights()) { sw += x; ++n; }
    if (n != N + 1 || std::fabs(sw - 1) > 1e-9) fail("wrong-weight", "%s: %zu weights summing to %.15g for %zu points", wh.c_str(), n, sw, N);
    return v;
  }

  static bool near(double x, double y, double w) { return std::fabs(x - y) <= 1e-11 * w + 1e-15; }

  static void equal(const Model & got, const Model & exp, const std::string & wh)
  {
    if (got.size() != exp.size()) fail("wrong-refinement", "%s: %zu intervals, expected %zu", wh.c_str(), got.size(), exp.size());
    for (size_t i = 0; i < exp.size(); ++i) {
      if (!near(got[i].a, exp[i].a, end(exp, i) - exp[i].a)) fail("wrong-refinement", "%s: interval %zu starts at %.17g, expected %.17g", wh.c_str(), i, got[i].a, exp[i].a);
      if (got[i].K != exp[i].K) fail("wrong-refinement", "%s: interval %zu has degree %zu, expected %zu", wh.c_str(), i, got[i].K, exp[i].K);
    }
  }

  static Model ph(const Model & v, size_t i, size_t D)
  {
    Model r;
    for (size_t k = 0; k < v.size(); ++k) {
      if (k != i) { r.push_back(v[k]); continue; }
      if (D > Kmax || v[i].K > Kmax) {
        const size_t n = std::max<size_t>(2, (D + Kmin - 1) / Kmin);
        const double a = v[i].a, w = (end(v, i) - a) / double(n);
        for (size_t j = 0; j < n; ++j) r.push_back({Kmin, a + double(j) * w});
      } else
        r.push_back({std::max(D, v[i].K), v[i].a});
    }
    return r;
  }

  // intervals before i and from the end of i on are as before (a failed refinement)
  static void outside_same(const Model & got, const Model & old, size_t i, const std::string & wh)
  {
    const size_t tail = old.size() - i - 1;
    if (got.size() < old.size()) fail("lost-interval", "%s: %zu intervals left of %zu", wh.c_str(), got.size(), old.size());
    for (size_t k = 0; k < i; ++k) if (got[k].K != old[k].K || got[k].a != old[k].a) fail("wrong-refinement", "%s: interval %zu changed", wh.c_str(), k);
    if (got[i].a != old[i].a) fail("wrong-refinement", "%s: interval %zu moved", wh.c_str(), i);
    for (size_t k = 0; k < tail; ++k) {
      const auto &x = got[got.size() - 1 - k], &y = old[old.size() - 1 - k];
      if (x.K != y.K || x.a != y.a) fail("wrong-refinement", "%s: interval after the refined one changed", wh.c_str());
    }
  }

  struct Obj { std::unique_ptr<M> m; Model v; };

  static void lookup(Obj & o, const Op & op, const std::string & wh)
  {
    Rng r(uint64_t(op.i("vs")) * 3 + 1);
    for (int k = 0; k < 8; ++k) {
      double t = 0;
      const size_t i = size_t(r.i(0, int64_t(o.v.size()) - 1));
      switch (int(r.i(0, 8))) {
        case 0: t = 0; break;
        case 1: t = 1; break;
        case 2: t = -r.u(0, 2) - 1e-300; break;
        case 3: t = 1 + r.u(1e-15, 2); break;
        case 4: t = o.v[i].a; break;
        case 5: t = std::nextafter(o.v[i].a, 1); break;
        case 6: t = std::nextafter(end(o.v, i), 0); break;
        case 7: t = o.v[i].a + r.u() * (end(o.v, i) - o.v[i].a); break;
        default: t = r.u();
      }
      size_t f = ~size_t(0);
      auto s = sut([&] { f = o.m->interval_find(t); });
      if (!s.ok) fail("unexpected-exception", "%s: interval_find(%g): %s", wh.c_str(), t, s.ex.c_str());
      if (f >= o.v.size()) fail("wrong-lookup", "%s: interval_find(%.17g) is %zu of %zu", wh.c_str(), t, f, o.v.size());
      const double a = o.v[f].a, b = end(o.v, f);
      const bool ok = t < 0 ? f == 0 : t > 1 ? f + 1 == o.v.size() : a <= t && t <= b;
      if (!ok) fail("wrong-lookup", "%s: interval_find(%.17g) is %zu = [%.17g, %.17g]", wh.c_str(), t, f, a, b);
      logv(f);
      if (t < 0 || t > 1) continue;
      // values of a polynomial of the lowest degree are reproduced everywhere
      const bool ext  = r.p(0.6);
      const int deg   = int(r.i(0, std::max<int64_t>(0, std::min<int64_t>(int64_t(Kmin) - (ext ? 0 : 1), 5))));
      const size_t p  = size_t(r.i(0, 2));
      std::vector<double> c;
      for (int j = 0; j <= deg; ++j) c.push_back(r.n());
      auto poly = [&](double x, size_t d) { double y = 0; for (int j = deg; j >= int(d); --j) { double q = c[size_t(j)]; for (size_t e = 0; e < d; ++e) q *= double(j - int(e)); y = y * x + q; } return y; };
      std::vector<Eigen::Vector2d> vals;
      for (double x : o.m->all_nodes()) vals.push_back({poly(x, 0), 1});
      if (!ext) vals.pop_back();
      Eigen::Vector2d got(0, 0);
      auto e = sut([&] { got = o.m->template eval<Eigen::Vector2d>(t, vals, p, ext); });
      if (!e.ok) fail("unexpected-exception", "%s: eval(%g): %s", wh.c_str(), t, e.ex.c_str());
      const double w  = end(o.v, f) - o.v[f].a;
      const double tl = 1e-9 * std::pow(double(Kmax * Kmax) / w, double(p)) * 30;
      if (tl < 1e-2) {
        if (!(std::fabs(got(0) - poly(t, p)) <= tl) || !(std::fabs(got(1) - (p ? 0 : 1)) <= tl))
          fail("wrong-value", "%s: derivative %zu at %.17g is %.12g, polynomial of degree %d gives %.12g (%zu intervals%s)", wh.c_str(), p, t, got(0), deg, poly(t, p), o.v.size(), ext ? "" : ", no end value");
        probe("polynomial_checked");
      }
    }
  }

  void run(const Plan & plan, int tid) override
  {
    std::map<int, Obj> os;
    size_t opi = 0;
    for (auto & op : plan.ops) {
      ++opi;
      if (op.k == "fill") { if (tid == 0) heap_fill(uint64_t(op.i("f"))); continue; }
      if (op.k == "cfg" || op.k == "sched" || op.k == "switch" || op.i("k") != tid) continue;
      const int id = int(op.i("o"));
      auto wh      = fmt("op %zu: %s", opi, op.k.c_str());
      CallFaults cf;
      cf.fail_alloc = uint64_t(op.i("oom"));
      auto oom = [&](const SutResult & s) {
        if (s.ok) return false;
        if (!(s.bad_alloc && s.alloc_failed)) fail("unexpected-exception", "%s: %s", wh.c_str(), s.ex.c_str());
        fault("alloc_failure");
        return true;
      };
      if (op.k == "new") {
        Obj o;
        const size_t n = size_t(op.i("n")), K = Kmin + size_t(op.i("deg")) % (Kmax + 2 - Kmin);
        const int how = int(op.i("how"));
        auto s = sut([&] { if (how == 0) o.m = std::make_unique<M>(); else if (how == 1) o.m = std::make_unique<M>(n); else o.m = std::make_unique<M>(n, K); }, cf);
        if (oom(s)) continue;
        Model e;
        const size_t nn = how == 0 ? 1 : std::max<size_t>(1, n);
        for (size_t i = 0; i < nn; ++i) e.push_back({how == 2 ? K : Kmin, double(i) / double(nn)});
        o.v = valid(*o.m, wh, true);
        equal(o.v, e, wh);
        os[id] = std::move(o);
      } else {
        if (!os.count(id)) continue;
        Obj & o = os[id];
        const size_t n = o.v.size();
        const size_t i = size_t(op.i("i")) % n;
        double wmin    = 1;
        for (size_t k = 0; k < n; ++k) wmin = std::min(wmin, end(o.v, k) - o.v[k].a);
        const bool room = n < 120 && wmin > 1e-7;
        if (op.k == "ph") {
          if (!room) continue;
          const size_t base[] = {0, Kmin, o.v[i].K, Kmax, Kmax + 1, 2 * Kmin, 3 * Kmin, 2 * Kmax};
          const size_t D      = size_t(std::max<int64_t>(0, int64_t(base[op.i("base") % 8]) + op.i("off")));
          wh += fmt("(%zu, %zu) of %zu intervals, degree %zu", i, D, n, o.v[i].K);
          auto s = sut([&] { o.m->refine_ph(i, D); }, cf, 200000000);
          const bool f = oom(s);
          Model got = valid(*o.m, wh, true);
          if (f) { outside_same(got, o.v, i, wh + " (out of memory)"); probe("refine_out_of_memory"); }
          else { Model e = ph(o.v, i, D); equal(got, e, wh); if (e.size() > n) probe("split"); else probe(e[i].K > o.v[i].K ? "degree_raised" : "nothing_to_do"); if (o.v[i].K > Kmax) probe("split_of_full_degree"); }
          o.v = got;
        } else if (op.k == "errs") {
          if (!room || n > 40) continue;
          Rng r(uint64_t(op.i("vs")) * 5 + 3);
          const double target = op.i("tz") == 1 ? 0. : r.logu(1e-10, 1e-2);
          std::vector<double> e;
          bool deg = target == 0;
          for (size_t k = 0; k < n; ++k) {
            double x = r.p(0.4) ? target * r.u() : (target + 1e-12) * r.logu(1, 1e4);
            if (r.p(op.d("bad"))) { x = r.pick<double>({HUGE_VAL, std::nan(""), 1e308, 0, 1e30}); deg = true; }
            e.push_back(x);
          }
          wh += fmt(" (target %g, %zu intervals%s)", target, n, deg ? ", degenerate errors" : "");
          auto s = sut([&] { o.m->refine_errors(e, target); }, cf, 400000000);
          const bool f = oom(s);
          Model got = valid(*o.m, wh, true);
          if (deg) fault("degenerate_error_estimate");
          // every interval is either as before, of higher degree, or split evenly
          size_t q = 0;
          for (size_t k = 0; k < n; ++k) {
            const double a = o.v[k].a, b = end(o.v, k);
            size_t c = 0;
            if (q >= got.size() || !near(got[q].a, a, b - a)) fail("wrong-refinement", "%s: interval %zu [%g, %g] is gone", wh.c_str(), k, a, b);
            while (q + c < got.size() && got[q + c].a < b - 1e-11 * (b - a)) ++c;
            const bool want = e[k] > target;
            if (!f && !want && !(c == 1 && got[q].K == o.v[k].K)) fail("wrong-refinement", "%s: interval %zu (error %g) was refined into %zu of degree %zu", wh.c_str(), k, e[k], c, got[q].K);
            if (!f && want && c == 1 && !(got[q].K > o.v[k].K && got[q].K <= Kmax)) fail("not-refined", "%s: interval %zu (error %g) has degree %zu, had %zu", wh.c_str(), k, e[k], got[q].K, o.v[k].K);
            if (!f && c > 1)
              for (size_t j = 0; j < c; ++j) {
                if (got[q + j].K != Kmin) fail("wrong-refinement", "%s: part %zu of split interval %zu has degree %zu", wh.c_str(), j, k, got[q + j].K);
                if (!near(got[q + j].a, a + double(j) * (b - a) / double(c), b - a)) fail("wrong-refinement", "%s: interval %zu is not split evenly", wh.c_str(), k);
              }
            q += c;
          }
          if (q != got.size()) fail("wrong-refinement", "%s: extra intervals", wh.c_str());
          o.v = got;
          probe("refine_by_errors");
        } else if (op.k == "setk") {
          const size_t K = Kmin + size_t(op.i("deg")) % (Kmax + 2 - Kmin);
          auto s = sut([&] { o.m->set_N_colloc_ival(i, K); });
          oom(s);
          o.v[i].K = K;
          equal(valid(*o.m, wh, true), o.v, wh);
        } else if (op.k == "inc" || op.k == "dec") {
          const int times = 1 + int(op.i("times"));
          for (int t = 0; t < times; ++t) {
            auto s = sut([&] { if (op.k == "inc") o.m->increase_degrees(); else o.m->decrease_degrees(); });
            oom(s);
            for (auto & x : o.v) x.K = op.k == "inc" ? std::min(x.K + 1, Kmax + 1) : std::max(x.K - 1, Kmin);
          }
          equal(valid(*o.m, wh, true), o.v, wh);
        } else if (op.k == "look") {
          lookup(o, op, wh);
        } else if (op.k == "copy") {
          const int to = int(op.i("to"));
          if (to == id) continue;
          Obj d;
          const bool as = op.i("how") && os.count(to);
          auto s = sut([&] { if (as) *os[to].m = *o.m; else d.m = std::make_unique<M>(*o.m); }, cf);
          if (oom(s)) {
            if (as) equal(valid(*os[to].m, wh, true), os[to].v, wh);
            continue;
          }
          if (as) os[to].v = o.v; else { d.v = o.v; os[to] = std::move(d); }
          equal(valid(*os[to].m, wh, true), o.v, wh);
          probe("copy");
        }
      }
      // no operation changes another mesh
      for (auto & [k, x] : os) equal(read(*x.m, wh), x.v, wh + fmt(" (mesh %d)", k));
      Obj & o = os[id];
      logv(o.v.size());
      for (auto & x : o.v) { logv(x.K); logd(x.a); }
      uint64_t h = hash_str(op.k) ^ (Kmin * 64 + Kmax);
      for (size_t q = 0; q < o.v.size() && q < 6; ++q) h = hcomb(h, o.v[q].K);
      state(hcomb(h, o.v.size()));
    }
  }
};
}  // namespace

std::unique_ptr<MeshRunner> make_mesh_hist(int type)
{
  switch (type) {
    case 0: return std::make_unique<Hist<fb::Mesh<>>>();
    case 1: return std::make_unique<Hist<fb::Mesh<3, 5>>>();
    case 2: return std::make_unique<Hist<fb::Mesh<4, 4>>>();
    case 3: return std::make_unique<Hist<fb::Mesh<1, 4>>>();
    default: return std::make_unique<Hist<fb::Mesh<2, 3>>>();
  }
}
