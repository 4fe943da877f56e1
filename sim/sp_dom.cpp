// Sparse assembly domain (C08): histories of assembly operations against dense arithmetic, with failing sources,
// interleaved tasks and seeded memory contents.
#include "rt.hpp"
#include "smooth/feedback/utils/sparse.hpp"

#include <Eigen/Dense>
#include <variant>

using namespace sim;
namespace fb = smooth::feedback;

using Mat  = Eigen::MatrixXd;
using RMat = Eigen::Matrix<double, -1, -1, Eigen::RowMajor>;
using Col  = Eigen::SparseMatrix<double>;
using Row  = Eigen::SparseMatrix<double, Eigen::RowMajor>;
using Msk  = Eigen::Array<bool, -1, -1>;

struct SourceError : std::runtime_error { using runtime_error::runtime_error; };

// dense source computed on the fly whose k-th evaluation fails
struct Failing
{
  const Mat * v;
  int * left;
  double operator()(Eigen::Index i, Eigen::Index j) const
  {
    if (*left >= 0 && (*left)-- == 0) throw SourceError("source failed");
    return (*v)(i, j);
  }
};

struct Dest
{
  int ord{0};  // 0 column major, 1 row major
  Col c;
  Row r;
  Mat v;    // model values
  Msk old;  // entries that may be stored
  Msk must; // entries that must be stored (assembled non-zero or stored before)
  bool alive{false};
  Eigen::Index rows() const { return v.rows(); }
  Eigen::Index cols() const { return v.cols(); }
  template<class F> void on(F && f) { if (ord) f(r); else f(c); }
};

template<class S> static void stored(const S & m, Msk & out, Mat & val)
{
  out.setConstant(m.rows(), m.cols(), false);
  val.setZero(m.rows(), m.cols());
  for (int k = 0; k < m.outerSize(); ++k)
    for (typename S::InnerIterator it(m, k); it; ++it) {
      if (it.row() < 0 || it.col() < 0 || it.row() >= m.rows() || it.col() >= m.cols()) fail("corrupt-structure", "entry (%d,%d) stored in a %dx%d matrix", int(it.row()), int(it.col()), int(m.rows()), int(m.cols()));
      if (out(it.row(), it.col())) fail("corrupt-structure", "entry (%d,%d) stored twice", int(it.row()), int(it.col()));
      out(it.row(), it.col()) = true;
      val(it.row(), it.col()) = it.value();
    }
}

static Mat rnd(Rng & g, int r, int c, double dens)
{
  Mat m = Mat::Zero(r, c);
  for (int i = 0; i < r; ++i)
    for (int j = 0; j < c; ++j)
      if (g.p(dens)) m(i, j) = g.p(0.1) ? 0. : std::round(8 * g.n()) / 4;
  return m;
}
static Msk rmask(Rng & g, const Mat & v, double extra)
{
  Msk m = (v.array() != 0);
  for (int i = 0; i < v.rows(); ++i)
    for (int j = 0; j < v.cols(); ++j)
      if (g.p(extra)) m(i, j) = true;
  return m;
}
template<class S> static S sp(const Mat & v, const Msk & m, int form)
{
  // form 0 compressed, 1 uncompressed with slack, 2 inserted in arbitrary order then left as is
  S s(v.rows(), v.cols());
  if (form == 1) s.reserve(Eigen::VectorXi::Constant(s.outerSize(), int(s.innerSize()) + 1));
  for (int i = 0; i < v.rows(); ++i)
    for (int j = 0; j < v.cols(); ++j)
      if (m(i, j)) s.insert(i, j) = v(i, j);
  if (form == 0) s.makeCompressed();
  return s;
}

enum { SRC_DENSE, SRC_DENSE_ROW, SRC_COL, SRC_ROW, SRC_COL_UNC, SRC_SPBLOCK, SRC_SPTRANS, SRC_EXPR, SRC_MAP, SRC_FAIL, SRC_N };
static const char * kSrc[] = {"dense", "dense row-major", "sparse", "sparse row-major", "sparse uncompressed", "block of sparse", "transposed sparse", "sparse sum", "dense block", "failing"};

struct Exec
{
  Plan & plan;
  std::vector<uint64_t> * res{nullptr};
  explicit Exec(Plan & p) : plan(p) {}

  static void verify(Dest & d, const char * w)
  {
    Msk st;
    Mat v;
    d.on([&](auto & m) { stored(m, st, v); });
    for (int i = 0; i < d.rows(); ++i)
      for (int j = 0; j < d.cols(); ++j) {
        const double a = v(i, j), b = d.v(i, j);
        if (!(std::fabs(a - b) <= 1e-11 * (1 + std::fabs(b)))) fail("wrong-value", "%s: entry (%d,%d) is %.12g, dense arithmetic gives %.12g", w, i, j, a, b);
        if (st(i, j) && !d.old(i, j)) fail("wrong-pattern", "%s: entry (%d,%d) became stored although no operation touched it", w, i, j);
        if (!st(i, j) && d.must(i, j)) fail("lost-entry", "%s: entry (%d,%d) is no longer stored", w, i, j);
      }
    d.must = d.must || st;
    // counts and marks
    uint64_t n = 0, exp = 0;
    Mat marks, em = Mat::Zero(d.rows(), d.cols());
    d.on([&](auto & m) { sut([&] { n = fb::count_explicit_zeros(m); marks = fb::mark_explicit_zeros(m); }); });
    for (int i = 0; i < d.rows(); ++i)
      for (int j = 0; j < d.cols(); ++j)
        if (st(i, j)) { em(i, j) = v(i, j) == 0 ? 9 : 1; exp += v(i, j) == 0; }
    if (n != exp) fail("wrong-count", "%s: %llu explicit zeros counted, %llu stored", w, (unsigned long long)n, (unsigned long long)exp);
    if (marks.rows() != em.rows() || marks.cols() != em.cols() || (em.size() && marks != em)) fail("wrong-marks", "%s: marks of stored entries are wrong", w);
    if (exp) probe("explicit_zeros_present");
  }

  // region touched
  static bool upper_ok(bool up, Eigen::Index i, Eigen::Index j) { return !up || i <= j; }

  template<class F> static SutResult call(F && f) { return sut([&] { f(); }); }

  void do_block(Dest & d, const Op & op, size_t opi, bool write)
  {
    const int R = int(d.rows()), Cc = int(d.cols());
    if (!R || !Cc) return;
    const int r0 = int(op.i("r0")) % R, c0 = int(op.i("c0")) % Cc;
    const int h = 1 + int(op.i("h")) % (R - r0), w = 1 + int(op.i("w")) % (Cc - c0);
    const int src = int(op.i("src")) % SRC_N;
    const bool up = op.i("up"), defsc = op.i("defsc");
    const double sc = defsc ? 1 : op.d("sc", 1);
    Rng g(uint64_t(op.i("vs")) * 31 + 7);
    Mat v   = rnd(g, h, w, op.d("dens", 0.6));
    Msk m   = rmask(g, v, 0.2);
    auto wh = fmt("op %zu: block_%s(%s %dx%d at (%d,%d), scale %g%s) on %s %dx%d", opi, write ? "write" : "add", kSrc[src], h, w, r0, c0, sc, up ? ", upper only" : "", d.ord ? "row-major" : "column-major", R, Cc);
    int left = -1;
    SutResult r;
    Msk touched = Msk::Constant(h, w, true);
    auto go = [&](auto & M, const auto & s) {
      if (write) {
        if (up) r = call([&] { fb::block_write(M, r0, c0, s, sc, true); });
        else if (defsc) r = call([&] { fb::block_write(M, r0, c0, s); });
        else r = call([&] { fb::block_write(M, r0, c0, s, sc); });
      } else {
        if (up) r = call([&] { fb::block_add(M, r0, c0, s, sc, true); });
        else if (defsc) r = call([&] { fb::block_add(M, r0, c0, s); });
        else r = call([&] { fb::block_add(M, r0, c0, s, sc); });
      }
    };
    d.on([&](auto & M) {
      switch (src) {
        case SRC_DENSE: { Mat s = v; go(M, s); break; }
        case SRC_DENSE_ROW: { RMat s = v; go(M, s); break; }
        case SRC_COL: { auto s = sp<Col>(v, m, 0); touched = m; go(M, s); break; }
        case SRC_ROW: { auto s = sp<Row>(v, m, 0); touched = m; go(M, s); break; }
        case SRC_COL_UNC: { auto s = sp<Col>(v, m, 1 + int(op.i("form")) % 2); touched = m; go(M, s); break; }
        case SRC_SPBLOCK: {
          Mat big = Mat::Constant(h, w + 3, 77.);
          Msk bm  = Msk::Constant(h, w + 3, true);
          const int off = int(op.i("form")) % 4;
          big.middleCols(off, w) = v;
          bm.middleCols(off, w)  = m;
          auto s = sp<Col>(big, bm, 0);
          touched = m;
          go(M, s.middleCols(off, w));
          break;
        }
        case SRC_SPTRANS: { auto s = sp<Col>(Mat(v.transpose()), Msk(m.transpose()), 0); touched = m; go(M, s.transpose()); break; }
        case SRC_EXPR: { auto s = sp<Col>(Mat(0.5 * v), m, 0); auto s2 = sp<Col>(Mat(0.5 * v), m, 0); touched = m; Col sum = s + s2; go(M, sum); break; }
        case SRC_MAP: { Mat big = Mat::Constant(h + 2, w + 2, 55.); big.block(1, 2, h, w) = v; go(M, big.block(1, 2, h, w)); break; }
        case SRC_FAIL: {
          left = op.has("k") ? int(op.i("k")) % (h * w + 1) : -1;
          go(M, Mat::NullaryExpr(h, w, Failing{&v, &left}));
          break;
        }
      }
    });
    const bool sparse_src = src == SRC_COL || src == SRC_ROW || src == SRC_COL_UNC || src == SRC_SPBLOCK || src == SRC_SPTRANS || src == SRC_EXPR;
    if (!r.ok) {
      if (src != SRC_FAIL || left != -1 || r.ex.find("source failed") == std::string::npos) fail("unexpected-exception", "%s: %s", wh.c_str(), r.ex.c_str());
      // any subset of the block may have been assembled; nothing else may have changed
      fault("source_failure");
      Msk st;
      Mat cur;
      d.on([&](auto & M) { stored(M, st, cur); });
      for (int i = 0; i < h; ++i)
        for (int j = 0; j < w; ++j) {
          if (!upper_ok(up, r0 + i, c0 + j)) continue;
          const double o = d.v(r0 + i, c0 + j), nv = write ? sc * v(i, j) : o + sc * v(i, j), cv = cur(r0 + i, c0 + j);
          // an entry whose turn it was may have been inserted (as 0 when it did not exist)
          if (std::fabs(cv - o) > 1e-11 * (1 + std::fabs(o)) && std::fabs(cv - nv) > 1e-11 * (1 + std::fabs(nv))) fail("torn-entry", "%s (source failed): entry (%d,%d) is %g, neither old %g nor new %g", wh.c_str(), r0 + i, c0 + j, cv, o, nv);
          d.v(r0 + i, c0 + j)   = cv;
          d.old(r0 + i, c0 + j) = true;
        }
      verify(d, wh.c_str());
      if (write) {  // the caller repeats the write
        left = -1;
        d.on([&](auto & M) { go(M, v); });
        if (!r.ok) fail("not-reusable", "%s: repeated write fails", wh.c_str());
        probe("write_repeated_after_failure");
      } else
        return;
    }
    for (int i = 0; i < h; ++i)
      for (int j = 0; j < w; ++j) {
        if (!upper_ok(up, r0 + i, c0 + j)) continue;
        if (sparse_src && !touched(i, j)) continue;
        auto & x = d.v(r0 + i, c0 + j);
        x        = write ? sc * v(i, j) : x + sc * v(i, j);
        d.old(r0 + i, c0 + j) = true;
      }
    if (up) probe("upper_only");
    probe(fmt("source_%d", src));
    verify(d, wh.c_str());
  }

  void do_ident(Dest & d, const Op & op, size_t opi, bool write)
  {
    const int R = int(d.rows()), Cc = int(d.cols());
    if (!R || !Cc) return;
    const int r0 = int(op.i("r0")) % R, c0 = int(op.i("c0")) % Cc;
    const int n = int(op.i("n")) % (std::min(R - r0, Cc - c0) + 1);
    const bool def = op.i("defsc");
    const double sc = def ? 1 : op.d("sc", 1);
    SutResult r;
    d.on([&](auto & M) {
      r = call([&] {
        if (write) { if (def) fb::block_write_identity(M, r0, c0, n); else fb::block_write_identity(M, r0, c0, n, sc); }
        else { if (def) fb::block_add_identity(M, r0, c0, n); else fb::block_add_identity(M, r0, c0, n, sc); }
      });
    });
    auto wh = fmt("op %zu: identity %s n=%d at (%d,%d) scale %g", opi, write ? "write" : "add", n, r0, c0, sc);
    if (!r.ok) fail("unexpected-exception", "%s: %s", wh.c_str(), r.ex.c_str());
    for (int k = 0; k < n; ++k) {
      auto & x = d.v(r0 + k, c0 + k);
      x        = write ? sc : x + sc;
      d.old(r0 + k, c0 + k) = true;
    }
    verify(d, wh.c_str());
  }

  void do_zero(Dest & d, const Op & op, size_t opi)
  {
    const int outer = d.ord ? int(d.rows()) : int(d.cols());
    int a = 0, n = outer;
    const bool blk = op.i("blk") && outer;
    if (blk) { a = int(op.i("a")) % outer; n = int(op.i("n")) % (outer - a + 1); }
    Msk before, after;
    Mat tmp;
    const double * ptr0 = nullptr, *ptr1 = nullptr;
    d.on([&](auto & M) { stored(M, before, tmp); ptr0 = M.valuePtr(); });
    SutResult r;
    if (!blk) d.on([&](auto & M) { r = call([&] { fb::set_zero(M); }); });
    else if (d.ord) r = call([&] { fb::set_zero(d.r.middleRows(a, n)); });
    else r = call([&] { fb::set_zero(d.c.middleCols(a, n)); });
    bool comp = false;
    d.on([&](auto & M) { stored(M, after, tmp); ptr1 = M.valuePtr(); comp = M.isCompressed(); });
    auto wh = fmt("op %zu: set_zero(%s %d..%d of %s %s)", opi, blk ? "block" : "whole", a, a + n, comp ? "compressed" : "uncompressed", d.ord ? "row-major" : "column-major");
    if (!r.ok) fail("unexpected-exception", "%s: %s", wh.c_str(), r.ex.c_str());
    if (before.size() && (before != after).any()) fail("pattern-changed", "%s: changed the sparsity pattern", wh.c_str());
    if (ptr0 != ptr1) fail("reallocated", "%s: storage was reallocated", wh.c_str());
    if (d.ord) d.v.middleRows(a, n).setZero(); else d.v.middleCols(a, n).setZero();
    probe(blk ? "zero_block" : comp ? "zero_compressed" : "zero_uncompressed");
    verify(d, wh.c_str());
  }

  void do_fog(Dest & d, const Op & op, size_t opi)
  {
    if (d.ord) return;
    const int no = 1 + int(op.i("no")) % 3, ny = 1 + int(op.i("ny")) % 3, nx = 1 + int(op.i("nx")) % 3;
    if (d.rows() < nx || d.cols() < no * nx) return;
    const int r0 = int(op.i("r0")) % (int(d.rows()) - nx + 1), c0 = int(op.i("c0")) % (int(d.cols()) - no * nx + 1);
    Rng g(uint64_t(op.i("vs")) * 97 + 3);
    const double dens = op.d("dens", 0.6);
    Mat Jf = rnd(g, no, ny, dens), Hf = rnd(g, ny, no * ny, dens), Jg = rnd(g, ny, nx, dens), Hg = rnd(g, nx, ny * nx, dens);
    Col hf = sp<Col>(Hf, rmask(g, Hf, 0.1), 0), jg = sp<Col>(Jg, rmask(g, Jg, 0.1), 0), hg = sp<Col>(Hg, rmask(g, Hg, 0.1), 0);
    SutResult r;
    const int var = int(op.i("var")) % 3;
    if (var == 0) { Col jf = sp<Col>(Jf, rmask(g, Jf, 0.1), 0); r = call([&] { fb::d2r_fog(d.c, jf, hf, jg, hg, r0, c0); }); }
    else if (var == 1) { Row jf = sp<Row>(Jf, rmask(g, Jf, 0.1), 0); r = call([&] { fb::d2r_fog(d.c, jf, hf, jg, hg, r0, c0); }); }
    else r = call([&] { fb::d2r_fog(d.c, Jf, Hf, Jg, Hg, r0, c0); });
    auto wh = fmt("op %zu: composed Hessian No=%d Ny=%d Nx=%d at (%d,%d)", opi, no, ny, nx, r0, c0);
    if (!r.ok) fail("unexpected-exception", "%s: %s", wh.c_str(), r.ex.c_str());
    for (int k = 0; k < no; ++k) {
      Mat H = Jg.transpose() * Hf.middleCols(k * ny, ny) * Jg;
      for (int i = 0; i < ny; ++i) H += Jf(k, i) * Hg.middleCols(i * nx, nx);
      d.v.block(r0, c0 + k * nx, nx, nx) += H;
      d.old.block(r0, c0 + k * nx, nx, nx).setConstant(true);
    }
    probe("composed_hessian");
    verify(d, wh.c_str());
  }

  void run(int tid)
  {
    std::map<int, Dest> ds;
    size_t opi = 0;
    for (auto & op : plan.ops) {
      ++opi;
      if (op.k == "fill") { if (tid == 0) heap_fill(uint64_t(op.i("f"))); continue; }
      if (op.k == "sched" || op.k == "switch" || int(op.i("t")) != tid) continue;
      const int id = int(op.i("d"));
      if (op.k == "new") {
        Dest & d = ds[id];
        const int r = int(op.i("r")), c = int(op.i("c")), mode = r && c ? int(op.i("mode")) : 0;  // Eigen cannot reserve in or compress an empty matrix
        Rng g(uint64_t(op.i("vs")) * 13 + 5);
        d.ord  = int(op.i("ord"));
        d.v    = mode == 0 || mode == 2 ? Mat(Mat::Zero(r, c)) : rnd(g, r, c, 0.4);
        Msk m  = mode == 0 || mode == 2 ? Msk(Msk::Constant(r, c, false)) : rmask(g, d.v, 0.15);
        const int per = 1 + int(op.i("per")) % 4;
        auto mk = [&](auto & M) {
          M = sp<std::decay_t<decltype(M)>>(d.v, m, mode == 4 ? 1 : 0);
          if (mode == 2 || mode == 3) M.reserve(Eigen::VectorXi::Constant(M.outerSize(), per));
        };
        d.on(mk);
        d.old   = m;
        d.must  = m;
        d.alive = true;
        verify(d, "new");
        continue;
      }
      if (!ds.count(id) || !ds[id].alive) continue;
      Dest & d = ds[id];
      if (op.k == "add" || op.k == "write") do_block(d, op, opi, op.k == "write");
      else if (op.k == "addid" || op.k == "writeid") do_ident(d, op, opi, op.k == "writeid");
      else if (op.k == "zero") do_zero(d, op, opi);
      else if (op.k == "fog") do_fog(d, op, opi);
      else if (op.k == "compress" && d.v.size()) { d.on([](auto & M) { M.makeCompressed(); }); verify(d, "compress"); }
      else if (op.k == "reserve" && d.v.size()) { d.on([&](auto & M) { M.reserve(Eigen::VectorXi::Constant(M.outerSize(), 1 + int(op.i("per")) % 4)); }); verify(d, "reserve"); }
      else if (op.k == "copy") { Dest & e = ds[int(op.i("to"))]; e = d; verify(e, "copy"); }
      logv(opi);
      for (Eigen::Index k = 0; k < d.v.size(); ++k) logd(d.v.data()[k]);
      bool comp = false;
      d.on([&](auto & M) { comp = M.isCompressed(); });
      state(hcomb(hcomb(hash_str(op.k), uint64_t(op.i("src")) * 4 + uint64_t(d.ord) * 2 + comp), hcomb(uint64_t(d.rows() * 16 + d.cols()), uint64_t(d.must.count()))));
    }
  }
};

SchedOut g_last_sched();
struct SpDomain : Domain
{
  Plan generate(const std::string &, uint64_t seed, bool thorough) override
  {
    Rng g(seed);
    Plan pl;
    const int T = g.p(0.2) ? 2 : 1;
    pl.ops.push_back(Op("fill").set("f", double(g.i(1, 1000))));
    if (T > 1) pl.ops.push_back(Op("sched").set("seed", double(g.seed32())).set("mean", g.logu(20, 1000)));
    for (int t = 0; t < T; ++t) {
      const int nd = int(g.i(1, 2));
      for (int d = 0; d < nd; ++d)
        pl.ops.push_back(Op("new").set("t", t).set("d", d).set("r", double(g.p(0.03) ? 0 : g.i(1, 9))).set("c", double(g.i(1, 9))).set("ord", g.p(0.5)).set("mode", double(g.i(0, 4))).set("per", double(g.i(0, 3))).set("vs", double(g.seed32() & 0xffff)));
      const int n = int(g.i(2, thorough ? 24 : 14));
      for (int k = 0; k < n; ++k) {
        const double r = g.u();
        Op o(r < 0.3 ? "add" : r < 0.5 ? "write" : r < 0.58 ? "addid" : r < 0.66 ? "writeid" : r < 0.78 ? "zero" : r < 0.86 ? "fog" : r < 0.92 ? "compress" : r < 0.96 ? "reserve" : "copy");
        o.set("t", t).set("d", double(g.i(0, nd - 1))).set("r0", double(g.i(0, 8))).set("c0", double(g.i(0, 8)));
        if (o.k == "add" || o.k == "write") {
          o.set("h", double(g.i(0, 8))).set("w", double(g.i(0, 8))).set("src", double(g.i(0, SRC_N - 1))).set("vs", double(g.seed32() & 0xffff)).set("dens", g.pick<double>({0.3, 0.7, 1.0})).set("form", double(g.i(0, 3)));
          if (g.p(0.3)) o.set("up", 1);
          if (g.p(0.4)) o.set("defsc", 1); else o.set("sc", g.pick<double>({1, -1, 0.5, 2, 0, -3, 0.25}));
          if (o.i("src") == SRC_FAIL && g.p(0.85)) o.set("k", double(g.i(0, 80)));
        } else if (o.k == "addid" || o.k == "writeid") {
          o.set("n", double(g.i(0, 9)));
          if (g.p(0.4)) o.set("defsc", 1); else o.set("sc", g.pick<double>({1, -1, 0.5, 2, 0}));
        } else if (o.k == "zero") {
          if (g.p(0.45)) o.set("blk", 1).set("a", double(g.i(0, 8))).set("n", double(g.i(0, 8)));
        } else if (o.k == "fog") {
          o.set("no", double(g.i(0, 2))).set("ny", double(g.i(0, 2))).set("nx", double(g.i(0, 2))).set("vs", double(g.seed32() & 0xffff)).set("dens", g.pick<double>({0.4, 0.7, 1.0})).set("var", double(g.i(0, 2)));
        } else if (o.k == "reserve") {
          o.set("per", double(g.i(0, 3)));
        } else if (o.k == "copy") {
          o.set("to", double(g.i(0, 2)));
        }
        pl.ops.push_back(o);
      }
    }
    return pl;
  }
  void execute(Plan & plan) override
  {
    clock_reset(1000000000ll, 1700000000ll * 1000000000ll, 1);
    int nt = 1;
    SchedCfg cfg;
    for (auto & o : plan.ops) {
      nt = std::max(nt, int(o.i("t")) + 1);
      if (o.k == "sched") { cfg.seed = uint64_t(o.i("seed")); cfg.mean = o.d("mean", 200); cfg.use_explicit = o.i("explicit"); }
      if (o.k == "switch") cfg.explicit_.emplace_back(uint64_t(o.d("at")), int(o.i("to")));
    }
    Exec ex(plan);
    std::vector<std::function<void()>> bodies;
    for (int t = 0; t < nt; ++t) bodies.push_back([&, t] { ex.run(t); });
    cfg.preempt = nt > 1;
    auto so = run_tasks(bodies, cfg);
    if (nt > 1) { probe("interleavings"); logv(so.hash); }
  }
};

namespace sim {
Domain & domain()
{
  static SpDomain d;
  return d;
}
}  // namespace sim
