// Record files.
#include "vm.h"
#include "../common/qio.h"
#ifdef QDP_USE_LIBXML2
#include "qdp_qdpio.h"
#include <memory>
namespace QDP { int io_node(int node); int io_node_multifile(int node); int master_io_node(void); }
namespace {
std::map<int, std::unique_ptr<QDPFileWriter>> ws;
std::map<int, std::unique_ptr<QDPFileReader>> rs;
void str(const std::string& s) { sim_string(s.data(), (long)s.size()); }
void meta(XMLBufferWriter& x, const char* root, const Op& o, size_t i) { push(x, root); write(x, "n", (int)o.s.at(i).size()); write(x, "s", o.s.at(i)); pop(x); }
std::string metaof(XMLReader& x, const char* root) { int n = -1; std::string s, r = std::string("/") + root; read(x, r + "/n", n); read(x, r + "/s", s); return std::to_string(n) + ":" + s; }
template <class F> bool field(int k, F f) {
  switch (k) {
    case sim::K_I: f((LatticeInteger*)0); return true; case sim::K_R: f((LatticeReal*)0); return true; case sim::K_D: f((LatticeRealD*)0); return true;
    case sim::K_C: f((LatticeComplex*)0); return true; case sim::K_V: f((LatticeColorVector*)0); return true; case sim::K_M: f((LatticeColorMatrix*)0); return true;
    case sim::K_F: f((LatticeFermion*)0); return true;
  }
  return false;
}
template <class F> bool scal(int k, F f) {
  switch (k) {
    case sim::K_I: f(Integer()); return true; case sim::K_R: f(Real()); return true; case sim::K_D: f(RealD()); return true;
    case sim::K_C: f(Complex()); return true; case sim::K_V: f(ColorVector()); return true; case sim::K_M: f(ColorMatrix()); return true;
  }
  return false;
}
template <class T> void fills(T& x, long pat, int i) { typedef Words<typename std::decay<decltype(x.elem())>::type> W; auto* p = W::p(x.elem()); for (int j = 0; j < W::n(); ++j) p[j] = simqio::scalval(pat, i, j); }
bool lost = false;
multi1d<int> corner(const Op& o, size_t i) { multi1d<int> c(4); for (int m = 0; m < 4; ++m) c[m] = (int)o.arg(i + m); return c; }
}
// a program that was told of a failed write does not go on to use the file: it may look, clear and close
bool qio_gives_up(const Op& o) { return lost && o.name != "qio.wbad" && o.name != "qio.wclear" && o.name != "qio.wclose" && o.name != "qio.wdel"; }
bool run_qio(VM& vm, const Op& o) {
  const std::string& n = o.name;
  if (n.compare(0, 5, "disk.") == 0) return true;
  if (n.compare(0, 4, "qio.")) return false;
  int h = (int)o.arg(0), sl = (int)o.arg(1);
  if (n == "qio.grid") { Layout::setIONodeGrid(corner(o, 0)); return true; }
  if (n == "qio.ionode") {          // every node's I/O node: the origin of its block of the machine
    std::string r = "ok"; multi1d<int> sz = Layout::logicalSize(), blk(4); bool one = true; for (int m = 0; m < 4; ++m) { int g = (int)o.arg(m); blk[m] = g > 0 ? (sz[m] + g - 1) / g : 1; if (g != 1) one = false; }
    for (int k = 0; k < Layout::numNodes(); ++k) {
      int want = k;
      if (Layout::numNodes() > 1 && o.arg(0)) { if (one) want = 0; else { multi1d<int> c = Layout::getLogicalCoordFrom(k); for (int m = 0; m < 4; ++m) c[m] = c[m] / blk[m] * blk[m]; want = Layout::getNodeNumberFrom(c); } }
      if (io_node(k) != want) r = "I/O node of node " + std::to_string(k) + " is " + std::to_string(io_node(k)) + ", expected " + std::to_string(want);
      if (io_node_multifile(k) != k) r = "multifile";
    }
    if (master_io_node() != 0) r = "master";
    str(r); return true;
  }
  if (n == "qio.w") {               // handle, format, parallel, mode, form | path, metadata[, name of the data]
    XMLBufferWriter x; meta(x, "file", o, 1); std::string pre;
    QDP_volfmt_t f = o.arg(1) == simqio::SINGLE ? QDPIO_SINGLEFILE : o.arg(1) == simqio::MULTI ? QDPIO_MULTIFILE : QDPIO_PARTFILE;
    QDP_serialparallel_t s = o.arg(2) ? QDPIO_PARALLEL : QDPIO_SERIAL;
    QDP_filemode_t m = o.arg(3) == simqio::CREATE ? QDPIO_CREATE : o.arg(3) == simqio::TRUNC ? QDPIO_OPEN : QDPIO_APPEND;
    std::unique_ptr<QDPFileWriter>& w = ws[h];
    if (o.arg(4) == 0) w.reset(new QDPFileWriter(x, o.s.at(0), f, s, m));
    else if (o.arg(4) == 1) { w.reset(new QDPFileWriter); pre = w->bad() ? "bad, " : "good, "; w->open(x, o.s.at(0), f, s, m, o.s.at(2)); }
    else if (o.arg(4) == 2 && m == QDPIO_OPEN) { w.reset(new QDPFileWriter(x, o.s.at(0), f, s)); }
    else w.reset(new QDPFileWriter(x, o.s.at(0), f, s, m, o.s.at(2)));
    str(pre + (w->bad() ? "bad" : "good") + (w->is_open() ? " open" : " closed")); return true;
  }
  if (n == "qio.r") {               // handle, parallel, form | path
    XMLReader x; std::string pre; QDP_serialparallel_t s = o.arg(1) ? QDPIO_PARALLEL : QDPIO_SERIAL; std::unique_ptr<QDPFileReader>& r = rs[h];
    if (o.arg(2)) { r.reset(new QDPFileReader); pre = r->bad() ? "bad, " : "good, "; r->open(x, o.s.at(0), s); } else r.reset(new QDPFileReader(x, o.s.at(0), s));
    str(pre + metaof(x, "file") + (r->bad() ? " bad" : " good") + (r->is_open() ? " open" : " closed")); return true;
  }
  if (n == "qio.wclose") { if (o.arg(1)) close(*ws.at(h)); else ws.at(h)->close(); str(ws.at(h)->is_open() ? "open" : "closed"); return true; }
  if (n == "qio.wdel") { ws.erase(h); str("gone"); return true; }
  if (n == "qio.rclose") { if (o.arg(1) > 0) close(*rs.at(h)); else if (o.arg(1) == 0) rs.at(h)->close(); str(is_open(*rs.at(h)) ? "open" : "closed"); if (o.arg(2)) rs.erase(h); return true; }
  if (n[4] == 'w') {
    QDPFileWriter& w = *ws.at(h); XMLBufferWriter x; if (!o.s.empty()) meta(x, "rec", o, 0);
    if (n == "qio.wfield") field(vm.kind(sl), [&](auto* z) { typedef typename std::remove_pointer<decltype(z)>::type T; T& f = vm.f<T>(sl); if (o.arg(2)) w.write(x, f); else write(w, x, f); });
    else if (n == "qio.whyper") field(vm.kind(sl), [&](auto* z) { typedef typename std::remove_pointer<decltype(z)>::type T; T& f = vm.f<T>(sl); write(w, x, f, corner(o, 2), corner(o, 6)); });
    else if (n == "qio.wfieldn" || n == "qio.whypern") field(vm.kind(sl), [&](auto* z) {
      typedef typename std::remove_pointer<decltype(z)>::type T; bool hy = n == "qio.whypern"; int k = (int)o.arg(hy ? 10 : 2); multi1d<T> a(k); for (int i = 0; i < k; ++i) a[i] = vm.f<T>(sl + i);
      if (hy) write(w, x, a, corner(o, 2), corner(o, 6)); else write(w, x, a); });
    else if (n == "qio.wscal") scal(sl, [&](auto z) { typedef decltype(z) T; int k = (int)o.arg(2); if (k < 0) { T v; fills(v, o.arg(3), 0); write(w, x, v); } else { multi1d<T> a(k); for (int i = 0; i < k; ++i) fills(a[i], o.arg(3), i); write(w, x, a); } });
    else if (n == "qio.wbuf") { BinaryBufferWriter b; writeDesc(b, o.s.at(1)); if (o.arg(2)) write(w, x, b); else w.write(x, b); }
    else if (n == "qio.wbad") {}
    else if (n == "qio.wclear") w.clear();
    else return false;
    str(w.bad() ? "bad" : "good"); if (w.bad() && (o.name != "qio.wbad" && o.name != "qio.wclear")) lost = true; return true;
  }
  QDPFileReader& r = *rs.at(h); XMLReader x; std::string pre;
  if (n == "qio.rinfo") r.read(x);
  else if (n == "qio.rfield") field(vm.kind(sl), [&](auto* z) { typedef typename std::remove_pointer<decltype(z)>::type T; T& f = vm.f<T>(sl); if (o.arg(2)) r.read(x, f); else read(r, x, f); vm.report(sl); });
  else if (n == "qio.rfieldn") field(vm.kind(sl), [&](auto* z) {
    typedef typename std::remove_pointer<decltype(z)>::type T; int k = (int)o.arg(2); multi1d<T> a(k); for (int i = 0; i < k; ++i) a[i] = vm.f<T>(sl + i); read(r, x, a);
    for (int i = 0; i < k; ++i) { vm.f<T>(sl + i) = a[i]; vm.report(sl + i); } });
  else if (n == "qio.rscal") scal(sl, [&](auto z) { typedef decltype(z) T; int k = (int)o.arg(2); std::vector<double> v; if (k < 0) { T a; fills(a, 5, 0); read(r, x, a); put_words(v, a.elem()); } else { multi1d<T> a(k); read(r, x, a); for (int i = 0; i < k; ++i) put_words(v, a[i].elem()); } values_v(v); });
  else if (n == "qio.rbuf") { BinaryBufferReader b; read(r, x, b); std::string s; readDesc(b, s); pre = s + "|"; }
  else return false;
  str(pre + metaof(x, "rec") + (r.bad() ? " bad" : " good") + (r.eof() ? " eof" : "")); return true;
}
#else
bool run_qio(VM&, const Op&) { return false; }
bool qio_gives_up(const Op&) { return false; }
#endif
