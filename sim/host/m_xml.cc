// XML readers and writers (C21).
#include "io.h"
#include <list>
#include <iostream>
#include <cstring>
#include <fstream>
#include <memory>
#include "../common/xml.h"
namespace hostxml {       // the writer and reader library, used as the reference
#include "../stub/xml.cc"
}
namespace sim {
using namespace simxml; using namespace simio;
typedef hostxml::XMLXPathReader::BasicXPathReader RD;
namespace {
struct MW : hostxml::XMLWriterAPI::XMLSimpleWriter {      // a writer
  std::ostringstream* os; std::ostringstream own; bool file = false, open = true, prologue = false, failed = false; std::string path; FileP d;
  MW() : os(&own) {}
  MW(MW& out) : os(out.os) { indent_level = out.indent_level; }
  std::ostream& getOstream() override { return *os; }
  std::string str() { std::ostringstream s; writePrologue(s); s << own.str() << "\n"; return s.str(); }
  void settle() { if (!file || !open) return; std::ostringstream s; if (prologue) writePrologue(s); s << own.str(); *d = s.str(); }
};
struct MR { std::shared_ptr<RD> r = std::make_shared<RD>(); bool iop = false, derived = false; };
std::map<int, std::shared_ptr<MW>> ws;
std::map<int, MR> rs;
struct Snap { std::string path, data; };
std::map<int, Snap> snaps;
template <class T> T mk(const std::string& t) { std::istringstream i(t); T x = T(); i >> x; return x; }
template <> std::string mk<std::string>(const std::string& t) { return t; }
template <> char mk<char>(const std::string& t) { return t[0]; }
std::string show(const std::string& x) { return x; }
std::string show(float x) { std::ostringstream o; o.precision(9); o << x; return o.str(); }
template <class T> std::string show(const T& x) { std::ostringstream o; o.precision(17); o << x; return o.str(); }
template <class T> std::string showall(const std::list<T>& c) { std::string r = "[" + std::to_string((long)c.size()); for (const auto& x : c) r += "|" + show(x); return r + "]"; }
template <class F> void atom(int a, F f) {
  switch (a) {
    case X_STR: f(std::string()); break; case X_CHAR: f(char()); break; case X_INT: case X_INTEGER: f(int()); break; case X_UINT: f((unsigned int)0); break;
    case X_SHORT: f(short()); break; case X_USHORT: f((unsigned short)0); break; case X_LONG: f(long()); break; case X_ULONG: f((unsigned long)0); break;
    case X_FLOAT: case X_R32: f(float()); break; case X_DOUBLE: case X_R64: f(double()); break; case X_BOOL: case X_BOOLEAN: f(bool()); break;
  }
}
bool text(int a) { return a == X_STR || a == X_CHAR; }
void watom(MW& w, int a, const std::string& t) { if (text(a)) w.write(t); else atom(a, [&](auto z) { typedef decltype(z) T; w.write(mk<T>(t)); }); }
void tagged(MW& w, const std::string& tag, int a, const std::string& t) { w.openTag(tag); watom(w, a, t); w.closeTag(); }
void warr(MW& w, const std::string& tag, int a, const std::vector<std::string>& v) {
  w.openTag(tag);
  if (text(a)) for (auto& t : v) tagged(w, "elem", a, t);
  else atom(a, [&](auto z) {
    typedef decltype(z) T; std::ostringstream o; if (std::is_same<T, float>::value) o.precision(7); if (std::is_same<T, double>::value) o.precision(15);
    bool first = true; for (auto& t : v) { if (!first) o << " "; first = false; o << mk<T>(t); }
    w.write(o.str());
  });
  w.closeTag();
}
void wcplx(MW& w, unsigned s) { tagged(w, "re", X_FLOAT, token(X_R32, s)); tagged(w, "im", X_FLOAT, token(X_R32, s + 1)); }
typedef hostxml::XMLWriterAPI::AttributeList AL; typedef hostxml::XMLWriterAPI::Attribute AT;
void rowtag(MW& w, int i, int j = -1) { AL al; al.push_back(AT("row", i)); if (j >= 0) al.push_back(AT("col", j)); w.openTag("elem", al); }
std::vector<std::string> toks(int a, unsigned s, int n) { std::vector<std::string> v; for (int i = 0; i < n; ++i) v.push_back(token(a, s + i)); return v; }
void put(Model& m, MW& x, const Op& o) {
  int code = (int)o.arg(1), n = (int)o.arg(3); unsigned s = (unsigned)o.arg(2); const std::string& tag = o.s.at(0);
  if (code < 1000) { int c = code / 100, a = code % 100; if (c == C_ATOM) tagged(x, tag, a, token(a, s)); else warr(x, tag, a, toks(a, s, n)); return; }
  x.openTag(tag);
  switch (code) {
    case X_MAP: case X_MEM: {
      std::map<std::string, std::string> q; for (int i = 0; i < n; ++i) if (code == X_MAP || !q.count(token(X_STR, s + i))) q[token(X_STR, s + i)] = token(X_INT, s + i);
      for (auto& k : q) { x.openTag("elem"); tagged(x, "Key", X_STR, k.first); tagged(x, "Val", X_INT, k.second); x.closeTag(); }
      break;
    }
    case X_PAIR: tagged(x, "First", X_INT, token(X_INT, s)); tagged(x, "Second", X_STR, token(X_STR, s)); break;
    case X_A1O: { std::string t; for (int i = 0; i < n; ++i) t += (i ? " " : "") + token(X_INT, s + i); x.write(t); break; }
    case X_M1M1: for (int i = 0; i < n; ++i) warr(x, "elem", X_INT, toks(X_INT, s + i * 3, i % 3)); break;
    case X_LPAIR: for (int i = 0; i < n; ++i) { x.openTag("elem"); tagged(x, "First", X_INT, token(X_INT, s + i)); tagged(x, "Second", X_STR, token(X_STR, s + i)); x.closeTag(); } break;
    case X_VSTRV: for (int i = 0; i < n; ++i) warr(x, "elem", X_STR, toks(X_STR, s + i * 3, i % 3)); break;
    case X_CPLX: wcplx(x, s); break;
    case X_SEED: x.openTag("Seed"); for (int i = 3; i >= 0; --i) tagged(x, "elem", X_INT, std::to_string(seedpart(s, i))); x.closeTag(); break;
    case X_COLV: x.openTag("Vector"); for (int i = 0; i < 3; ++i) { rowtag(x, i); wcplx(x, s + 2 * i); x.closeTag(); } x.closeTag(); break;
    case X_COLM: x.openTag("Matrix"); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { rowtag(x, i, j); wcplx(x, s + 2 * (i * 3 + j)); x.closeTag(); } x.closeTag(); break;
    case X_SPV: x.openTag("SpinVector"); for (int i = 0; i < 4; ++i) { rowtag(x, i); wcplx(x, s + 2 * i); x.closeTag(); } x.closeTag(); break;
    default: {                                    // a field: every site in lexicographic order
      x.openTag("OLattice");
      for (long l = 0; l < m.vol; ++l) {
        std::string c; long q = l; for (int i = 0; i < 4; ++i) { c += (i ? " " : "") + std::to_string(q % m.L[i]); q /= m.L[i]; }
        AL al; al.push_back(AT("site", l)); al.push_back(AT("coord", c)); x.openTag("elem", al);
        auto wd = [&](int j) { return latword(s, l, j); };
        auto cp = [&](int j) { x.openTag("re"); x.write((float)wd(j)); x.closeTag(); x.openTag("im"); x.write((float)wd(j + 1)); x.closeTag(); };
        if (code == X_LATR) x.write((float)wd(0)); else if (code == X_LATI) x.write(wd(0)); else if (code == X_LATC) cp(0);
        else { x.openTag("Vector"); for (int i = 0; i < 3; ++i) { rowtag(x, i); cp(2 * i); x.closeTag(); } x.closeTag(); }
        x.closeTag();
      }
      x.closeTag();
    }
  }
  x.closeTag();
}
// reading
RD sub(RD& r, const std::string& xp) { RD t; t.open(r, xp); return t; }
std::string el(int i) { return "elem[" + std::to_string(i + 1) + "]"; }
template <class T> T rd(RD& r, const std::string& xp) { T v = T(); r.get(xp, v); return v; }
template <> char rd<char>(RD& r, const std::string& xp) { std::string t; r.get(xp, t); return t[0]; }
template <class T> std::list<T> words_of(RD& r, const std::string& xp) {
  std::istringstream i(rd<std::string>(r, xp)); std::list<T> v;
  while (!(i >> std::ws).eof()) { T x; if (!(i >> x)) throw std::string("element"); v.push_back(x); }
  return v;
}
template <class T> std::list<T> elems_of(RD& r, const std::string& xp) { RD t = sub(r, xp); int n = t.count("elem"); std::list<T> v; for (int i = 0; i < n; ++i) v.push_back(rd<T>(t, el(i))); return v; }
std::string getv(RD& r, int code, const std::string& xp) {
  std::string out;
  if (code < 1000) {
    int c = code / 100, a = code % 100;
    atom(a, [&](auto z) {
      typedef decltype(z) T;
      if (c == C_ATOM) out = show(rd<T>(r, xp));
      else if (a == X_BOOL && c == C_VEC) ;
      else if constexpr (std::is_same<T, std::string>::value || std::is_same<T, char>::value) out = showall(elems_of<T>(r, xp)); else out = showall(words_of<T>(r, xp));
    });
    return out;
  }
  switch (code) {
    case X_MAP: case X_MEM: {
      RD t = sub(r, xp); int n = t.count("elem"); std::map<std::string, int> q;
      for (int i = 0; i < n; ++i) { RD e = sub(t, el(i)); std::string k = rd<std::string>(e, "Key"); int v = rd<int>(e, "Val"); q.insert({k, v}); }
      for (auto& k : q) out += k.first + "=" + show(k.second) + ";";
      break;
    }
    case X_PAIR: { RD t = sub(r, xp); int a = rd<int>(t, "First"); out = show(a) + ";" + rd<std::string>(t, "Second"); break; }
    case X_A1O: out = showall(words_of<int>(r, xp)); break;
    case X_M1M1: { RD t = sub(r, xp); int n = t.count("elem"); for (int i = 0; i < n; ++i) out += showall(words_of<int>(t, el(i))); break; }
    case X_LPAIR: { RD t = sub(r, xp); int n = t.count("elem"); for (int i = 0; i < n; ++i) { RD e = sub(t, el(i)); int a = rd<int>(e, "First"); out += show(a) + ";" + rd<std::string>(e, "Second") + ";"; } break; }
    case X_VSTRV: { RD t = sub(r, xp); int n = t.count("elem"); for (int i = 0; i < n; ++i) out += showall(elems_of<std::string>(t, el(i))); break; }
    case X_CPLX: { float a = rd<float>(r, xp + "/re"), b = rd<float>(r, xp + "/im"); out = show(a) + ";" + show(b); break; }
    case X_SEED: { auto v = elems_of<int>(r, xp + "/Seed"); if (v.size() != 4) throw std::string("seed"); for (int x : v) out += std::to_string(x) + ";"; break; }
  }
  return out;
}
void context(MR& r, std::ostream& os) { if (r.derived) r.r->printChildren(os); else r.r->printRoot(os); }
}
void model_xml_start() { ws.clear(); rs.clear(); snaps.clear(); }
bool model_xml(Model& m, const Op& o, Expect& e) {
  const std::string& n = o.name; int op = (int)(&o - &m.ph->ops[0]), hd = (int)o.arg(0);
  if (n.compare(0, 4, "xml.")) return false;
  auto str = [&](const std::string& s) { e.has_string = true; e.str = s; };
  auto guarded = [&](auto f) { std::string r; try { r = "=" + f(); } catch (const std::string& x) { r = "!" + x; } str(r); return r[0] == '='; };
  if (n == "xml.w") {
    auto w = std::make_shared<MW>(); w->file = o.arg(1) == 1; if (o.arg(1) == 2) w->own << o.s.at(0); w->prologue = o.arg(2) != 0;
    if (w->file) { w->path = o.s.at(0); w->d = mfs()[w->path] = std::make_shared<std::string>(); }
    ws[hd] = w; return true;
  }
  auto W = [&](int i) -> MW& { return *ws.at(i); };
  auto R = [&](int i) -> MR& { return rs.at(i); };
  if (n == "xml.push") { if (o.arg(1) == 2) W(hd).openTag("ns", o.s.at(0)); else W(hd).openTag(o.s.at(0)); return true; }
  if (n == "xml.pop") { W(hd).closeTag(); return true; }
  if (n == "xml.put") { put(m, W(hd), o); return true; }
  if (n == "xml.attr") {
    AL al; for (int i = 0; i < o.arg(1); ++i) { unsigned s = (unsigned)o.arg(2) + i; if (i % 2) al.push_back(AT("a" + std::to_string(i), token(X_STR, s))); else al.push_back(AT("a" + std::to_string(i), mk<int>(token(X_INT, s)))); }
    if (o.arg(3) == 0) W(hd).openTag(o.s.at(0), al); else if (o.arg(3) == 1) W(hd).emptyTag(o.s.at(0), al); else if (o.arg(3) == 2) W(hd).emptyTag(o.s.at(0)); else if (o.arg(3) == 4) W(hd).openTag("ns", o.s.at(0), al); else W(hd).emptyTag("ns", o.s.at(0), al);
    return true;
  }
  if (n == "xml.arr") {
    MW a(W(hd)); a.openTag(o.s.at(0));
    for (int i = 0; i < o.arg(1); ++i) { unsigned s = (unsigned)o.arg(2) + i; a.openTag("elem"); tagged(a, "v", X_INT, token(X_INT, s)); if (i % 2) { a.openTag("in"); tagged(a, "w", X_STR, token(X_STR, s)); a.closeTag(); } a.closeTag(); }
    a.closeTag(); return true;
  }
  if (n == "xml.incb") { W(hd).openTag(o.s.at(0)); W(hd).writeXML(W((int)o.arg(1)).own.str()); W(hd).closeTag(); return true; }
  if (n == "xml.incr") { guarded([&] { std::ostringstream s; W(hd).openTag(o.s.at(0)); context(R((int)o.arg(1)), s); W(hd).writeXML(s.str()); W(hd).closeTag(); return std::string(); }); return true; }
  if (n == "xml.str") { str(W(hd).str()); return true; }
  if (n == "xml.flush" || n == "xml.wclose" || n == "xml.wdel") {
    MW& w = W(hd); bool act = w.file && w.open; w.settle();
    if (act) snaps[op] = {w.path, *w.d};
    if (n == "xml.wclose") w.open = false;
    if (n == "xml.wdel") ws.erase(hd);
    return true;
  }
  if (n == "xml.wfail") { e.has_values = true; e.values = {0}; return true; }
  if (n == "xml.r") {
    auto i = rs.find(hd); bool ctor = o.arg(2) == 1, had = i != rs.end();
    auto open = [&](MR& q) {
      if (o.arg(1) == 0) { auto f = mfs().find(o.s.at(0)); std::string d = f == mfs().end() ? "" : *f->second; snaps[op] = {o.s[0], d}; std::istringstream in(d); q.r->open(in); }
      else if (o.arg(1) == 1) { std::istringstream in(W((int)o.arg(3)).str() + "\n"); q.r->open(in); }
      else { std::istringstream in(o.s.at(0)); q.r->open(in); }
      q.iop = true; q.derived = false;
    };
    bool ok = guarded([&] { if (ctor) { MR q; open(q); rs[hd] = q; } else { MR& q = rs[hd]; open(q); } return std::string(); });
    if (!ok && !had && ctor) rs[hd] = MR();
    return true;
  }
  if (n == "xml.sub") { MR src = R((int)o.arg(1)); rs[hd] = MR(); guarded([&] { MR q; q.r->open(*src.r, o.s.at(0)); q.iop = q.derived = true; rs[hd] = q; return std::string(); }); return true; }
  if (n == "xml.get") { guarded([&] { return getv(*R(hd).r, (int)o.arg(1), o.s.at(0)); }); return true; }
  if (n == "xml.geta") { guarded([&] { int v = 0; R(hd).r->getAttribute(o.s.at(0), o.s.at(1), v); return show(v); }); return true; }
  if (n == "xml.count") { guarded([&] { return show(R(hd).r->count(o.s.at(0))); }); return true; }
  if (n == "xml.set") {
    guarded([&] {
      RD& r = *R(hd).r; unsigned s = (unsigned)o.arg(2);
      if (o.arg(1) == X_INT) r.set(o.s.at(0), mk<int>(token(X_INT, s))); else if (o.arg(1) == X_DOUBLE) r.set(o.s.at(0), mk<double>(token(X_DOUBLE, s))); else r.set(o.s.at(0), token(X_STR, s));
      return std::string(); });
    return true;
  }
  if (n == "xml.ns") { guarded([&] { return std::string(); }); return true; }
  if (n == "xml.print") { guarded([&] { std::ostringstream s; if (o.arg(1)) R(hd).r->print(s); else context(R(hd), s); return s.str(); }); return true; }
  if (n == "xml.rclose") { MR& q = R(hd); if (q.iop) { q.r->close(); q.iop = q.derived = false; } return true; }
  if (n == "xml.state") { e.has_values = true; e.values = {(double)R(hd).iop, (double)R(hd).derived}; return true; }
  return false;
}
static std::string differ(const std::string& a, const std::string& b) {      // where and how two texts differ
  size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
  size_t f = i > 30 ? i - 30 : 0; return "at byte " + std::to_string(i) + " \"" + a.substr(f, 70) + "\", expected \"" + b.substr(f, 70) + "\"";
}
// ---- oracle -----------------------------------------------------------------------------------
struct XmlOracle : PlainOracle {
  std::map<int, std::string> first; std::map<int, bool> dead; bool tainted = false;      // tainted: a fault changed what documents hold
  static const Op& opof(int op) { static const Op none; auto& v = g_spec->phases[g_phase].ops; return op >= 0 && op < (int)v.size() ? v[op] : none; }
  static bool isx(int op) { return opof(op).name.compare(0, 4, "xml.") == 0; }
  void phase_begin(int ph) override { PlainOracle::phase_begin(ph); first.clear(); dead.clear(); tainted = false; }
  static bool same(const Snap& s) { auto f = fs().files.find(s.path); return f != fs().files.end() && f->second->data == s.data; }
  void agree(int node, int op, const std::string& b) {
    auto i = first.emplace(op, b);
    if (i.first->second != b) violation("xml.nodes-differ", "node %d and another node see different results of %s (\"%.40s\" and \"%.40s\")", node, opof(op).name.c_str(), b.c_str(), i.first->second.c_str());
  }
  void op_begin(int node, int op) override {
    if (node == 0 && opof(op).name == "xml.r" && opof(op).arg(1) == 0 && snaps.count(op) && g_fault.injected > 0 && !same(snaps[op])) tainted = true;
  }
  void on_values(int node, int op, const double* v, int n) override {
    if (!isx(op)) { PlainOracle::on_values(node, op, v, n); return; }
    std::string b; for (int i = 0; i < n; ++i) b += show(v[i]) + " ";
    agree(node, op, b);
    if (opof(op).name == "xml.wfail") {
      int hd = (int)opof(op).arg(0);
      if (v[0] != 0) { if (!g_fault.injected) violation("xml.fail", "the writer reports a failure, but nothing failed"); dead[hd] = true; tainted = true; return; }
      if (node || dead[hd] || tainted || op == 0) return;
      const Op& q = opof(op - 1);
      if ((q.name == "xml.wclose" || q.name == "xml.flush") && q.arg(0) == hd && snaps.count(op - 1) && !same(snaps[op - 1])) violation("xml.lost-write", "after %s the writer reports success, but %s does not hold the document", q.name.c_str(), snaps[op - 1].path.c_str());
      return;
    }
    if (!tainted) PlainOracle::on_values(node, op, v, n);
  }
  void on_string(int node, int op, const std::string& s) override {
    if (!isx(op)) { PlainOracle::on_string(node, op, s); return; }
    agree(node, op, s);
    if (tainted) return;
    const Op& o = opof(op); auto& ex = g_rt->model.ex.at(op);
    if (o.name == "xml.str") { if (s != ex.str) violation("xml.text", "the text of writer %ld differs %s", o.arg(0), differ(s, ex.str).c_str()); return; }
    bool bad = s[0] == '!', want = ex.str[0] == '!';
    if (bad && want) return;
    if (bad && g_fault.injected > 0 && o.name == "xml.r") { tainted = true; return; }
    if (bad != want) violation(bad ? "xml.error" : "xml.silent", "%s of \"%s\": %s, expected %s", o.name.c_str(), o.s.empty() ? "" : o.s[0].c_str(), s.substr(0, 90).c_str(), ex.str.substr(0, 90).c_str());
    if (s != ex.str) violation("xml.value", "the result of %s differs %s", o.name.c_str(), differ(s, ex.str).c_str());
  }
  void op_end(int node, int op) override {
    if (node || g_fault.injected || !snaps.count(op) || opof(op).name == "xml.r") return;
    const Snap& s = snaps[op];
    if (!same(s)) { auto f = fs().files.find(s.path); violation("xml.bytes", "after %s, file %s holds %ld bytes, not the %zu of the document; %s", opof(op).name.c_str(), s.path.c_str(), f == fs().files.end() ? -1L : (long)f->second->data.size(), s.data.size(), f == fs().files.end() ? "" : differ(f->second->data, s.data).c_str()); }
  }
};
Oracle* xml_oracle() { return new XmlOracle; }
// ---- generator -----------------------------------------------------------------------------------
namespace {
struct Leaf { std::string path; int code; };
struct Doc { std::vector<Leaf> leaf, attr, nodes; };
struct XG {
  Gen& g; int nh = 0, nr = 0, tagno = 0; std::vector<int> rd; std::vector<std::pair<int, Doc>> bufs; std::vector<Doc> rdoc;
  std::vector<std::pair<std::string, Doc>> files;
  XG(Gen& g_) : g(g_) {}
  int code() {
    int w = g.r.below(10);
    if (w < 4) return g.r.below(NATOM);
    if (w < 7) return (1 + g.r.below(3)) * 100 + g.r.below(NATOM);
    int c = X_MAP + g.r.below(X_END - X_MAP);
    return c;
  }
  std::string tag() { static const char* t[] = {"x", "Params", "a_b", "elem", "Seed2", "t-1"}; if (g.r.below(8) == 0) return t[g.r.below(6)]; return "t" + std::to_string(tagno++); }
  void body(int h, Doc& d, const std::string& path, int depth, int n) {
    for (int i = 0; i < n; ++i) {
      int w = g.r.below(14); std::string t = tag(), p = path + "/" + t;
      if (w < 7) { int c = code(); if (c >= X_LATR && c < X_END && g.vol > 40) c = X_MAP; long cnt = c == X_MEM ? g.r.below(2) : g.r.below(6); if (g.r.below(12) == 0 && c != X_MEM) cnt = g.r.below(40); g.op("xml.put", {h, c, g.r.below(1 << 20), cnt, g.r.below(c == X_STR ? 4 : 2)}).s = {t}; d.leaf.push_back({p, c}); }
      else if (w < 10 && depth < 4) {
        if (w == 9) { long f = g.r.below(4) ? 0 : 4; g.op("xml.attr", {h, g.r.range(1, 4), g.r.below(1 << 20), f}).s = {t}; if (f == 4) p = path + "/ns:" + t; d.attr.push_back({p, 0}); g.op("xml.put", {h, g.r.below(NATOM), g.r.below(1 << 20), 0, 0}).s = {"v"}; }
        else { long f = g.r.below(8); g.op("xml.push", {h, f > 4 ? 0 : f}).s = {t}; if (f == 2) p = path + "/ns:" + t; }
        d.nodes.push_back({p, 0});
        body(h, d, p, depth + 1, g.r.below(5)); g.op("xml.pop", {h, g.r.below(4)});
      }
      else if (w == 10) { long f = g.r.range(1, 3); g.op("xml.attr", {h, g.r.below(4), g.r.below(1 << 20), f}).s = {t}; if (f != 3) d.attr.push_back({p, 0}); }
      else if (w == 11) { int k = g.r.range(1, 4); g.op("xml.arr", {h, k, g.r.below(1 << 20), g.r.below(4)}).s = {t}; d.leaf.push_back({p + "/elem[" + std::to_string(g.r.range(1, k)) + "]/v", X_INT}); d.nodes.push_back({p, 0}); }
      else if (w == 12 && !bufs.empty()) { auto& b = bufs[g.r.below((int)bufs.size())]; if (b.first == h) continue; g.op("xml.incb", {h, b.first, g.r.below(2)}).s = {t}; for (auto& l : b.second.leaf) d.leaf.push_back({p + l.path, l.code}); }
      else if (w == 13 && !rd.empty()) { int k = g.r.below((int)rd.size()); g.op("xml.incr", {h, rd[k], g.r.below(2)}).s = {t}; for (auto& l : rdoc[k].leaf) d.leaf.push_back({p + l.path, l.code}); }
      if (g.r.below(30) == 0) { g.op("xml.flush", {h}); g.op("xml.wfail", {h}); }
    }
  }
  void write(bool file) {
    int h = nh++; Doc d; std::string path = "f" + std::to_string(h) + (g.r.below(2) ? ".xml" : ""), root = g.r.below(3) ? "root" : tag();
    Op& o = g.op("xml.w", {h, file, g.r.below(4) > 0, g.r.below(2)}); if (file) o.s = {path};
    g.op("xml.push", {h, g.r.below(2)}).s = {root};
    body(h, d, "/" + root, 0, g.r.range(1, g.tier ? 14 : 8));
    d.nodes.push_back({"/" + root, 0});
    bool torn = g.r.below(12) == 0;               // the document is left unfinished
    if (!torn) g.op("xml.pop", {h, g.r.below(2)});
    if (!file) { if (!torn && d.nodes.size()) bufs.push_back({h, d}); if (g.r.below(2)) g.op("xml.str", {h}); if (g.r.below(8) == 0) { g.op("xml.flush", {h}); g.op("xml.wfail", {h}); } if (torn) read(1, h, "", d); }
    else { if (g.r.below(4)) { g.op("xml.wclose", {h}); g.op("xml.wfail", {h}); } if (g.r.below(2) || g.p->ops.back().name != "xml.wfail") g.op("xml.wdel", {h}); files.push_back({path, d}); }
  }
  void read(int kind, int src, const std::string& t, const Doc& d) {
    int h = nr++; Op& o = g.op("xml.r", {h, kind, g.r.below(2), src}); if (kind != 1) o.s = {t};
    rd.push_back(h); rdoc.push_back(d);
  }
  std::string path(const Doc& d) {
    static const char* odd[] = {"/none", ".", "//elem", "/root/*", "//x", "/root", "//v", "/a/b", "/a/b[2]", "//c", "*", "/a/s", "/a/m", "/a/n", "/a/p", "..", "/a/b[1]/c", "elem", "/a/q", "/a/l", "/a/z", "/a/bool", "/a/long", "/a/ns:k"};
    int w = g.r.below(10);
    if (w < 7 && !d.leaf.empty()) return d.leaf[g.r.below((int)d.leaf.size())].path;
    if (w < 8 && !d.nodes.empty()) return d.nodes[g.r.below((int)d.nodes.size())].path;
    return odd[g.r.below(24)];
  }
  int rcode() { for (;;) { int c = code(); if (write_only(c) || c == C_VEC * 100 + X_BOOL) continue; return c; } }
  void use(int k) {
    int h = rd[k]; Doc& d = rdoc[k];
    switch (g.r.below(14)) {
      case 0: case 1: case 2: case 3: case 4: if (!d.leaf.empty()) { Leaf l = d.leaf[g.r.below((int)d.leaf.size())]; if (write_only(l.code) || l.code == C_VEC * 100 + X_BOOL) { g.op("xml.count", {h}).s = {l.path}; break; } int c = l.code; if (c == X_MAP && g.r.below(2)) c = X_MEM; g.op("xml.get", {h, c}).s = {l.path}; break; }
        [[fallthrough]];
      case 5: case 6: g.op("xml.get", {h, rcode()}).s = {path(d)}; break;
      case 7: g.op("xml.count", {h}).s = {path(d)}; break;
      case 8: { std::string p = !d.attr.empty() && g.r.below(4) ? d.attr[g.r.below((int)d.attr.size())].path : path(d); g.op("xml.geta", {h}).s = {p, std::string("a") + (char)('0' + g.r.below(4))}; break; }
      case 9: { static const long ty[] = {X_INT, X_DOUBLE, X_STR}; bool leaf = !d.leaf.empty() && g.r.below(4); Leaf l = leaf ? d.leaf[g.r.below((int)d.leaf.size())] : Leaf{"/none", 0}; if (l.code >= 100) break; g.op("xml.set", {h, ty[g.r.below(3)], g.r.below(1 << 20)}).s = {l.path}; if (leaf) g.op("xml.get", {h, l.code}).s = {l.path}; break; }
      case 10: g.op("xml.print", {h, g.r.below(2)}); break;
      case 11: g.op("xml.state", {h}); break;
      case 12: if (g.r.below(3) == 0) { g.op("xml.ns", {h}); break; } if (g.r.below(4) == 0) { g.op("xml.rclose", {h}); if (g.r.below(3)) { g.op("xml.state", {h}); break; } g.op("xml.get", {h, rcode()}).s = {path(d)}; break; }
        [[fallthrough]];
      default: {                                   // a reader of a part
        int q = nr++; bool nd = !d.nodes.empty() && g.r.below(4); std::string p = nd ? d.nodes[g.r.below((int)d.nodes.size())].path : path(d);
        g.op("xml.sub", {q, h}).s = {p}; Doc e;
        for (auto& l : d.leaf) { if (l.path.compare(0, p.size() + 1, p + "/") == 0) e.leaf.push_back({l.path.substr(p.size() + 1), l.code}); else if (g.r.below(3) == 0) e.leaf.push_back(l); }
        rd.push_back(q); rdoc.push_back(e);
      }
    }
  }
};
const char* const texts[] = {
  "<a><b>1</b><b>2</b><c>x</c></a>",
  "<?xml version=\"1.0\"?>\n<!-- note -->\n<a><s> one &lt; two &amp; three </s><b> 7 </b><n>1 2 3 4</n></a>\n",
  "<a><m><elem><Key>k1</Key><Val>3</Val></elem><elem><Key></Key><Val>-4</Val></elem></m><p><First>4</First><Second>z</Second></p></a>",
  "<a><n>1 2 x 4</n><q>1.5 2.5e3 -1</q><l><elem>p</elem><elem>q q</elem><elem/></l></a>",
  "<a a0=\"7\" a1='b &quot;c&quot;'><b a0=\"x\"/><z/></a>",
  "<a><m><elem><Key>k1</Key></elem></m><p><First>x</First><Second/></p><Seed><elem>1</elem><elem>2</elem></Seed></a>",
  "<a><b>1</a></b>", "<a>", "", "plain text", "<a/><b/>", "<a>&unknown;</a>", "<a b=1/>", "<a><b></a>", "<a>1 &lt 2</a>",
  "<root><x>12abc</x><elem>5</elem><elem>6</elem><v>9</v></root>",
  "<a><bool>true</bool><b>false</b><n>1 0 1 true</n><long>99999999999999999999</long><q>70000</q></a>",
  "<a><z><Seed><elem>1</elem><elem>2</elem><elem>3</elem></Seed></z><b><Seed><elem>1</elem><elem>2</elem><elem>3</elem><elem>4</elem><elem>5</elem></Seed></b><c><Seed><elem>1</elem><elem>2</elem><elem>3</elem><elem>x</elem></Seed></c></a>",
  "<a><q><re>1.5</re></q><z><re>1.5</re><im>2</im></z><c><re>x</re><im>1</im></c><ns:k>3</ns:k></a>",
};
}
Spec g_C21(Gen& g) {
  g.sched(); XG x(g);
  auto variant = [&](const int* L) { return L && L[0] % 2 ? std::string("ps-lex") : pickv(g, {"ps-cb2", "ps-lex", "ps-cb2", "ps-cb3d", "sc-cb2-xml"}); };
  g.begin_phase(variant(nullptr), 8, g.r.below(3) ? 32 : 64);
  int L[4]; for (int i = 0; i < 4; ++i) L[i] = g.p->latt[i];
  auto some_text = [&] { return std::string(texts[g.r.below((int)(sizeof texts / sizeof *texts))]); };
  if (g.r.below(4) == 0) {                         // a buffer that starts from a text
    static const char* const frag[] = {"<a><b>1</b><b>2</b><c>x</c></a>", "<a><n>1 2 x 4</n><q>1.5 2.5e3 -1</q></a>", "<a a0=\"7\"><b a0=\"x\"/><z/></a>", "<a><b></a>", ""};
    int h = x.nh++; g.op("xml.w", {h, 2, g.r.below(2), 0}).s = {frag[g.r.below(5)]}; if (g.r.below(2)) g.op("xml.str", {h});
    Doc d; if (g.r.below(2)) { x.bufs.push_back({h, d}); } x.read(1, h, "", d);
  }
  auto reads = [&](int n) { for (int i = 0; i < n; ++i) if (!x.rd.empty()) x.use(g.r.below((int)x.rd.size())); };
  int n = g.r.range(1, 3);
  for (int i = 0; i < n; ++i) {
    x.write(g.r.below(2));
    if (!x.bufs.empty() && g.r.below(2)) { auto& b = x.bufs[g.r.below((int)x.bufs.size())]; x.read(1, b.first, "", b.second); reads(g.r.range(2, 8)); }
  }
  if (g.r.below(2)) { x.read(2, 0, some_text(), Doc()); reads(g.r.range(3, 12)); }
  if (!x.files.empty() && g.r.below(2)) { bool closed = true; for (auto& o : g.p->ops) if (o.name == "xml.w" && o.arg(1) == 1) { closed = false; for (auto& q : g.p->ops) if ((q.name == "xml.wdel" || q.name == "xml.wclose") && q.arg(0) == o.arg(0)) closed = true; if (!closed) break; }
    if (closed) { auto& f = x.files[g.r.below((int)x.files.size())]; x.read(0, 0, f.first, f.second); reads(g.r.range(3, 12)); } }
  reads(g.r.range(2, g.tier ? 30 : 12));
  finish(g);
  bool second = !x.files.empty() ? g.r.below(3) > 0 : g.r.below(4) == 0;
  if (second) {
    auto files = x.files; rephase(g, variant(L), 8, L); x.rd.clear(); x.rdoc.clear(); x.bufs.clear(); x.nh = x.nr = 0;
    if (files.empty() || g.r.below(4) == 0) { Op& o = g.op("disk.text"); o.s = {"hand", some_text()}; files.push_back({"hand", Doc()}); }
    for (auto& f : files) { x.read(0, 0, f.first, f.second); reads(g.r.range(3, g.tier ? 20 : 10)); }
    if (g.r.below(2)) { x.nh = 20; x.files.clear(); x.write(g.r.below(2)); reads(g.r.below(5)); }
    finish(g);
  }
  if (g.r.below(3) == 0) { g.s.k["fs.short"] = g.r.range(5, 60); g.s.k["fs.eintr"] = g.r.range(0, 20); }
  if (g.r.below(3) == 0) {
    static const char* kd[] = {"fs.open-w", "fs.eio-w", "fs.enospc", "fs.enospc", "fs.close", "fs.eio-r", "fs.eio-r", "fs.open-r"}; std::string k = kd[g.r.below(8)];
    if (g.r.below(2)) g.s.k["fat." + k] = 1 + g.r.below(g.r.below(2) ? 3 : 12); else { static const int pm[] = {50, 150, 400, 1000}; g.s.k["f." + k] = pm[g.r.below(4)]; g.s.k["f.max"] = g.r.below(3) ? 1 : 4; }
  }
  return g.s;
}
}
