// XML readers and writers.
#include "vm.h"
#include "../common/xml.h"
#ifdef QDP_USE_LIBXML2
#include "qdp_map_obj_memory.h"
#include <memory>
#include <sstream>
using namespace simxml;
namespace {
VM* V;
struct W { int kind = 0; std::unique_ptr<XMLBufferWriter> b; std::unique_ptr<XMLFileWriter> f; XMLWriter& w() { if (b) return *b; return *f; } };
std::map<int, W> ws;
std::map<int, std::unique_ptr<XMLReader>> rs;
void rep(const std::string& s) { sim_string(s.data(), (long)s.size()); }
template <class T> T mk(const std::string& t) { std::istringstream i(t); T x; i >> x; return x; }
template <> std::string mk<std::string>(const std::string& t) { return t; }
template <> char mk<char>(const std::string& t) { return t[0]; }
template <class T> std::string show(const T& x) { std::ostringstream o; o.precision(17); o << x; return o.str(); }
template <> std::string show<std::string>(const std::string& x) { return x; }
template <> std::string show<float>(const float& x) { std::ostringstream o; o.precision(9); o << x; return o.str(); }
template <> std::string show<Real32>(const Real32& x) { std::ostringstream o; o.precision(9); o << x; return o.str(); }
template <class C> std::string showall(const C& c) { std::string r = "[" + std::to_string((long)c.size()); for (const auto& x : c) r += "|" + show(x); return r + "]"; }
template <class T> std::string showall(const multi1d<T>& c) { std::string r = "[" + std::to_string((long)c.size()); for (int i = 0; i < c.size(); ++i) r += "|" + show(c[i]); return r + "]"; }
template <class F> void atom(int a, F f) {
  switch (a) {
    case X_STR: f(std::string()); break; case X_CHAR: f(char()); break; case X_INT: f(int()); break; case X_UINT: f((unsigned int)0); break;
    case X_SHORT: f(short()); break; case X_USHORT: f((unsigned short)0); break; case X_LONG: f(long()); break; case X_ULONG: f((unsigned long)0); break;
    case X_FLOAT: f(float()); break; case X_DOUBLE: f(double()); break; case X_BOOL: f(bool()); break;
    case X_INTEGER: f(Integer()); break; case X_R32: f(Real32()); break; case X_R64: f(Real64()); break; case X_BOOLEAN: f(Boolean()); break;
  }
}
template <class T> T arr(const std::vector<T>& v);
Complex cplx(unsigned s) { return cmplx(mk<Real>(token(X_R32, s)), mk<Real>(token(X_R32, s + 1))); }
void put(XMLWriter& x, const Op& o) {          // w type seed n form | tag
  int code = (int)o.arg(1), n = (int)o.arg(3), form = (int)o.arg(4); unsigned s = (unsigned)o.arg(2); const std::string& tag = o.s.at(0);
  if (code < 1000) {
    int c = code / 100;
    atom(code % 100, [&](auto z) {
      typedef decltype(z) T; int a = code % 100;
      if (c == C_ATOM) { T v = mk<T>(token(a, s)); if (form == 0) write(x, tag, v); else if (form == 2) write(x, tag, token(a, s).c_str()); else if (form == 3) { push(x, tag); x << token(a, s).c_str(); pop(x); } else { push(x, tag); x << v; pop(x); } }
      if (c == C_M1) { multi1d<T> v(n); for (int i = 0; i < n; ++i) v[i] = mk<T>(token(a, s + i)); write(x, tag, v); }
      if (c == C_VEC) { std::vector<T> v; for (int i = 0; i < n; ++i) v.push_back(mk<T>(token(a, s + i))); write(x, tag, v); }
      if (c == C_LIST) { std::list<T> v; for (int i = 0; i < n; ++i) v.push_back(mk<T>(token(a, s + i))); write(x, tag, v); }
    });
    return;
  }
  switch (code) {
    case X_MAP: { std::map<std::string, int> m; for (int i = 0; i < n; ++i) m[token(X_STR, s + i)] = mk<int>(token(X_INT, s + i)); write(x, tag, m); break; }
    case X_MEM: { MapObjectMemory<std::string, int> m; for (int i = 0; i < n; ++i) m.insert(token(X_STR, s + i), mk<int>(token(X_INT, s + i))); write(x, tag, m); break; }
    case X_PAIR: { std::pair<int, std::string> p(mk<int>(token(X_INT, s)), token(X_STR, s)); write(x, tag, p); break; }
    case X_A1O: { Array1dO<int> v(n); for (int i = 0; i < n; ++i) v[i + 1] = mk<int>(token(X_INT, s + i)); write(x, tag, v); break; }
    case X_M1M1: { multi1d<multi1d<int>> v(n); for (int i = 0; i < n; ++i) { v[i].resize(i % 3); for (int j = 0; j < i % 3; ++j) v[i][j] = mk<int>(token(X_INT, s + i * 3 + j)); } write(x, tag, v); break; }
    case X_LPAIR: { std::list<std::pair<int, std::string>> v; for (int i = 0; i < n; ++i) v.push_back({mk<int>(token(X_INT, s + i)), token(X_STR, s + i)}); write(x, tag, v); break; }
    case X_VSTRV: { std::vector<std::vector<std::string>> v(n); for (int i = 0; i < n; ++i) for (int j = 0; j < i % 3; ++j) v[i].push_back(token(X_STR, s + i * 3 + j)); write(x, tag, v); break; }
    case X_CPLX: { Complex v = cplx(s); push(x, tag); x << v; pop(x); break; }
    case X_SEED: { Seed v; v = 0; for (int i = 0; i < 4; ++i) { Seed q; q = seedpart(s, i); v = (v << 12) | q; } push(x, tag); x << v; pop(x); break; }
    case X_COLV: { ColorVector v = QDP::zero; for (int i = 0; i < Nc; ++i) pokeColor(v, cplx(s + 2 * i), i); push(x, tag); x << v; pop(x); break; }
    case X_COLM: { ColorMatrix v = QDP::zero; for (int i = 0; i < Nc; ++i) for (int j = 0; j < Nc; ++j) pokeColor(v, cplx(s + 2 * (i * Nc + j)), i, j); push(x, tag); x << v; pop(x); break; }
    case X_SPV: { SpinVector v = QDP::zero; for (int i = 0; i < Ns; ++i) pokeSpin(v, cplx(s + 2 * i), i); push(x, tag); x << v; pop(x); break; }
#define LAT(T, K) { typedef WordType<T>::Type_t Wd; T v; for (long i = 0; i < V->nloc; ++i) { Wd* p = (Wd*)&v.elem((int)i); for (size_t j = 0; j < sizeof(v.elem(0)) / sizeof(Wd); ++j) p[j] = (Wd)latword(s, V->lexs[i], (int)j); } push(x, tag); x << v; pop(x); break; }
    case X_LATR: LAT(LatticeReal, 0)
    case X_LATI: LAT(LatticeInteger, 0)
    case X_LATC: LAT(LatticeComplex, 0)
    case X_LATV: LAT(LatticeColorVector, 0)
  }
}
std::string getv(XMLReader& r, int code, const std::string& xp) {
  std::string out;
  if (code < 1000) {
    int c = code / 100;
    atom(code % 100, [&](auto z) {
      typedef decltype(z) T;
      if (c == C_ATOM) { T v = T(); read(r, xp, v); out = show(v); }
      if (c == C_M1) { multi1d<T> v(2); read(r, xp, v); out = showall(v); }
      if constexpr (!std::is_same<T, bool>::value) if (c == C_VEC) { std::vector<T> v(3); read(r, xp, v); out = showall(v); }
      if (c == C_LIST) { std::list<T> v(3); read(r, xp, v); out = showall(v); }
    });
    return out;
  }
  switch (code) {
    case X_MAP: { std::map<std::string, int> m; read(r, xp, m); for (auto& k : m) out += k.first + "=" + show(k.second) + ";"; break; }
    case X_MEM: { MapObjectMemory<std::string, int> m; read(r, xp, m); std::map<std::string, int> q; for (auto i = m.begin(); i != m.end(); ++i) q[i->first] = i->second; for (auto& k : q) out += k.first + "=" + show(k.second) + ";"; break; }
    case X_PAIR: { std::pair<int, std::string> p; read(r, xp, p); out = show(p.first) + ";" + p.second; break; }
    case X_A1O: { Array1dO<int> v; read(r, xp, v); out = "[" + std::to_string(v.size()); for (int i = 1; i <= v.size(); ++i) out += "|" + show(v[i]); out += "]"; break; }
    case X_M1M1: { multi1d<multi1d<int>> v; read(r, xp, v); for (int i = 0; i < v.size(); ++i) out += showall(v[i]); break; }
    case X_LPAIR: { std::list<std::pair<int, std::string>> v; read(r, xp, v); for (auto& p : v) out += show(p.first) + ";" + p.second + ";"; break; }
    case X_VSTRV: { std::vector<std::vector<std::string>> v; read(r, xp, v); for (auto& p : v) out += showall(p); break; }
    case X_CPLX: { Complex v; read(r, xp, v); out = show(Real(real(v))) + ";" + show(Real(imag(v))); break; }
    case X_SEED: { Seed v; read(r, xp, v); for (int i = 0; i < 4; ++i) out += std::to_string(v.elem().elem().elem(i).elem()) + ";"; break; }
  }
  return out;
}
template <class F> void guarded(F f) {         // "=" and the result, or "!" and the error
  std::string s;
  try { s = "=" + f(); } catch (const std::string& e) { s = "!" + e; }
  rep(s);
}
}
bool run_xml(VM& vm, const Op& o) {
  V = &vm;
  const std::string& n = o.name;
  if (n.compare(0, 5, "disk.") == 0) return true;
  if (n.compare(0, 4, "xml.")) return false;
  int h = (int)o.arg(0);
  if (n == "xml.w") {                           // w kind prologue | path
    W& w = ws[h]; w = W(); w.kind = (int)o.arg(1);
    if (w.kind == 0) w.b.reset(new XMLBufferWriter); else if (w.kind == 2) { if (o.arg(2)) w.b.reset(new XMLBufferWriter(o.s.at(0))); else { w.b.reset(new XMLBufferWriter); w.b->open(o.s.at(0)); } } else if (o.arg(3)) w.f.reset(new XMLFileWriter(o.s.at(0), o.arg(2) != 0)); else { w.f.reset(new XMLFileWriter); w.f->open(o.s.at(0), o.arg(2) != 0); }
  }
  else if (n == "xml.push") { XMLWriter& w = ws[h].w(); if (o.arg(1) == 0) push(w, o.s.at(0)); else if (o.arg(1) == 1) w.openTag(o.s.at(0)); else if (o.arg(1) == 3) w.openStruct(o.s.at(0)); else if (o.arg(1) == 4) w.openSimple(o.s.at(0)); else w.openTag("ns", o.s.at(0)); }
  else if (n == "xml.pop") { XMLWriter& w = ws[h].w(); if (o.arg(1) == 0) pop(w); else if (o.arg(1) == 2) w.closeStruct(); else if (o.arg(1) == 3) w.closeSimple(); else w.closeTag(); }
  else if (n == "xml.put") put(ws[h].w(), o);
  else if (n == "xml.attr") {                   // w nattr seed form | tag : form 0 open, 1 empty
    XMLWriterAPI::AttributeList al; for (int i = 0; i < o.arg(1); ++i) { if (i % 2) al.push_back(XMLWriterAPI::Attribute("a" + std::to_string(i), token(X_STR, (unsigned)o.arg(2) + i))); else al.push_back(XMLWriterAPI::Attribute("a" + std::to_string(i), mk<int>(token(X_INT, (unsigned)o.arg(2) + i)))); }
    XMLWriter& w = ws[h].w();
    if (o.arg(3) == 0) w.openTag(o.s.at(0), al); else if (o.arg(3) == 1) w.emptyTag(o.s.at(0), al); else if (o.arg(3) == 2) w.emptyTag(o.s.at(0)); else if (o.arg(3) == 4) w.openTag("ns", o.s.at(0), al); else w.emptyTag("ns", o.s.at(0), al);
  }
  else if (n == "xml.arr") {                    // w n seed size | tag
    int k = (int)o.arg(1); long f = o.arg(3); XMLArrayWriter a(ws[h].w(), f == 1 ? k : -1);
    if (f == 3) a.openArray(o.s.at(0)); else if (f == 2) a.openStruct(o.s.at(0)); else push((XMLWriter&)a, o.s.at(0));
    for (int i = 0; i < k; ++i) { push(a); write(a, "v", mk<int>(token(X_INT, (unsigned)o.arg(2) + i))); if (i % 2) { push((XMLWriter&)a, "in"); write(a, "w", token(X_STR, (unsigned)o.arg(2) + i)); pop((XMLWriter&)a); } pop(a); }
    if (f == 3) a.closeArray(); else if (f != 2) pop(a);
  }
  else if (n == "xml.incb") { if (o.arg(2)) write(ws[h].w(), o.s.at(0), *ws[(int)o.arg(1)].b); else { push(ws[h].w(), o.s.at(0)); ws[h].w() << *ws[(int)o.arg(1)].b; pop(ws[h].w()); } }
  else if (n == "xml.incr") guarded([&] { if (o.arg(2)) write(ws[h].w(), o.s.at(0), *rs.at((int)o.arg(1))); else { push(ws[h].w(), o.s.at(0)); ws[h].w() << *rs.at((int)o.arg(1)); pop(ws[h].w()); } return std::string(); });
  else if (n == "xml.str") { std::string s = ws[h].b->str(); if (Layout::primaryNode()) rep(s); }
  else if (n == "xml.flush") { if (ws[h].b) ws[h].b->flush(); else ws[h].f->flush(); }
  else if (n == "xml.wclose") { if (ws[h].f) ws[h].f->close(); }
  else if (n == "xml.wdel") { ws.erase(h); }
  else if (n == "xml.wfail") { bool f = ws[h].b ? ws[h].b->fail() : ws[h].f->fail(); double v = f; sim_values(&v, 1); }
  else if (n == "xml.r") {                      // r kind form src | path or text
    guarded([&] {
      auto& p = rs[h]; const std::string* t = o.s.empty() ? nullptr : &o.s[0]; bool ctor = o.arg(2) == 1;
      if (!p && !ctor) p.reset(new XMLReader);
      if (o.arg(1) == 0) { if (ctor) p.reset(new XMLReader(*t)); else p->open(*t); }
      else if (o.arg(1) == 1) { if (ctor) p.reset(new XMLReader(*ws[(int)o.arg(3)].b)); else p->open(*ws[(int)o.arg(3)].b); }
      else { std::istringstream in(Layout::primaryNode() ? *t : std::string("not for this node")); if (ctor) p.reset(new XMLReader(in)); else p->open(in); }
      return std::string();
    });
    if (!rs[h]) rs[h].reset(new XMLReader);     // a failed constructor leaves no reader
  }
  else if (n == "xml.sub") { guarded([&] { rs[h].reset(new XMLReader); rs[h].reset(new XMLReader(*rs.at((int)o.arg(1)), o.s.at(0))); return std::string(); }); }
  else if (n == "xml.get") guarded([&] { return getv(*rs.at(h), (int)o.arg(1), o.s.at(0)); });
  else if (n == "xml.geta") guarded([&] { int v = 0; rs.at(h)->getAttribute(o.s.at(0), o.s.at(1), v); return show(v); });
  else if (n == "xml.count") guarded([&] { return show(rs.at(h)->count(o.s.at(0))); });
  else if (n == "xml.set") guarded([&] {
    XMLReader& r = *rs.at(h); unsigned s = (unsigned)o.arg(2);
    if (o.arg(1) == X_INT) r.set(o.s.at(0), mk<int>(token(X_INT, s))); else if (o.arg(1) == X_DOUBLE) r.set(o.s.at(0), mk<double>(token(X_DOUBLE, s))); else r.set(o.s.at(0), token(X_STR, s));
    return std::string(); });
  else if (n == "xml.ns") guarded([&] { rs.at(h)->registerNamespace("ns", "urn:x"); return std::string(); });
  else if (n == "xml.print") guarded([&] { std::ostringstream s; if (o.arg(1)) rs.at(h)->print(s); else rs.at(h)->printCurrentContext(s); return s.str(); });
  else if (n == "xml.rclose") { rs.at(h)->close(); }
  else if (n == "xml.state") { double v[2] = {(double)rs.at(h)->is_open(), (double)rs.at(h)->is_derived()}; sim_values(v, 2); }
  else return false;
  return true;
}
#else
bool run_xml(VM&, const Op&) { return false; }
#endif
