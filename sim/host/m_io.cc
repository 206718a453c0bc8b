// Streams and files: model, oracle and generators of C11-C14.
#include "io.h"
#include <cmath>
#include <cstring>
namespace sim {
using namespace simf; using namespace simio;
static std::map<int, MIo> mio; static std::map<std::pair<int, int>, long> marks;
struct Snap { std::string path; std::string data; };
static std::map<int, Snap> snaps;                 // op -> what the file must hold after it
static std::set<int> missing;                     // opens that must fail
static int g_opno = 0;
std::map<std::string, FileP>& mfs() { static std::map<std::string, FileP> m; return m; }
unsigned crc32(unsigned c, const char* p, size_t n) {
  static unsigned t[256]; static bool init = false;
  if (!init) { for (unsigned i = 0; i < 256; ++i) { unsigned x = i; for (int k = 0; k < 8; ++k) x = x & 1 ? 0xedb88320u ^ (x >> 1) : x >> 1; t[i] = x; } init = true; }
  c = ~c; for (size_t i = 0; i < n; ++i) c = t[(c ^ (unsigned char)p[i]) & 255] ^ (c >> 8);
  return ~c;
}
template <class T> static std::string be(T x) { std::string s((const char*)&x, sizeof x); return std::string(s.rbegin(), s.rend()); }
template <class T> static T unbe(const std::string& s) { std::string r(s.rbegin(), s.rend()); T x; memcpy(&x, r.data(), sizeof x); return x; }
std::string elem_bytes(int kind, double v) {
  switch (kinfo(kind).w) { case W_INT: return be((int)v); case W_BOOL: return std::string(1, v != 0 ? 1 : 0); case W_FLOAT: return be((float)v); default: return be(v); }
}
double elem_val(int kind, const char* p) {
  std::string s(p, kinfo(kind).wsize);
  switch (kinfo(kind).w) { case W_INT: return unbe<int>(s); case W_BOOL: return (unsigned char)s[0]; case W_FLOAT: return unbe<float>(s); default: return unbe<double>(s); }
}
// ---- stream model -----------------------------------------------------------------------
static void put(MIo& h, const std::string& b) {
  if (h.fail) return;
  if (h.eof || !h.open) { h.fail = true; return; }
  std::string& d = *h.d; long& p = h.one_pos() ? h.rp : h.wp;
  if ((long)d.size() < p + (long)b.size()) d.resize(p + b.size());
  memcpy(&d[p], b.data(), b.size()); p += b.size();
  h.crc = crc32(h.crc, b.data(), b.size());
}
static size_t take(MIo& h, size_t n, std::string& out) {      // bytes that were there
  out.assign(n, 0);
  if (h.fail) return 0;
  if (h.eof) { h.fail = true; return 0; }
  long av = (long)h.d->size() - h.rp; if (av < 0) av = 0;
  size_t m = std::min<size_t>(n, av);
  memcpy(&out[0], h.d->data() + h.rp, m); h.rp += m;
  if (m < n) { h.eof = h.fail = true; return m; }
  h.crc = crc32(h.crc, out.data(), n);
  return m;
}
// the order in which lattice sites travel
static std::vector<long> sites(const Model& m, const Op& o, int mode) {
  std::vector<long> v;
  auto cell = [&](int i) { int c[4]; for (int k = 0; k < 4; ++k) c[k] = (int)o.arg(i + k); return lex(c, m.L); };
  switch (mode) {
    case 1: for (long s = 0; s < m.vol; ++s) if (m.insub(o.arg(3), o.arg(4), s)) v.push_back(s); break;
    case 2: v.push_back(cell(3)); break;
    case 3: for (long s = o.arg(3); s < o.arg(4); ++s) v.push_back(s); break;
    case 5: { long t = m.vol / m.L[3]; for (long s = o.arg(3) * t; s < (o.arg(3) + 1) * t; ++s) v.push_back(s); break; }
    default: for (long s = 0; s < m.vol; ++s) v.push_back(s);
  }
  return v;
}
static void put_sites(const Model& m, MIo& h, int kind, const Vec& f, const std::vector<long>& st) {
  std::string b; int w = kinfo(kind).words;
  for (long s : st) for (int j = 0; j < w; ++j) b += elem_bytes(kind, f[s * w + j]);
  put(h, b);
}
static MField get_sites(const Model& m, MIo& h, int kind, const MField& was, const std::vector<long>& st) {
  const Vec& old = *was.v; MField r; r.kind = kind; Vec f = old; int w = kinfo(kind).words, ws = kinfo(kind).wsize;
  std::string b; size_t got = take(h, st.size() * w * ws, b);
  std::shared_ptr<std::vector<char>> mask; if (was.mask) mask = std::make_shared<std::vector<char>>(*was.mask);
  size_t k = 0;
  for (long s : st) for (int j = 0; j < w; ++j, k += ws) {
    if (k + ws <= got) { f[s * w + j] = elem_val(kind, &b[k]); if (mask) (*mask)[s * w + j] = 1; }
    else { if (!mask) mask = std::make_shared<std::vector<char>>(f.size(), 1); (*mask)[s * w + j] = 0; }
  }
  r.v = std::make_shared<const Vec>(std::move(f)); r.mask = mask; return r;
}
// ---- scalars and containers ----------------------------------------------------------------
static std::string val_bytes(int t, unsigned s) {
  switch (t) {
#define VB(k, T) case k: return be(Val<T>::get(s));
    SIMIO_TYPES(VB)
    case T_CF: return be(Val<float>::get(s)) + be(Val<float>::get(s + 1));
    case T_CD: return be(Val<double>::get(s)) + be(Val<double>::get(s + 1));
  }
  sim_bug("value type %d", t);
}
static size_t tsize(int t) {
  switch (t) {
#define TSZ(k, T) case k: return sizeof(T);
    SIMIO_TYPES(TSZ)
    case T_CF: return 8; case T_CD: return 16;
  }
  sim_bug("type size %d", t);
}
static std::string native(int t, const std::string& b) {
  if (t == T_CF || t == T_CD) { size_t h = b.size() / 2; std::string x = b.substr(0, h), y = b.substr(h); return std::string(x.rbegin(), x.rend()) + std::string(y.rbegin(), y.rend()); }
  return std::string(b.rbegin(), b.rend());
}
static std::string arr_elem(int t, unsigned s) { return val_bytes(t, s); }
// sizes written before the elements, number of elements
static void arr_shape(int c, const long* n, std::vector<int>& head, long& ne) {
  auto N = [&](int i) { return (int)n[i]; };
  head.clear(); ne = 1;
  switch (c) {
    case A_M1: case A_VEC: case A_LIST: case A_A1O: case A_MAP: head = {N(0)}; ne = n[0]; break;
    case A_M1N: ne = n[0]; break;
    case A_M2: head = {N(1), N(0)}; ne = n[0] * n[1]; break;
    case A_M3: head = {N(2), N(1), N(0)}; ne = n[0] * n[1] * n[2]; break;
    case A_M4: head = {N(3), N(2), N(1), N(0)}; ne = n[0] * n[1] * n[2] * n[3]; break;
    case A_M5: head = {N(4), N(3), N(2), N(1), N(0)}; ne = n[0] * n[1] * n[2] * n[3] * n[4]; break;
    case A_MN: head = {3, N(0), N(1), N(2)}; ne = n[0] * n[1] * n[2]; break;
    case A_PAIR: head = {N(0)}; ne = 1; break;
  }
}
static std::string arr_write(int c, int t, unsigned s, const long* n) {
  std::vector<int> head; long ne; arr_shape(c, n, head, ne); std::string b;
  for (int x : head) b += be(x);
  for (long i = 0; i < ne; ++i) { if (c == A_MAP) b += be((int)i * 3 - 4); b += arr_elem(t, s + 13 * (unsigned)i); }
  return b;
}
// what reading gives: sizes in the order size1, size2.., then elements, native byte order; false: cut short
static bool arr_read(MIo& h, int c, int t, const long* n, std::string& out) {
  std::string b; out.clear();
  auto i4 = [&](int& v) { if (take(h, 4, b) < 4) return false; v = unbe<int>(b); return true; };
  auto nat = [&](int v) { out.append((const char*)&v, 4); };
  auto el = [&](void) { size_t z = tsize(t); if (take(h, z, b) < z) return false; out += native(t, b); return true; };
  int nh = c == A_M2 ? 2 : c == A_M3 ? 3 : c == A_M4 ? 4 : c == A_M5 ? 5 : c == A_M1N ? 0 : 1; std::vector<int> z(nh);
  for (int i = 0; i < nh; ++i) if (!i4(z[i])) return false;
  long ne = 1;
  if (c == A_M1N) ne = n[0];
  else if (c == A_MN) { int r = z[0]; z.resize(r); for (int& x : z) if (!i4(x)) return false; for (int x : z) { nat(x); ne *= x; } }
  else if (c == A_PAIR) nat(z[0]);
  else { for (int i = nh - 1; i >= 0; --i) { nat(z[i]); ne *= z[i]; } }
  for (long i = 0; i < ne; ++i) {
    if (c == A_MAP) { int k; if (!i4(k)) return false; nat(k); }
    if (!el()) return false;
  }
  return true;
}
template <class T> static std::string text(const T& x) { std::ostringstream o; o << x; return o.str(); }
static std::string text_of(int kind, int t, unsigned s) {
  bool std_ = kind == K_COUT || kind == K_CERR;
  std::ostringstream o;
  switch (t) {
    case T_FLOAT: if (std_) o.precision(7); o << TVal<float>::get(s); return o.str();
    case T_DOUBLE: if (std_) o.precision(15); o << TVal<double>::get(s); return o.str();
    case T_LD: o << (long double)TVal<double>::get(s); return o.str();
#define TX(k, T) case k: return text(TVal<T>::get(s));
    TX(0, char) TX(1, int) TX(2, unsigned int) TX(3, short) TX(4, unsigned short) TX(5, long) TX(6, unsigned long) TX(7, long long) TX(10, bool)
  }
  sim_bug("text type %d", t);
}
static std::string obj_text(int kind, int t, unsigned s) {
  bool std_ = kind == K_COUT || kind == K_CERR; std::ostringstream o; int n = obj_words(t);
  auto w = [&](int j) { unsigned x = s + 13 * (unsigned)j;
    switch (t) { case B_INT: case B_SEED: return text_of(kind, T_INT, x); case B_RF: case B_CF: case B_CVF: return text_of(kind, T_FLOAT, x); case B_BOOL: return text_of(kind, T_BOOL, x); default: return text_of(kind, T_DOUBLE, x); } };
  if (t == B_SUMD) { o.precision(15); o << 2.5 + TVal<int>::get(s) % 1000; return o.str(); }
  if (t == B_SEED) { for (int j = 0; j < 4; ++j) o << w(j) << (std_ && j < 3 ? " " : "\n"); return o.str(); }
  if (n == 1) return w(0);
  for (int j = 0; j < n; j += 2) if (std_) o << "( " << w(j) << " , " << w(j + 1) << " )"; else o << w(j) << w(j + 1);
  return o.str();
}
template <class T> static std::string text_get(std::istringstream& i) { T x; memset((void*)&x, 0, sizeof x); i >> x; return std::string((const char*)&x, sizeof x); }
void disk_op(const Op& o) {
  if (o.name != "disk.text") count(("fault." + o.name).c_str());
  auto cut = [&](std::string& d) {
    if (o.name == "disk.trunc") { long n = o.arg(1) > 0 ? (long)d.size() - o.arg(1) : (long)d.size() * o.arg(0) / 1000; if (n < 0) n = 0; if (n < (long)d.size()) d.resize(n); }
    else if (o.name == "disk.flip" && d.size()) d[o.arg(0) % d.size()] ^= (char)(1 << (o.arg(1) & 7));
    else if (o.name == "disk.append") d += o.s.at(1);
  };
  auto m = mfs().find(o.s.at(0));
  if (o.name == "disk.rm") { if (m != mfs().end()) mfs().erase(m); fs().files.erase(o.s[0]); return; }
  if (o.name == "disk.text") {
    mfs()[o.s[0]] = std::make_shared<std::string>(o.s.at(1));
    auto f = std::make_shared<FsFile>(); f->data = o.s[1]; f->born = fs().seq++; fs().files[o.s[0]] = f; return;
  }
  if (m != mfs().end()) { m->second = std::make_shared<std::string>(*m->second); cut(*m->second); }
  auto r = fs().files.find(o.s[0]); if (r != fs().files.end()) cut(r->second->data);
}
void model_io_start() { mio.clear(); marks.clear(); snaps.clear(); missing.clear(); }
bool model_io(Model& m, const Op& o, Expect& e) {
  const std::string& n = o.name; int op = (int)(&o - &m.ph->ops[0]);
  if (n.compare(0, 5, "disk.") == 0) { disk_op(o); return true; }
  if (n.compare(0, 3, "io.") != 0) return false;
  auto val = [&](double v) { e.has_values = true; e.values = {v}; };
  auto str = [&](const std::string& s) { e.has_string = true; e.str = s; };
  if (n == "io.open") {
    MIo& h = mio[(int)o.arg(0)]; h = MIo(); h.kind = (int)o.arg(1); h.path = o.s.empty() ? "" : o.s[0];
    if (h.kind == K_FW || h.kind == K_TFW) { h.d = mfs()[h.path] = std::make_shared<std::string>(); return true; }
    if (h.kind == K_FRW && o.arg(5)) { h.d = mfs()[h.path] = std::make_shared<std::string>(); return true; }
    if (h.isfile()) {
      auto f = mfs().find(h.path);
      if (f == mfs().end()) { missing.insert(op); h.d = std::make_shared<std::string>(); h.fail = true; }
      else { h.d = f->second; snaps[op] = {h.path, *h.d}; }
    } else if (h.kind == K_COUT || h.kind == K_CERR) { h.d = std::make_shared<std::string>(); h.real = o.arg(5); }
    else h.d = std::make_shared<std::string>(o.arg(3, -1) >= 0 ? *mio.at((int)o.arg(3)).d : h.path);
    if (h.kind == K_BW || h.kind == K_TBW || h.kind == K_BRW) { if (!o.arg(2) && !o.arg(6)) h.d = std::make_shared<std::string>(); }
    if (h.kind == K_TFR || h.kind == K_TBR || h.kind == K_CIN) h.ti = std::make_shared<std::istringstream>(*h.d);
    return true;
  }
  if (n == "io.info") {
    std::string msg = o.arg(1) < 0 ? o.s.at(0) : std::to_string(o.arg(1)) + ": " + o.s.at(0) + "."; val((double)msg.size());
    for (auto& x : mio) if (x.second.real && (x.second.kind == K_CERR) == !!o.arg(0)) put(x.second, "QDP m0,n" + std::to_string(m.ph->nodes) + "@simhost " + (o.arg(0) ? "error" : "info") + ":  " + msg + "\n");
    return true;
  }
  size_t hi = (n == "io.plat" || n == "io.glat" || n == "io.posc" || n == "io.gosc") ? 1 : 0;
  MIo& h = mio.at((int)o.arg(hi));
  if (n == "io.reopen") {
    MIo k; k.kind = h.kind; k.path = o.s.at(0); k.d = h.d; h = k;
    if (h.kind == K_FW || h.kind == K_TFW) h.d = mfs()[h.path] = std::make_shared<std::string>();
    else {
      auto f = mfs().find(h.path); if (f == mfs().end()) { missing.insert(op); h.fail = true; } else { h.d = f->second; snaps[op] = {h.path, *h.d}; }
      if (h.kind == K_TFR) h.ti = std::make_shared<std::istringstream>(*h.d);
    }
    return true;
  }
  if (n == "io.close" || n == "io.flush" || n == "io.del") {
    if (h.isfile() && h.writer() && (h.open || n == "io.del")) snaps[op] = {h.path, *h.d};
    if (n == "io.close") h.open = false;
    if (n == "io.del") mio.erase((int)o.arg(0));
    return true;
  }
  if (n == "io.isopen") { val(h.open); return true; }
  if (n == "io.str") { str(*h.d); return true; }
  if (n == "io.clear") { h.fail = h.eof = false; h.crc = 0; return true; }
  if (n == "io.fail") { if (!h.vague) val(h.ti ? h.ti->fail() : h.fail); if (h.isfile() && h.writer()) snaps[op] = {h.path, *h.d}; return true; }
  if (n == "io.chk") { if (!h.fail && !h.eof && !h.vague) val((double)h.crc); return true; }
  if (n == "io.rchk") { h.crc = 0; return true; }
  bool face_w = h.kind == K_FW || h.kind == K_BW;
  long& pos = face_w ? h.wp : h.rp;
  if (n == "io.pos" || n == "io.mark") {
    if (h.eof) h.fail = true;
    double p = h.fail ? -1 : (double)pos;
    if (n == "io.mark") marks[{(int)o.arg(0), (int)o.arg(2)}] = (long)p;
    if (!h.vague) val(p);
    return true;
  }
  if (n == "io.seek") {
    int mh = (int)o.arg(5, -1); if (mh < 0) mh = (int)o.arg(0);
    h.eof = false; h.crc = 0;
    if (!h.fail) pos = o.arg(2) == 4 ? 0 : o.arg(2) == 3 ? (long)h.d->size() - (marks.at({mh, (int)o.arg(4)}) - marks.at({mh, (int)o.arg(3)})) : marks.at({mh, (int)o.arg(3)});
    return true;
  }
  if (n == "io.plat") {
    int slot = (int)o.arg(0), kind = m.slots.at(slot).kind;
    if (o.arg(2) == 4) {
      std::string b = be((int)2); put(h, b);
      auto st = sites(m, o, 0); put_sites(m, h, kind, *m.get(slot), st); put_sites(m, h, kind, *m.get((int)o.arg(3)), st);
    } else put_sites(m, h, kind, *m.get(slot), sites(m, o, (int)o.arg(2)));
    return true;
  }
  if (n == "io.glat") {
    int slot = (int)o.arg(0), kind = m.slots.at(slot).kind;
    auto got = [&](int s, const std::vector<long>& st) { m.slots[s] = get_sites(m, h, kind, m.slots.at(s), st); e.fields[s] = m.slots[s]; };
    if (o.arg(2) == 4) {
      std::string b; int s2 = (int)o.arg(3);
      if (take(h, 4, b) < 4) { e.fields[slot] = m.slots[slot]; e.fields[s2] = m.slots[s2]; return true; }
      auto st = sites(m, o, 0); got(slot, st); got(s2, st);
    } else got(slot, sites(m, o, (int)o.arg(2)));
    return true;
  }
  if (n == "io.posc") {
    int kind = m.slots.at((int)o.arg(0)).kind; std::string b;
    for (int j = 0; j < kinfo(kind).words; ++j) b += elem_bytes(kind, fillval(o.arg(2), 9, j, kind));
    put(h, b); return true;
  }
  if (n == "io.gosc") {
    int kind = m.slots.at((int)o.arg(0)).kind, w = kinfo(kind).words, ws = kinfo(kind).wsize; std::string b;
    if ((int)take(h, w * ws, b) == w * ws) { e.has_values = true; for (int j = 0; j < w; ++j) e.values.push_back(elem_val(kind, &b[j * ws])); }
    return true;
  }
  int t = (int)o.arg(1); unsigned sd = (unsigned)o.arg(2);
  if (n == "io.gle") { std::string b; unsigned c = h.crc; size_t z = tsize((int)o.arg(2)); if (take(h, z, b) == z) str(b); h.crc = c; return true; }
  if (n == "io.put") {
    if (t == T_STR) { put(h, o.s.at(0)); put(h, "\n"); }
    else if (t == T_DESC) { put(h, be((int)o.s.at(0).size())); put(h, o.s[0]); }
    else if (t == T_CF || t == T_CD) { std::string b = val_bytes(t, sd); put(h, b.substr(0, b.size() / 2)); put(h, b.substr(b.size() / 2)); }
    else put(h, val_bytes(t, sd));
    return true;
  }
  if (n == "io.get") {
    std::string b;
    if (t == T_STR) {
      if (h.fail || h.eof) { h.fail = true; return true; }
      size_t mx = (size_t)o.arg(4); std::string r; bool ended = false; long sz = (long)h.d->size();
      while (r.size() + 1 < mx && h.rp < sz) { char c = (*h.d)[h.rp++]; if (c == '\n') { ended = true; break; } r += c; }
      bool any = ended || !r.empty();
      if (!ended) {
        if (h.rp >= sz) { h.eof = true; if (any) h.vague = true; else h.fail = true; }      // a last line without its end
        else if ((*h.d)[h.rp] == '\n') { ++h.rp; ended = true; }
        else h.fail = true;
      }
      if (ended) { h.crc = crc32(h.crc, r.data(), r.size()); h.crc = crc32(h.crc, "\n", 1); str(r); }
      return true;
    }
    if (t == T_DESC) {
      if (take(h, 4, b) < 4) return true;
      int len = unbe<int>(b); if ((int)take(h, len, b) < len) return true;
      str(b); return true;
    }
    size_t z = tsize(t);
    if (t == T_CF || t == T_CD) { std::string c; size_t k = take(h, z / 2, b); size_t l = take(h, z / 2, c); if (k + l == z) str(native(t, b + c)); return true; }
    if (take(h, z, b) == z) str(native(t, b));
    return true;
  }
  if (n == "io.parr" || n == "io.garr") {
    long dim[5]; for (int i = 0; i < 5; ++i) dim[i] = o.arg(4 + i);
    int c = (int)o.arg(1), ty = (int)o.arg(2);
    if (n == "io.parr") { put(h, arr_write(c, ty, (unsigned)o.arg(3), dim)); return true; }
    std::string out; if (arr_read(h, c, ty, dim, out)) str(out);
    return true;
  }
  if (n == "io.tput") {
    bool crc = false; (void)crc;
    if (t == T_STR) { put(h, o.s.at(0)); if ((h.kind == K_COUT || h.kind == K_CERR) && o.arg(3) == 2) put(h, "\n"); } else put(h, text_of(h.kind, t, sd));
    return true;
  }
  if (n == "io.oput") { put(h, obj_text(h.kind, t, sd)); return true; }
  if (n == "io.oget") {
    std::istringstream& i = *h.ti; std::string r;
    for (int j = 0, nw = obj_words(t); j < nw; ++j) switch (t) {
      case B_INT: case B_SEED: r += text_get<int>(i); break; case B_RF: case B_CF: case B_CVF: r += text_get<float>(i); break; case B_BOOL: r += text_get<bool>(i); break; default: r += text_get<double>(i);
    }
    if (!i.fail()) str(r);
    return true;
  }
  if (n == "io.tget") {
    std::istringstream& i = *h.ti;
    switch (t) {
#define TG(k, T) case k: { std::string r = text_get<T>(i); if (!i.fail()) str(r); break; }
      SIMIO_TYPES(TG)
      case T_STR: { std::string r; i >> r; if (!i.fail()) str(r); break; }
      case T_LD: { long double x = 0; i >> x; double d = (double)x; if (!i.fail()) str(std::string((char*)&d, 8)); break; }
      case T_IARR: { int a[3] = {0, 0, 0}; for (int& x : a) i >> x; if (!i.fail()) str(std::string((char*)a, 12)); break; }
    }
    return true;
  }
  return false;
}
// ---- oracle -----------------------------------------------------------------------------------
static const Op& opof(int op) { static const Op none; auto& v = g_spec->phases[g_phase].ops; return op >= 0 && op < (int)v.size() ? v[op] : none; }
static bool isio(const std::string& n) { return n.compare(0, 3, "io.") == 0; }
static int handle_of(const Op& o) { bool one = o.name == "io.plat" || o.name == "io.glat" || o.name == "io.posc" || o.name == "io.gosc"; return (int)o.arg(one ? 1 : 0); }
void IoOracle::phase_begin(int ph) { PlainOracle::phase_begin(ph); first.clear(); cnt.clear(); bad.clear(); failval.clear(); why.clear(); stale.clear(); tainted.clear(); }
void IoOracle::agree(int node, int op, const std::string& b) {
  int k = cnt[{node, op}]++;
  auto i = first.emplace(std::make_pair(op, k), b);
  if (i.first->second != b) violation("io.nodes-differ", "node %d and another node see different results of %s (\"%.40s\" and \"%.40s\")", node, opof(op).name.c_str(), b.c_str(), i.first->second.c_str());
}
void IoOracle::mismatch(int node, int op, const char* cls, const char* msg) {
  if (op >= 0 && g_fault.injected > 0 && isio(opof(op).name)) { bad[op] = true; if (!why.count(op)) why[op] = msg; if (cur_slot >= 0) tainted.insert({node, cur_slot}); return; }
  if (op >= 0 && cur_slot >= 0 && !isio(opof(op).name) && tainted.count({node, cur_slot})) return;
  violation(cls, "%s", msg);
}
void IoOracle::on_field(int node, int op, int slot, int kind, const void* w, long ns) { cur_slot = slot; PlainOracle::on_field(node, op, slot, kind, w, ns); cur_slot = -1; }
void IoOracle::on_values(int node, int op, const double* v, int n) {
  if (op >= 0 && isio(opof(op).name)) {
    char b[400]; std::string s; for (int i = 0; i < n; ++i) { snprintf(b, sizeof b, "%.17g ", v[i]); s += b; }
    agree(node, op, s);
    if (opof(op).name == "io.fail") {
      failval[op] = v[0];
      if (node == 0 && v[0] == 0 && g_fault.injected > 0 && op > 0) {      // a settled writer that claims success
        const Op& q = opof(op - 1); int h = handle_of(opof(op));
        if ((q.name == "io.close" || q.name == "io.flush") && handle_of(q) == h) {
          auto s = snaps.find(op - 1);
          if (s != snaps.end()) {
            auto f = fs().files.find(s->second.path);
            if (f == fs().files.end() || f->second->data != s->second.data) {
              bool dead = false; for (int k = 0; k < op; ++k) if (opof(k).name == "io.fail" && handle_of(opof(k)) == h && failval.count(k) && failval[k] != 0) dead = true;
              if (!dead) violation("io.lost-write", "%s reports success, but %s holds %ld bytes instead of the %zu written", q.name.c_str(), s->second.path.c_str(), f == fs().files.end() ? -1L : (long)f->second->data.size(), s->second.data.size());
            }
          }
        }
      }
    }
    if ((opof(op).name == "io.pos" || opof(op).name == "io.mark") && v[0] == -1 && g_fault.injected > 0) failval[op] = 1;
  }
  PlainOracle::on_values(node, op, v, n);
}
void IoOracle::on_string(int node, int op, const std::string& s) {
  if (op >= 0 && isio(opof(op).name)) agree(node, op, s);
  PlainOracle::on_string(node, op, s);
}
void IoOracle::op_begin(int node, int op) {
  const Op& o = opof(op);
  if (o.name == "fill") tainted.erase({node, (int)o.arg(0)});
  if (node == 0 && (o.name == "io.open" || o.name == "io.reopen") && g_fault.injected > 0) {
    auto s = snaps.find(op);
    if (s != snaps.end()) { auto f = fs().files.find(s->second.path); if (f == fs().files.end() || f->second->data != s->second.data) stale[op] = true; }
  }
}
void IoOracle::op_end(int node, int op) {
  const Op& o = opof(op);
  if (missing.count(op)) violation("io.open-missing", "%s of a file that does not exist returned on node %d", o.name.c_str(), node);
  if (node == 0 && g_fault.injected == 0 && (o.name == "io.close" || o.name == "io.flush" || o.name == "io.del")) {
    auto s = snaps.find(op); if (s == snaps.end()) return;
    auto f = fs().files.find(s->second.path);
    if (f == fs().files.end()) violation("io.bytes", "file %s does not exist after %s", s->second.path.c_str(), o.name.c_str());
    const std::string& a = f->second->data; const std::string& b = s->second.data;
    if (a != b) {
      size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
      violation("io.bytes", "after %s, file %s has %zu bytes, expected %zu; first difference at byte %zu", o.name.c_str(), s->second.path.c_str(), a.size(), b.size(), i);
    }
  }
}
bool IoOracle::may_stop(int node) {
  if (PlainOracle::may_stop(node)) return true;
  for (int m : missing) for (Node* n : g_nodes) if (n->opidx == m) return n->end == NE_DONE ? false : true;
  return false;
}
void IoOracle::phase_end(int ph, bool clean) {
  PlainOracle::phase_end(ph, clean);
  if (!missing.empty() && clean) violation("io.open-missing", "opening a missing file did not stop the program");
  std::map<int, int> suspect; std::set<int> dead;
  const auto& ops = g_spec->phases[ph].ops;
  for (int i = 0; i < (int)ops.size(); ++i) {
    const Op& o = ops[i]; if (!isio(o.name)) continue;
    int h = handle_of(o);
    if (o.name == "io.open" || o.name == "io.reopen") {
      suspect.erase(h); dead.erase(h);
      if (stale.count(i)) dead.insert(h);
      long src = o.name == "io.open" ? o.arg(3, -1) : -1; if (src >= 0 && dead.count((int)src)) dead.insert(h);
    }
    if (dead.count(h)) continue;
    auto f = failval.find(i);
    if (f != failval.end()) {
      if (f->second == 0 && suspect.count(h)) violation("io.silent-failure", "stream %d reports success although op %d %s went wrong: %s", h, suspect[h], ops[suspect[h]].name.c_str(), why[suspect[h]].c_str());
      if (f->second != 0) { dead.insert(h); continue; }
    }
    if (bad.count(i) && !suspect.count(h) && o.name != "io.fail") suspect[h] = i;
  }
}
Oracle* io_oracle() { return new IoOracle; }

// ---- generators ---------------------------------------------------------------------------------
static void mach_threads(Gen& g) { if (g.p->variant.find("omp") != std::string::npos) g.p->threads = g.r.range(1, 4); }
// another machine for the same lattice
void rephase(Gen& g, const std::string& variant, int maxnodes, const int* L) {
  g.s.phases.emplace_back(); g.p = &g.s.phases.back(); Phase& p = *g.p;
  g.sl.clear(); g.nextslot = 0; g.sets.clear();
  g.scalar = variant.compare(0, 2, "sc") == 0; bool even = variant.find("-cb2") != std::string::npos || variant.find("-cb3d") != std::string::npos;
  p.variant = variant; p.nodes = 1; g.vol = 1;
  for (int i = 0; i < 4; ++i) { p.latt[i] = L[i]; p.geom[i] = 1; g.vol *= L[i]; }
  if (!g.scalar) for (int t = 0; t < 6; ++t) {
    int ax = g.r.below(4), f = g.r.below(3) ? 2 : 3, q = L[ax] / p.geom[ax];
    if (p.nodes * f > maxnodes || q % f || (ax == 0 && even && (q / f) % 2)) continue;
    p.geom[ax] *= f; p.nodes *= f;
  }
  p.use_geom_arg = g.scalar ? 0 : 1; p.perm.clear(); p.threads = 1;
  if (!g.scalar && p.nodes > 1 && g.r.below(2)) { for (int i = 0; i < p.nodes; ++i) p.perm.push_back(i); for (int i = p.nodes - 1; i > 0; --i) std::swap(p.perm[i], p.perm[g.r.below(i + 1)]); }
  mach_threads(g);
}
static std::string io_variant(Gen& g, const int* L) {
  if (L && L[0] % 2) return pickv(g, {"ps-lex", "sc-lex"});
  if (L && (L[0] % 4 || L[1] % 2 || L[2] % 2 || L[3] % 2 || g.r.below(3))) return pickv(g, {"ps-cb2", "ps-cb2", "ps-lex", "ps-cb3d", "sc-cb2", "sc-lex", "sc-cb3d"});
  return pickv(g, {"ps-cb2", "ps-cb2", "ps-lex", "ps-cb3d", "sc-cb2", "sc-lex", "sc-cb3d", "sc-cb32"});
}
std::string rstr(Gen& g, int max, bool word) {
  std::string s; int n = word ? 1 + g.r.below(max) : g.r.below(max + 1);
  for (int i = 0; i < n; ++i) { int c = word ? g.r.range(33, 126) : g.r.range(1, 255); if (c == '\n') c = ' '; s += (char)c; }
  return s;
}
// a length that is mostly small and now and then around or beyond a power of two that a buffer may have
int blen(Gen& g, int small) {
  static const int v[] = {127, 128, 255, 256, 257, 300, 511, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 20000, 32767, 32768, 65535, 65536, 65537, 70000};
  if (g.r.below(12)) return small; int w = g.r.below(3); return v[g.r.below(w ? w == 1 ? 6 : 14 : 24)];
}
std::string bstr(Gen& g, int max, bool word) { int n = blen(g, -1); if (n < 0) return rstr(g, max, word); std::string s = rstr(g, 50, true), r; while ((int)r.size() < n) r += s; r.resize(n); return r; }
// something that can be written to a binary stream and read again
struct Rec { char what; std::vector<long> a; std::string s; long pat; };
struct Files { std::map<std::string, std::vector<Rec>> recs; int nexth = 0; };
static const std::vector<int> LATK = {K_I, K_B, K_R, K_D, K_C, K_V, K_M};
static Rec new_rec(Gen& g, int mix) {       // mix: 0 fields, 1 values, 2 both
  Rec r; r.pat = 0;
  bool lat = mix == 0 || (mix == 2 && g.r.below(3) == 0);
  if (lat) {
    int k = LATK[g.r.below((int)LATK.size())]; if (g.vol > 100 && k == K_M) k = K_V;
    if (mix == 0 && g.r.below(12) == 0 && k != K_B) return {'o', {k}, "", (long)g.r.below(400)};
    int mode = g.r.below(8); static const int md[] = {0, 0, 1, 1, 2, 3, 4, 5}; mode = md[mode];
    if (k == K_B && (mode == 5 || mode == 1)) mode = 0;
    std::vector<long> a = {k, mode};
    switch (mode) {
      case 1: { long st = g.r.below(S_N); a.push_back(st); a.push_back(g.r.below(set_ncol((int)st, g.p->latt))); break; }
      case 2: { auto c = g.coord(); a.insert(a.end(), c.begin(), c.end()); break; }
      case 3: { long rows = g.vol / g.p->latt[0], x = g.r.below((int)rows + 1), y = g.r.below((int)rows + 1); if (x > y) std::swap(x, y); a.push_back(x * g.p->latt[0]); a.push_back(y * g.p->latt[0]); break; }
      case 5: a.push_back(g.r.below(g.p->latt[3])); break;
    }
    return {'l', a, "", g.pick_pat(k)};
  }
  switch (g.r.below(6)) {
    case 0: { int t = g.r.below(2) ? (int)T_STR : (int)T_DESC; Rec q{'v', {t, 0, g.r.below(5)}, bstr(g, g.r.below(4) ? 12 : 90, false), 0}; if (t == T_DESC && g.r.below(4) == 0) for (char& c : q.s) if (g.r.below(4) == 0) c = 0; return q; }
    case 1: { Rec q{'a', {}, "", 0}; static const int ty[] = {T_INT, T_DOUBLE, T_CHAR, T_CD}; q.a = {g.r.below((int)A_NCONT), ty[g.r.below(4)], (long)g.r.below(100000)}; for (int i = 0; i < 5; ++i) q.a.push_back(g.r.below(10) ? g.r.range(1, 3) : 0); int big = blen(g, 0); if (big && big < 5000 && g.s.prop != "C14") { for (int i = 3; i < 8; ++i) q.a[i] = 1; q.a[3] = big; } return q; }
    case 2: return {'o', {(long)LATK[2 + g.r.below(5)]}, "", (long)g.r.below(400)};
    default: return {'v', {g.r.below(13), (long)g.r.below(100000), g.r.below(3)}, "", 0};
  }
}
static int slot_of(Gen& g, int kind, int i) {      // the i-th slot of a kind
  auto v = g.slots_of(kind); while ((int)v.size() <= i) { g.newslot(kind); v = g.slots_of(kind); } return v[i];
}
static void put_rec(Gen& g, int h, const Rec& r) {
  switch (r.what) {
    case 'l': {
      int s = slot_of(g, (int)r.a[0], 0); g.op("fill", {s, r.pat}); std::vector<long> a = {s, h, r.a[1]};
      if (r.a[1] == 4) { int s2 = slot_of(g, (int)r.a[0], 1); g.op("fill", {s2, r.pat + 40}); a.push_back(s2); }
      a.insert(a.end(), r.a.begin() + 2, r.a.end()); g.op("io.plat", a); break;
    }
    case 'o': g.op("io.posc", {slot_of(g, (int)r.a[0], 0), h, r.pat}); break;
    case 'v': { Op& o = g.op("io.put", {h, r.a[0], r.a[1], r.a[2]}); if (r.a[0] >= T_STR) o.s = {r.s}; else if (r.a[0] >= T_CF) o.a[3] = 0; break; }
    case 'a': { std::vector<long> a = {h}; a.insert(a.end(), r.a.begin(), r.a.end()); g.op("io.parr", a); break; }
  }
}
static void get_rec(Gen& g, int h, const Rec& r, bool refill) {
  switch (r.what) {
    case 'l': {
      int s = slot_of(g, (int)r.a[0], 0); if (refill || g.r.below(2)) g.op("fill", {s, g.pick_pat((int)r.a[0])}); std::vector<long> a = {s, h, r.a[1]};
      if (r.a[1] == 4) { int s2 = slot_of(g, (int)r.a[0], 1); if (refill) g.op("fill", {s2, 8}); a.push_back(s2); }
      if (r.a[1] == 0 && g.r.below(4) == 0 && r.a[0] != K_B) {       // the same bytes, slice by slice
        for (int t = 0; t < g.p->latt[3]; ++t) { g.op("io.glat", {s, h, 5, t}); if (refill) g.op("io.fail", {h, 1}); if (refill) g.op("fill", {s, 4}); }
        break;
      }
      a.insert(a.end(), r.a.begin() + 2, r.a.end()); g.op("io.glat", a); break;
    }
    case 'o': g.op("io.gosc", {slot_of(g, (int)r.a[0], 0), h}); break;
    case 'v': { long mx = (long)r.s.size() + 1 + (g.r.below(3) ? g.r.below(20) : 0); g.op("io.get", {h, r.a[0], r.a[1], r.a[0] >= T_CF && r.a[0] < T_STR ? 0 : r.a[2] % 2, mx}); break; }
    case 'a': { std::vector<long> a = {h}; a.insert(a.end(), r.a.begin(), r.a.end()); g.op("io.garr", a); break; }
  }
}
static int openh(Gen& g, Files& f, int kind, const std::string& path, bool trunc = false) {
  int h = f.nexth++; Op& o = g.op("io.open", {h, kind, g.r.below(2), -1, 0, trunc}); o.s = {path}; return h;
}
static void ask(Gen& g, int h, bool w) { switch (g.r.below(5)) { case 0: g.op("io.chk", {h, w ? 0 : 1}); break; case 1: g.op("io.pos", {h, w ? 0 : 1}); break; case 2: g.op("io.fail", {h, w ? 0 : 1}); break; case 3: if (g.r.below(3) == 0) g.op("io.rchk", {h, w ? 0 : 1}); break; } }
static void settle(Gen& g, int h) {
  if (g.r.below(4) == 0) g.op("io.flush", {h});
  g.op("io.close", {h}); g.op("io.fail", {h, 0});
  if (g.r.below(3) == 0) g.op("io.isopen", {h});
  if (g.r.below(2)) g.op("io.del", {h});
}
static void write_file(Gen& g, Files& f, const std::string& path, int n, int mix) {
  int h = openh(g, f, K_FW, path); auto& rs = f.recs[path]; rs.clear();
  std::vector<int> marked;
  for (int i = 0; i < n; ++i) {
    Rec r = new_rec(g, mix); if (g.r.below(4) == 0) { g.op("io.mark", {h, 0, i}); marked.push_back(i); }
    put_rec(g, h, r); rs.push_back(r); if (g.r.below(3) == 0) ask(g, h, true);
  }
  if (!marked.empty() && g.r.below(2)) {       // overwrite a record in place
    int i = marked[g.r.below((int)marked.size())]; g.op("io.mark", {h, 0, 1000});
    int md = g.r.below(i == 0 ? 6 : 5); if (md == 5) g.op("io.seek", {h, 0, 4}); else if (md >= 3) g.op("io.seek", {h, 0, 3, i, 1000, -1}); else g.op("io.seek", {h, 0, md, i, 0, -1});
    Rec& r = rs[i]; if (r.what == 'l' || r.what == 'o') r.pat += 4; else if (r.what == 'v' && r.a[0] < T_STR) r.a[1] += 1; else if (r.what == 'a') r.a[2] += 1;
    put_rec(g, h, r); ask(g, h, true);
    if (g.r.below(2)) { g.op("io.seek", {h, 0, 0, 1000, 0, -1}); Rec q = new_rec(g, mix); put_rec(g, h, q); rs.push_back(q); }
  }
  if (g.r.below(2)) g.op("io.chk", {h, 0});
  settle(g, h);
}
// a reader in memory: its text, reading past the end, recovering from that
static void reader_extra(Gen& g, int h, const std::vector<Rec>& rs) {
  if (g.r.below(2)) g.op("io.str", {h});
  if (g.r.below(3)) return;
  g.op("io.seek", {h, 1, 0, 2000, 0, -1});
  if (g.r.below(2)) { g.op("io.get", {h, g.r.below(11), 1, g.r.below(2), 0}); g.op("io.fail", {h, 1}); if (g.r.below(2)) g.op("io.pos", {h, 1}); g.op("io.clear", {h}); }
  else g.op("io.clear", {h});
  g.op("io.fail", {h, 1}); g.op("io.pos", {h, 1}); g.op("io.chk", {h, 1});
  g.op("io.seek", {h, 1, 4}); get_rec(g, h, rs[0], false); ask(g, h, false);
}
static void read_records(Gen& g, int h, const std::vector<Rec>& rs, bool seeks, bool whole = true) {
  std::vector<int> marked;
  for (size_t i = 0; i < rs.size(); ++i) {
    if (seeks && g.r.below(3) == 0) { g.op("io.mark", {h, 1, (long)i}); marked.push_back((int)i); }
    if (rs[i].what == 'v' && rs[i].a[0] < T_CF && g.r.below(6) == 0) { g.op("io.gle", {h, g.r.below(2), rs[i].a[0]}); if (g.r.below(2)) ask(g, h, false); continue; }
    get_rec(g, h, rs[i], false); if (g.r.below(3) == 0) ask(g, h, false);
  }
  if (g.r.below(2)) g.op("io.chk", {h, 1});
  g.op("io.mark", {h, 1, 2000});       // the end, when the file holds just these records
  for (int t = 0; t < 3 && !marked.empty(); ++t) {
    int i = marked[g.r.below((int)marked.size())];
    if (g.r.below(6) == 0) { g.op("io.seek", {h, 1, 4}); i = 0; }
    else if (whole && g.r.below(4) == 0) g.op("io.seek", {h, 1, 3, (long)i, 2000, -1});
    else g.op("io.seek", {h, 1, g.r.below(3), (long)i, 0, -1});
    for (int k = i; k < (int)rs.size() && k < i + 2; ++k) get_rec(g, h, rs[k], false);
    ask(g, h, false);
  }
}
Spec g_C11(Gen& g) {
  g.sched(); Files f;
  if (g.r.below(3) == 0) { g.s.k["fs.short"] = g.r.range(5, 60); g.s.k["fs.eintr"] = g.r.below(2) ? g.r.range(2, 20) : 0; }
  g.begin_phase(io_variant(g, nullptr), 12, g.tier ? 256 : 128);
  mach_threads(g);
  int L[4]; for (int i = 0; i < 4; ++i) L[i] = g.p->latt[i];
  int np = g.r.range(1, 3), nf = 0;
  for (int ph = 0; ph < np; ++ph) {
    if (ph) rephase(g, io_variant(g, L), 12, L);
    if (g.vol > 64) {}
    int nw = ph == 0 ? g.r.range(1, 2) : g.r.below(2);
    for (int i = 0; i < nw; ++i) write_file(g, f, "f" + std::to_string(g.r.below(4) && nf ? g.r.below(nf + 1) : nf), g.r.range(1, 4), 0), ++nf;
    for (auto& x : f.recs) if (g.r.below(3) || ph == np - 1) {
      int h = openh(g, f, g.r.below(5) ? (int)K_FR : (int)K_FRW, x.first);
      read_records(g, h, x.second, g.r.below(2));
      if (g.r.below(2)) g.op("io.close", {h});
      if (g.r.below(2)) g.op("io.del", {h});
    }
    if (g.r.below(4) == 0) {       // through memory
      int h = f.nexth++; g.op("io.open", {h, g.r.below(2) ? K_BW : K_BRW, 0, -1, 0, 0, 0}); std::vector<Rec> rs;
      for (int i = g.r.range(1, 3); i > 0; --i) { rs.push_back(new_rec(g, 0)); put_rec(g, h, rs.back()); }
      int q = f.nexth++; g.op("io.open", {q, g.r.below(2) ? K_BR : K_BRW, 1, h, g.r.below(2), 0, 0});
      read_records(g, q, rs, g.r.below(2)); reader_extra(g, q, rs);
    }
    finish(g);
  }
  return g.s;
}
// text streams: values separated by white space
static void text_write(Gen& g, Files& f, const std::string& path, int kind) {
  int h = openh(g, f, kind, kind == K_TBW ? "" : path); auto& rs = f.recs[path]; rs.clear();
  int n = g.r.range(2, 10);
  for (int i = 0; i < n; ++i) {
    Rec r{'t', {g.r.below(11), (long)g.r.below(100000), g.r.below(2)}, "", 0};
    if (g.r.below(4) == 0) { r.a[0] = T_STR; r.s = rstr(g, 14, true); r.a[2] = g.r.below(4); }
    Op& o = g.op("io.tput", {h, r.a[0], r.a[1], r.a[2]}); if (r.a[0] == T_STR) o.s = {r.s};
    rs.push_back(r); Op& q = g.op("io.tput", {h, T_STR, 0, g.r.below(2)}); q.s = {g.r.below(3) ? " " : "\n"};
    if (g.r.below(6) == 0) g.op("io.fail", {h, 0});
  }
  if (kind == K_TBW) { g.op("io.str", {h}); int q = f.nexth++; g.op("io.open", {q, K_TBR, 1, h, g.r.below(2), 0, 0}); f.recs["<" + std::to_string(q)] = rs; rs.clear(); f.recs.erase(path); }
  else settle(g, h);
}
static void text_read(Gen& g, int h, const std::vector<Rec>& rs, bool each) {
  for (auto& r : rs) { g.op("io.tget", {h, r.a[0], 0, g.r.below(2)}); if (each || g.r.below(4) == 0) g.op("io.fail", {h, 1}); }
  if (g.r.below(3) == 0) { g.op("io.tget", {h, g.r.below(10), 0, 0}); g.op("io.fail", {h, 1}); }
}
static std::string stdin_text(Gen& g, std::vector<Rec>& rs) {
  std::string s; int n = g.r.range(1, 8);
  for (int i = 0; i < n; ++i) {
    int t = g.r.below(13); unsigned sd = g.r.below(100000);
    if (t == 11) { rs.push_back({'t', {T_STR, 0, 0}, "", 0}); s += rstr(g, 10, true); }
    else if (t == 12) { rs.push_back({'t', {T_IARR, 0, 0}, "", 0}); for (int k = 0; k < 3; ++k) s += std::to_string(g.r.range(-1000, 1000)) + " "; }
    else { rs.push_back({'t', {t, 0, 0}, "", 0}); s += text_of(K_COUT, t, sd); }
    s += g.r.below(3) ? " " : "\n";
  }
  return s;
}
Spec g_C12(Gen& g) {
  g.sched(); Files f;
  if (g.r.below(3) == 0) { g.s.k["fs.short"] = g.r.range(5, 60); g.s.k["fs.eintr"] = g.r.below(2) ? g.r.range(2, 20) : 0; }
  int np = g.r.range(1, 2), nf = 0; std::set<std::string> texts;
  for (int ph = 0; ph < np; ++ph) {
    g.begin_phase(io_variant(g, nullptr), 8, 32);
    for (int w = g.r.range(1, 4); w > 0; --w) switch (g.r.below(7)) {
      case 0: { std::string p = "t" + std::to_string(nf++); text_write(g, f, p, K_TFW); texts.insert(p); break; }
      case 1: { int q = f.nexth + 1; text_write(g, f, "m", K_TBW); std::string key = "<" + std::to_string(q); if (g.r.below(3) == 0) g.op("io.str", {q}); text_read(g, q, f.recs[key], false); if (g.r.below(3) == 0) g.op("io.str", {q}); f.recs.erase(key); break; }
      case 2: { std::vector<Rec> rs; int h = f.nexth++; Op& o = g.op("io.open", {h, K_CIN, 0, -1, 0}); o.s = {stdin_text(g, rs)}; text_read(g, h, rs, false); g.op("io.del", {h}); break; }
      case 3: {      // memory: initial contents, then writes, then a reader or the same object
        int k = g.r.below(2) ? K_BW : K_BRW; int h = f.nexth++; std::string init = g.r.below(3) ? "" : rstr(g, 20, false); std::vector<Rec> rs;
        Op& o = g.op("io.open", {h, k, g.r.below(2), -1, 0, 0, 1}); o.s = {init};
        int n = g.r.range(1, 6); for (int i = 0; i < n; ++i) { rs.push_back(new_rec(g, 1)); put_rec(g, h, rs.back()); if (g.r.below(4) == 0) g.op(k == K_BW ? "io.chk" : "io.fail", {h, 0}); }
        if (g.r.below(2)) g.op("io.str", {h});
        if (k == K_BRW && g.r.below(2)) { read_records(g, h, rs, true, init.empty()); break; }
        int q = f.nexth++; g.op("io.open", {q, g.r.below(2) ? K_BR : K_BRW, 1, h, g.r.below(2), 0, 0}); read_records(g, q, rs, g.r.below(2), init.empty()); if (init.empty()) reader_extra(g, q, rs);
        break;
      }
      case 4: {      // one object writes and reads a file
        std::string p = "b" + std::to_string(nf++); int h = openh(g, f, K_FRW, p, true); auto& rs = f.recs[p];
        int n = g.r.range(1, 5); for (int i = 0; i < n; ++i) { rs.push_back(new_rec(g, 1)); put_rec(g, h, rs.back()); if (g.r.below(4) == 0) ask(g, h, true); }
        if (g.r.below(2)) g.op("io.flush", {h});
        g.op("io.seek", {h, 0, 4}); read_records(g, h, rs, true); g.op("io.close", {h}); if (g.r.below(2)) g.op("io.del", {h});
        break;
      }
      default: write_file(g, f, "b" + std::to_string(nf++), g.r.range(1, 7), 1);
    }
    for (auto& x : f.recs) if (x.first[0] == 'b' && (g.r.below(2) || ph == np - 1)) {
      int h = openh(g, f, g.r.below(5) ? (int)K_FR : (int)K_FRW, x.first); read_records(g, h, x.second, g.r.below(2)); if (g.r.below(2)) g.op("io.close", {h}); if (g.r.below(2)) g.op("io.del", {h});
    } else if (x.first[0] == 't') { int h = openh(g, f, K_TFR, x.first); text_read(g, h, x.second, false); if (g.r.below(2)) g.op("io.close", {h}); g.op("io.del", {h}); }
    finish(g);
  }
  return g.s;
}
// everything that prints, and input for everybody
Spec g_C20(Gen& g) {
  g.sched(); Files f; int np = g.r.range(1, 2);
  std::vector<std::pair<std::string, std::vector<Rec>>> made;       // text files to be read later
  for (int ph = 0; ph < np; ++ph) {
    g.begin_phase(io_variant(g, nullptr), 8, 32);
    auto objtext = [&](std::vector<Rec>& rs, bool cin) {
      std::string s;
      for (int i = 0, n = g.r.range(1, 8); i < n; ++i) {
        static const int CI[] = {B_INT, B_RF, B_RD, B_BOOL, B_SEED}; int t = cin ? CI[g.r.below(5)] : g.r.below((int)B_SUMD); unsigned sd = g.r.below(100000);
        rs.push_back({'q', {t}, "", 0});
        for (int j = 0; j < obj_words(t); ++j) { int e = t == B_INT || t == B_SEED ? T_INT : t == B_BOOL ? T_BOOL : T_DOUBLE; s += text_of(K_COUT, e, e == T_DOUBLE ? 5 + 9 * (sd % 1000) + 9 * j : sd + j); s += g.r.below(3) ? " " : "\n"; }
      }
      if (g.r.below(4) == 0) s += rstr(g, 6, true);
      return s;
    };
    auto readobj = [&](int h, std::vector<Rec>& rs) { for (auto& r : rs) { g.op("io.oget", {h, r.a[0], 0}); if (g.r.below(4) == 0) g.op("io.fail", {h, 1}); } if (g.r.below(4) == 0) { g.op("io.oget", {h, B_RD, 0}); g.op("io.fail", {h, 1}); } };
    bool fields = g.r.below(2); std::vector<int> k = {K_I, K_R};
    if (fields) { g.newslot(K_I); g.newslot(K_R); g.newslot(K_I); }
    struct W { int h, kind; }; std::vector<W> ws; int rout = -1, rerr = -1;
    auto open = [&] {
      int kind = g.r.below(4), h = f.nexth++;
      static const int KD[] = {K_COUT, K_CERR, K_TFW, K_TBW}; kind = KD[kind];
      bool real = kind == K_COUT || kind == K_CERR; int& cur = kind == K_COUT ? rout : rerr;
      if (real && cur >= 0) { g.op("io.str", {cur}); g.op("io.fail", {cur, 0}); g.op("io.del", {cur}); for (size_t i = 0; i < ws.size(); ++i) if (ws[i].h == cur) { ws.erase(ws.begin() + i); break; } }
      if (real) cur = h;
      Op& o = g.op("io.open", {h, kind, g.r.below(2), -1, 0, real ? g.r.below(4) > 0 : 0}); o.s = {kind == K_TFW ? "o" + std::to_string(h) : ""};
      ws.push_back({h, kind});
    };
    open();
    for (int n = g.r.range(3, g.tier ? 80 : 40); n > 0; --n) {
      int c = g.r.below(20);
      if (c < 3 && ws.size() < 5) { open(); continue; }
      if (c < 4 && fields) { g.r.below(2) ? g.op_arith(k) : g.op_reduce(k); continue; }
      if (c < 5) { std::vector<Rec> rs; int h = f.nexth++; std::string t = g.r.below(2) ? stdin_text(g, rs) : objtext(rs, true); Op& o = g.op("io.open", {h, K_CIN, 0, -1, 0}); o.s = {t}; if (rs[0].what == 'q') readobj(h, rs); else text_read(g, h, rs, false); g.op("io.del", {h}); continue; }
      if (c < 6) { std::string p = "i" + std::to_string(f.nexth); std::vector<Rec> rs; std::string t = objtext(rs, false); Op d; d.name = "disk.text"; d.s = {p, t}; g.p->ops.insert(g.p->ops.begin(), d); int h = openh(g, f, K_TFR, p); readobj(h, rs); g.op("io.del", {h}); continue; }
      if (c < 8) { Op& o = g.op("io.info", {g.r.below(2), g.r.below(2) ? -1 : (long)g.r.below(1000000)}); int w = g.r.below(12); long len = g.r.range(900, 3000);
        if (g.r.below(2)) { len = (256L << g.r.below(4)) + g.r.range(-1, 1); if (o.a[1] >= 0) len -= 3 + (long)std::to_string(o.a[1]).size(); }   // the whole message near a power of two
        o.s = {w <= 1 ? std::string(len, (char)('a' + g.r.below(26))) : rstr(g, 60, false)}; continue; }
      W w = ws[g.r.below((int)ws.size())];
      if (c < 9) { g.op("io.flush", {w.h}); if (w.kind == K_TBW) g.p->ops.pop_back(); continue; }
      if (c < 10) { g.op("io.fail", {w.h, 0}); continue; }
      if (c < 14) { bool st = w.kind == K_COUT || w.kind == K_CERR; g.op("io.oput", {w.h, g.r.below(st ? (int)B_N : (int)B_SUMD), (long)g.r.below(100000)}); continue; }
      if (c < 17) { Op& o = g.op("io.tput", {w.h, T_STR, 0, g.r.below(3)}); o.s = {rstr(g, g.r.below(6) ? 12 : 3000, false)}; continue; }
      bool st = w.kind == K_COUT || w.kind == K_CERR; int t = g.r.below(st ? 12 : 11); g.op("io.tput", {w.h, t == 11 ? (int)T_LD : t, (long)g.r.below(100000), g.r.below(2)});
    }
    for (auto& w : ws) {
      if (w.kind == K_TFW) { settle(g, w.h); continue; }
      g.op("io.str", {w.h}); g.op("io.fail", {w.h, 0}); if (g.r.below(2)) g.op("io.del", {w.h});
    }
    finish(g);
  }
  if (g.r.below(4) == 0) { if (g.r.below(2)) g.s.k["fat.out.fail"] = 1 + g.r.below(60); else { g.s.k["f.out.fail"] = g.r.below(2) ? 20 : 200; g.s.k["f.max"] = g.r.below(2) ? 1 : 3; } }
  return g.s;
}
Spec g_C13(Gen& g) {
  g.sched(); Files f;
  g.begin_phase(io_variant(g, nullptr), 8, 64);
  int nf = g.r.range(1, 3);
  for (int i = 0; i < nf; ++i) {
    std::string p = "w" + std::to_string(i); int how = g.r.below(4);
    if (how == 0) {
      int h = openh(g, f, K_TFW, p);
      for (int k = g.r.range(1, 30); k > 0; --k) { Op& o = g.op("io.tput", {h, T_STR, 0, g.r.below(2)}); o.s = {rstr(g, g.r.below(4) ? 20 : 9000, false)}; if (g.r.below(5) == 0) g.op("io.fail", {h, 0}); if (g.r.below(8) == 0) { g.op("io.flush", {h}); g.op("io.fail", {h, 0}); } }
      settle(g, h);
    } else {
      int h = openh(g, f, how == 1 ? (int)K_FRW : (int)K_FW, p, true);
      for (int k = g.r.range(1, 10); k > 0; --k) {
        if (g.r.below(3) == 0) { Op& o = g.op("io.put", {h, T_DESC, 0, 0}); o.s = {std::string(g.r.below(2) ? g.r.below(200) : g.r.below(20000), (char)('a' + k))}; }
        else put_rec(g, h, new_rec(g, 2));
        if (g.r.below(5) == 0) g.op("io.fail", {h, 0});
        if (g.r.below(8) == 0) { g.op("io.flush", {h}); g.op("io.fail", {h, 0}); }
      }
      settle(g, h);
    }
  }
  finish(g);
  int w = g.r.below(12);
  if (w == 0) return g.s;
  if (g.r.below(3) == 0) { g.s.k["fs.short"] = g.r.range(5, 60); g.s.k["fs.eintr"] = g.r.range(0, 20); }
  if (w < 4) g.s.k["fs.cap"] = g.r.below(2) ? g.r.below(600) : g.r.below(30000);
  else {
    static const char* kd[] = {"fs.open-w", "fs.eio-w", "fs.eio-w", "fs.enospc", "fs.enospc", "fs.close", "fs.close"}; std::string k = kd[g.r.below(7)];
    if (g.r.below(2)) g.s.k["fat." + k] = 1 + g.r.below(g.r.below(2) ? 3 : 15); else { static const int pm[] = {50, 150, 400, 1000}; g.s.k["f." + k] = pm[g.r.below(4)]; g.s.k["f.max"] = g.r.below(3) ? 1 : 4; }
  }
  return g.s;
}
Spec g_C14(Gen& g) {
  g.sched(); Files f;
  g.begin_phase(io_variant(g, nullptr), 8, 64);
  int L[4]; for (int i = 0; i < 4; ++i) L[i] = g.p->latt[i];
  int nf = g.r.range(1, 3);
  for (int i = 0; i < nf; ++i) { if (g.r.below(5) == 0) text_write(g, f, "t" + std::to_string(i), K_TFW); else write_file(g, f, "b" + std::to_string(i), g.r.range(1, 5), 2); }
  finish(g);
  bool cut = g.r.below(3), rfault = !cut || g.r.below(4) == 0;
  rephase(g, io_variant(g, L), 8, L);
  if (cut) for (auto& x : f.recs) if (g.r.below(4)) {
    Op o; o.name = "disk.trunc"; o.s = {x.first}; o.a = {0, 0};
    if (g.r.below(2)) o.a[1] = 1 + g.r.below(g.r.below(2) ? 4 : 60); else o.a[0] = g.r.below(8) == 0 ? 0 : g.r.below(1000);
    g.p->ops.push_back(o);
  }
  for (auto& x : f.recs) {
    bool txt = x.first[0] == 't'; int h = openh(g, f, txt ? (int)K_TFR : g.r.below(5) ? (int)K_FR : (int)K_FRW, x.first);
    if (txt) { text_read(g, h, x.second, true); continue; }
    for (size_t i = 0; i < x.second.size(); ++i) { get_rec(g, h, x.second[i], true); g.op("io.fail", {h, 1}); if (g.r.below(6) == 0) g.op("io.pos", {h, 1}); }
    for (int k = g.r.below(3); k > 0; --k) { get_rec(g, h, new_rec(g, 2), true); g.op("io.fail", {h, 1}); }      // beyond the end
    if (g.r.below(3) == 0) g.op("io.close", {h});
  }
  if (g.r.below(8) == 0) openh(g, f, g.r.below(2) ? (int)K_FR : (int)K_TFR, "nothere");
  finish(g);
  if (rfault) {
    std::string k = g.r.below(4) ? "fs.eio-r" : "fs.open-r";
    if (g.r.below(2)) g.s.k["fat." + k] = 1 + g.r.below(g.r.below(2) ? 3 : 12); else { static const int pm[] = {50, 150, 400, 1000}; g.s.k["f." + k] = pm[g.r.below(4)]; g.s.k["f.max"] = g.r.below(3) ? 1 : 4; }
  }
  if (g.r.below(3) == 0) { g.s.k["fs.short"] = g.r.range(5, 60); g.s.k["fs.eintr"] = g.r.range(0, 20); }
  return g.s;
}
}
