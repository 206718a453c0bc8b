// Gauge archives: byte-exact model, oracle and generator of C15.
#include "io.h"
#include "../common/gauge.h"
#include <cmath>
#include <cstring>
namespace sim {
using namespace simf;
namespace {
struct Head { std::vector<std::pair<std::string, std::string>> kv; };
struct Arch { bool ok = false; std::string why; int n[4] = {0, 0, 0, 0}, bc[4] = {1, 1, 1, 1}; int mat = 18, fl = 4; unsigned chk = 0; int seq = 0; std::string id, label, creator, hw, cdate, adate; double plaq = 0, link = 0; Vec u[4]; };
std::set<int> must_stop; std::set<std::string> default_head;      // archives with clock and host name in the header
std::map<int, std::pair<double, double>> averages; std::map<int, std::pair<std::string, std::string>> written;
template <class T> std::string big(T x) { std::string s((const char*)&x, sizeof x); return std::string(s.rbegin(), s.rend()); }
unsigned word_at(const std::string& s, size_t p) { return ((unsigned)(unsigned char)s[p] << 24) | ((unsigned)(unsigned char)s[p + 1] << 16) | ((unsigned)(unsigned char)s[p + 2] << 8) | (unsigned char)s[p + 3]; }
void mesplq(const int* L, const Vec* u, double& plaq, double& link) {
  long vol = (long)L[0] * L[1] * L[2] * L[3]; plaq = link = 0;
  typedef double M[18];
  auto mul = [](const double* a, const double* b, bool adj, double* r) {
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
      double x = 0, y = 0;
      for (int k = 0; k < 3; ++k) { double ar = a[2 * (3 * i + k)], ai = a[2 * (3 * i + k) + 1]; int q = adj ? 3 * j + k : 3 * k + j; double br = b[2 * q], bi = adj ? -b[2 * q + 1] : b[2 * q + 1]; x += ar * br - ai * bi; y += ar * bi + ai * br; }
      r[2 * (3 * i + j)] = x; r[2 * (3 * i + j) + 1] = y;
    }
  };
  for (long s = 0; s < vol; ++s) {
    int c[4]; unlex(s, L, c);
    auto at = [&](int d) { int x[4] = {c[0], c[1], c[2], c[3]}; x[d] = (x[d] + 1) % L[d]; return lex(x, L); };
    for (int mu = 0; mu < 4; ++mu) {
      const double* a = &u[mu][s * 18]; link += a[0] + a[8] + a[16];
      for (int nu = 0; nu < mu; ++nu) { M p, q, r; mul(&u[nu][at(mu) * 18], &u[mu][at(nu) * 18], true, p); mul(p, &u[nu][s * 18], true, q); mul(a, q, false, r); plaq += r[0] + r[8] + r[16]; }
    }
  }
  plaq *= 2.0 / double(vol * 4 * 3 * 3); link /= double(vol * 4 * 3);
}
std::string payload(long vol, const Vec* u, int mat, int fl, unsigned& chk) {
  std::string b;
  for (long s = 0; s < vol; ++s) for (int mu = 0; mu < 4; ++mu) for (int i = 0; i < mat; ++i) { double x = u[mu][s * 18 + i]; if (fl == 4) b += big((float)x); else b += big(x); }
  chk = 0; for (size_t i = 0; i < b.size(); i += 4) chk += word_at(b, i);
  return b;
}
std::string header(const int* L, unsigned chk, double plaq, double link, int mat, int fl, long bc, int seq, const Op& o, size_t st, const char* hw, const char* fp) {
  std::ostringstream h; h << "BEGIN_HEADER\nCHECKSUM = " << std::hex << chk << std::dec << "\nLINK_TRACE = " << (float)link << "\nPLAQUETTE = " << (float)plaq << "\nDATATYPE = " << (mat == 12 ? "4D_SU3_GAUGE" : "4D_SU3_GAUGE_3x3") << "\nHDR_VERSION = 1.0\nSTORAGE_FORMAT = 1.0\n";
  for (int i = 0; i < 4; ++i) h << "DIMENSION_" << i + 1 << " = " << L[i] << "\n";
  for (int i = 0; i < 4; ++i) h << "BOUNDARY_" << i + 1 << " = " << (bc & 16 ? (bc >> i) & 1 ? "-1" : bc & 32 ? "0" : "1" : (bc >> i) & 1 ? "ANTIPERIODIC" : "PERIODIC") << "\n";
  auto s = [&](int i) { return st + i < o.s.size() ? o.s[st + i] : std::string("?"); };
  h << "ENSEMBLE_ID = " << s(0) << "\nENSEMBLE_LABEL = " << s(1) << "\nSEQUENCE_NUMBER = " << seq << "\nCREATOR = " << s(2) << "\n" << hw << " = " << s(3) << "\nCREATION_DATE = " << s(4) << "\nARCHIVE_DATE = " << s(5) << "\nFLOATING_POINT = " << fp << "\nEND_HEADER\n";
  (void)fl; return h.str();
}
bool split(const std::string& d, std::vector<std::string>& lines, size_t& pay) {
  size_t p = 0;
  for (;;) { size_t e = d.find('\n', p); if (e == std::string::npos) return false; lines.push_back(d.substr(p, e - p)); p = e + 1; if (lines.back() == "END_HEADER") { pay = p; return true; } }
}
std::string key_of(const std::string& l) { size_t b = l.find_first_not_of(' '); if (b == std::string::npos) return ""; return l.substr(b, l.find_first_of(" =", b) - b); }
std::string val_of(const std::string& l) { size_t q = l.find('='); if (q == std::string::npos) return ""; q = l.find_first_not_of(' ', q + 1); return q == std::string::npos ? "" : l.substr(q); }
// the reference reader
Arch parse(const std::string& d, const int* L) {
  Arch a; std::vector<std::string> ls; size_t pay = 0;
  auto no = [&](const char* w) { a.ok = false; a.why = w; return a; };
  if (!split(d, ls, pay) || ls[0] != "BEGIN_HEADER") return no("header");
  int nd = 0; bool dt = true;
  for (size_t i = 1; i + 1 < ls.size(); ++i) {
    std::string k = key_of(ls[i]), v = val_of(ls[i]);
    if (ls[i].find('=') == std::string::npos) return no("line");
    if (k == "DATATYPE") { if (v == "4D_SU3_GAUGE") a.mat = 12; else if (v == "4D_SU3_GAUGE_3x3") a.mat = 18; else dt = false; }
    else if (k == "FLOATING_POINT") { if (v == "IEEE32BIG" || v == "IEEE32") a.fl = 4; else if (v == "IEEE64BIG") a.fl = 8; else dt = false; }
    else if (k == "PLAQUETTE") a.plaq = atof(v.c_str()); else if (k == "LINK_TRACE") a.link = atof(v.c_str());
    else if (k == "CHECKSUM") a.chk = (unsigned)strtoul(v.c_str(), nullptr, 16);
    else if (k == "SEQUENCE_NUMBER") a.seq = atoi(v.c_str());
    else if (k.compare(0, 10, "DIMENSION_") == 0) { int x = atoi(k.c_str() + 10); if (x < 1 || x > 4) return no("dimension"); a.n[x - 1] = atoi(v.c_str()); ++nd; }
    else if (k.compare(0, 9, "BOUNDARY_") == 0) { int x = atoi(k.c_str() + 9); if (x < 1 || x > 4) return no("boundary"); a.bc[x - 1] = v == "ANTIPERIODIC" ? -1 : v == "PERIODIC" ? 1 : atoi(v.c_str()); }
    else if (k == "ENSEMBLE_ID") a.id = v; else if (k == "ENSEMBLE_LABEL") a.label = v; else if (k == "CREATOR") a.creator = v;
    else if (k == "CREATOR_HARDWARE" || k == "CREATOR_MACHINE") a.hw = v; else if (k == "CREATION_DATE") a.cdate = v; else if (k == "ARCHIVE_DATE") a.adate = v;
  }
  if (!dt) return no("type"); if (nd != 4) return no("sizes");
  for (int i = 0; i < 4; ++i) if (a.n[i] != L[i]) return no("lattice");
  long vol = (long)L[0] * L[1] * L[2] * L[3]; size_t need = (size_t)vol * 4 * a.mat * a.fl;
  if (d.size() - pay < need) return no("payload cut short");
  unsigned c = 0; for (size_t i = 0; i < need; i += 4) c += word_at(d, pay + i);
  if (c != a.chk) return no("checksum");
  for (int mu = 0; mu < 4; ++mu) a.u[mu].resize(vol * 18);
  size_t p = pay;
  for (long s = 0; s < vol; ++s) for (int mu = 0; mu < 4; ++mu) {
    double* w = &a.u[mu][s * 18];
    for (int i = 0; i < a.mat; ++i, p += a.fl) {
      if (a.fl == 4) { unsigned x = word_at(d, p); float f; memcpy(&f, &x, 4); w[i] = f; }
      else { unsigned long x = ((unsigned long)word_at(d, p) << 32) | word_at(d, p + 4); double f; memcpy(&f, &x, 8); w[i] = (float)f; }
    }
    if (a.mat == 12) for (int i = 0; i < 3; ++i) {
      int j = (i + 1) % 3, k = (i + 2) % 3; const double *x = w, *y = w + 6;
      w[12 + 2 * i] = (x[2 * j] * y[2 * k] - x[2 * j + 1] * y[2 * k + 1]) - (x[2 * k] * y[2 * j] - x[2 * k + 1] * y[2 * j + 1]);
      w[13 + 2 * i] = -((x[2 * j] * y[2 * k + 1] + x[2 * j + 1] * y[2 * k]) - (x[2 * k] * y[2 * j + 1] + x[2 * k + 1] * y[2 * j]));
    }
  }
  double pl, li; mesplq(L, a.u, pl, li);
  double dp = std::fabs(pl - a.plaq), dl = std::fabs(li - a.link);
  if (dp > 2e-5 || dl > 2e-5) return no("averages");
  if (dp > 5e-6 || dl > 5e-6) sim_bug("archive averages too close to the limit");
  a.ok = true; return a;
}
}
// same archive up to printed digits of the averages and, for default headers, clock and host name
static std::string differs(const std::string& a, const std::string& b, bool deflt) {
  std::vector<std::string> x, y; size_t p = 0, q = 0; char t[200];
  if (!split(a, x, p)) return "the header is incomplete";
  if (!split(b, y, q)) sim_bug("model archive without header");
  if (x.size() != y.size()) return "the header has a different number of lines";
  for (size_t i = 0; i < x.size(); ++i) {
    if (x[i] == y[i]) continue;
    std::string k = key_of(y[i]);
    if (k == key_of(x[i])) {
      if ((k == "PLAQUETTE" || k == "LINK_TRACE") && std::fabs(atof(val_of(x[i]).c_str()) - atof(val_of(y[i]).c_str())) < 2e-6) continue;
      if (deflt && (k == "ENSEMBLE_ID" || k == "CREATOR_HARDWARE" || k == "CREATION_DATE" || k == "ARCHIVE_DATE")) continue;
    }
    return "header line \"" + x[i] + "\" instead of \"" + y[i] + "\"";
  }
  if (a.compare(p, std::string::npos, b, q, std::string::npos) == 0) return "";
  size_t i = 0; while (p + i < a.size() && q + i < b.size() && a[p + i] == b[q + i]) ++i;
  snprintf(t, sizeof t, "the payload has %zu bytes, %zu expected; first difference at byte %zu", a.size() - p, b.size() - q, i); return t;
}
static void put_file(const std::string& f, const std::string& d) { mfs()[f] = std::make_shared<std::string>(d); auto r = std::make_shared<FsFile>(); r->data = d; r->born = fs().seq++; fs().files[f] = r; }
void model_arch_start() { must_stop.clear(); averages.clear(); written.clear(); }
bool model_arch(Model& m, const Op& o, Expect& e) {
  const std::string& n = o.name; int op = (int)(&o - &m.ph->ops[0]);
  if (n == "disk.arch") {    // mat, float size, pattern, boundary, seq | file, 6 strings: an archive from elsewhere
    Vec u[4]; long vol = m.vol; int mat = (int)o.arg(0), fl = (int)o.arg(1); double pl, li; unsigned chk;
    for (int mu = 0; mu < 4; ++mu) { u[mu].resize(vol * 18); float w[18]; for (long s = 0; s < vol; ++s) { simg::link(o.arg(2), s, vol, mu, w); for (int i = 0; i < 18; ++i) u[mu][s * 18 + i] = w[i]; } }
    mesplq(m.L, u, pl, li); std::string p = payload(vol, u, mat, fl, chk);
    put_file(o.s.at(0), header(m.L, chk, pl, li, mat, fl, o.arg(3), (int)o.arg(4), o, 1, o.arg(5) ? "CREATOR_MACHINE" : "CREATOR_HARDWARE", fl == 8 ? "IEEE64BIG" : o.arg(5) ? "IEEE32" : "IEEE32BIG") + p);
    default_head.erase(o.s[0]); return true;
  }
  if (n == "disk.asub" || n == "disk.aflip" || n == "disk.ahcut") {       // damage inside the header or the payload, both disks alike
    auto f = mfs().find(o.s.at(0)); if (f == mfs().end()) return true; auto r = fs().files.find(o.s[0]); if (r == fs().files.end()) return true;
    count(("fault." + n).c_str());
    auto hit = [&](std::string& d) {
      std::vector<std::string> ls; size_t p; if (!split(d, ls, p)) return;
      if (n == "disk.aflip") { if (d.size() > p) d[p + o.arg(0) % (d.size() - p)] ^= (char)(1 << (o.arg(1) & 7)); return; }
      if (n == "disk.ahcut") { d.resize(o.arg(0) % p); return; }
      std::string t; for (auto& l : ls) { if (key_of(l) == o.s.at(1)) { if (o.s.at(2) == "-") continue; t += o.s[1] + " = " + o.s[2] + "\n"; } else t += l + "\n"; }
      d = t + d.substr(p);
    };
    f->second = std::make_shared<std::string>(*f->second); hit(*f->second); hit(r->second->data); return true;
  }
  if (n.compare(0, 3, "ar.")) return false;
  int b = (int)o.arg(0);
  if (n == "ar.fill") {
    for (int mu = 0; mu < 4; ++mu) { Vec v(m.vol * 18); float w[18]; for (long s = 0; s < m.vol; ++s) { simg::link(o.arg(1), s, m.vol, mu, w); for (int i = 0; i < 18; ++i) v[s * 18 + i] = w[i]; } m.set(b + mu, K_M, v); e.fields[b + mu] = m.slots[b + mu]; }
    return true;
  }
  if (n == "ar.write") {
    Vec u[4]; for (int mu = 0; mu < 4; ++mu) { u[mu] = *m.get(b + mu); e.fields[b + mu] = m.slots[b + mu]; }
    double pl, li; unsigned chk; mesplq(m.L, u, pl, li); int mat = o.arg(4) == 1 ? 12 : (int)o.arg(1);
    std::string p = payload(m.vol, u, mat, 4, chk), f = o.s.at(0);
    Op d; if (o.arg(4) == 1) { d.s = {"", "?", "NERSC archive", "QDP++", "?", "?", "?"}; default_head.insert(f); } else { d = o; default_head.erase(f); }
    mfs()[f] = std::make_shared<std::string>(header(m.L, chk, pl, li, mat, 4, o.arg(4) == 1 ? 0 : o.arg(2), o.arg(4) == 1 ? 0 : (int)o.arg(3), d, 1, "CREATOR_HARDWARE", "IEEE32BIG") + p);
    written[op] = {f, *mfs()[f]}; return true;
  }
  if (n == "ar.read") {
    auto f = mfs().find(o.s.at(0));
    if (f == mfs().end()) { must_stop.insert(op); return true; }
    Arch a = parse(*f->second, m.L);
    if (!a.ok) { must_stop.insert(op); count(("arch.reject." + a.why).c_str()); return true; }
    count("arch.accept");
    for (int mu = 0; mu < 4; ++mu) { MField q; q.kind = K_M; q.v = std::make_shared<const Vec>(a.u[mu]); q.tol = a.mat == 12 ? 2e-6 : 0; for (double x : a.u[mu]) (void)x; m.slots[b + mu] = q; e.fields[b + mu] = q; }
    if (o.arg(1) == 1) return true;
    averages[op] = {a.plaq, a.link};
    if (default_head.count(o.s[0])) return true;
    std::ostringstream s; for (int i = 0; i < 4; ++i) s << a.n[i] << " " << a.bc[i] << " ";
    s << a.mat << " " << a.fl << " " << std::hex << a.chk << std::dec << " " << a.seq << "\n" << a.id << "\n" << a.label << "\n" << a.creator << "\n" << a.hw << "\n" << a.cdate << "\n" << a.adate;
    e.has_string = true; e.str = s.str(); return true;
  }
  return false;
}
struct ArchOracle : PlainOracle {
  static const Op& opof(int op) { static const Op none; auto& v = g_spec->phases[g_phase].ops; return op >= 0 && op < (int)v.size() ? v[op] : none; }
  std::map<int, std::string> heads;
  void phase_begin(int p) override { heads.clear(); PlainOracle::phase_begin(p); }
  void on_string(int node, int op, const std::string& s) override {
    if (opof(op).name == "ar.read") { auto i = heads.emplace(op, s); if (i.first->second != s) violation("arch.header", "nodes see different headers"); }
    const Expect& ex = g_rt->model.ex.at(op);
    if (ex.has_string && ex.str != s) violation("arch.header", "header read is \"%s\", expected \"%s\"", s.c_str(), ex.str.c_str());
  }
  void on_values(int node, int op, const double* v, int n) override {
    auto i = averages.find(op); if (i == averages.end()) { PlainOracle::on_values(node, op, v, n); return; }
    if (!(std::fabs(v[0] - i->second.first) < 1e-5) || !(std::fabs(v[1] - i->second.second) < 1e-5)) violation("arch.header", "averages %g %g, expected %g %g", v[0], v[1], i->second.first, i->second.second);
  }
  void op_end(int node, int op) override {
    if (must_stop.count(op)) violation("arch.accepted", "node %d got a field from a damaged, foreign or missing archive %s", node, opof(op).s[0].c_str());
    auto w = written.find(op); if (w == written.end() || node != 0) return;
    auto f = fs().files.find(w->second.first);
    std::string why = f == fs().files.end() ? "there is no file" : differs(f->second->data, w->second.second, default_head.count(w->second.first) > 0);
    if (!why.empty()) violation(g_fault.injected > 0 ? "arch.lost-write" : "arch.bytes", "after writeArchiv of %s: %s", w->second.first.c_str(), why.c_str());
  }
  bool may_stop(int node) override {
    if (PlainOracle::may_stop(node)) return true;
    for (int m : must_stop) for (Node* n : g_nodes) if (n->opidx == m && n->end != NE_DONE) return true;
    return false;
  }
  void phase_end(int p, bool clean) override { PlainOracle::phase_end(p, clean); if (clean && !must_stop.empty()) violation("arch.accepted", "reading a damaged archive did not stop the program"); }
};
Oracle* arch_oracle() { return new ArchOracle; }
// ---- generator ----------------------------------------------------------------------------------------
static std::string arch_variant(Gen& g, const int* L) {
  if (L && L[0] % 2) return pickv(g, {"ps-lex", "sc-lex-xml"});
  return pickv(g, {"ps-cb2", "ps-lex", "ps-cb3d", "sc-cb2-xml", "sc-lex-xml", "sc-cb3d-xml"});
}
static void head_strings(Gen& g, Op& o) {
  for (int i = 0; i < 6; ++i) {
    std::string s; int w = g.r.below(8) ? g.r.below(4) : 0;
    for (int k = 0; k < w; ++k) { std::string t = rstr(g, 12, true); for (char& c : t) if (c == '&' || c == '<' || c == '>' || c == '"' || c == '\'') c = 'q'; s += (k ? " " : "") + t; }
    o.s.push_back(s);
  }
}
static long arch_pat(Gen& g, int mat) { long p = g.r.below(60); if (g.r.below(4) == 0) p |= 64; (void)mat; return p; }
static void write_arch(Gen& g, const std::string& f) {
  int mat = g.r.below(2) ? 12 : 18; g.op("ar.fill", {0, arch_pat(g, mat)});
  Op& o = g.op("ar.write", {0, mat, g.r.below(3) ? g.r.below(16) : 0, g.r.range(0, 100000), g.r.below(4) ? g.r.below(2) * 2 : 1}); o.s = {f}; head_strings(g, o);
}
static void read_arch(Gen& g, const std::string& f) { Op& o = g.op("ar.read", {g.r.below(2) * 4, g.r.below(3)}); o.s = {f}; }
static void damage(Gen& g, const std::string& f) {
  Op o; o.s = {f};
  switch (g.r.below(8)) {
    case 0: case 1: o.name = "disk.aflip"; o.a = {g.r.below(1 << 20), g.r.below(8)}; break;
    case 2: case 3: o.name = "disk.trunc"; o.a = {0, 1 + g.r.below(g.r.below(2) ? 8 : g.r.below(2) ? 200 : 3000)}; break;
    case 4: o.name = "disk.ahcut"; o.a = {g.r.below(1 << 16)}; break;
    default: {
      o.name = "disk.asub"; static const char* k[] = {"DIMENSION_1", "DIMENSION_4", "DATATYPE", "FLOATING_POINT", "CHECKSUM", "PLAQUETTE", "LINK_TRACE"}; int i = g.r.below(7); o.s.push_back(k[i]);
      static const char* dt[] = {"4D_SU3_GAUGE", "4D_SU3_GAUGE_3x3", "4D_SU4_GAUGE", "junk"}; static const char* fp[] = {"IEEE64BIG", "IEEE32", "IEEE128"};
      if (i < 2) o.s.push_back(g.r.below(2) ? std::to_string(g.r.range(1, 8)) : "-");
      else if (i == 2) o.s.push_back(dt[g.r.below(4)]); else if (i == 3) o.s.push_back(fp[g.r.below(3)]);
      else if (i == 4) { char b[20]; snprintf(b, sizeof b, "%x", (unsigned)g.r.below(1 << 30)); o.s.push_back(b); }
      else { char b[20]; snprintf(b, sizeof b, "%g", (double)(g.r.range(1100, 3000)) / (g.r.below(2) ? 1000 : -1000)); o.s.push_back(b); }
    }
  }
  g.p->ops.push_back(o);
}
Spec g_C15(Gen& g) {
  g.sched();
  g.begin_phase(arch_variant(g, nullptr), 8, g.tier ? 64 : 36);
  int L[4]; for (int i = 0; i < 4; ++i) L[i] = g.p->latt[i];
  std::vector<std::string> fl; int nf = 0, np = g.r.range(1, 3); bool stop = false;
  auto slots = [&] { for (int i = 0; i < 8; ++i) g.newslot(K_M); };
  for (int ph = 0; ph < np; ++ph) {
    int K[4]; for (int i = 0; i < 4; ++i) K[i] = L[i];
    bool foreign = ph && ph == np - 1 && g.r.below(10) == 0;
    if (foreign) { int d = g.r.below(4); if (d) K[d] = K[d] % 4 + 1; else K[0] = K[0] == 2 ? 4 : 2; }
    if (ph) rephase(g, arch_variant(g, K), 8, K);
    bool hurt = ph && ph == np - 1 && g.r.below(3);
    if (g.r.below(3) == 0) { std::string f = "h" + std::to_string(nf++); Op o; o.name = "disk.arch"; o.a = {g.r.below(2) ? 12 : 18, g.r.below(2) ? 4 : 8, arch_pat(g, 0), g.r.below(g.r.below(3) ? 16 : 64), g.r.below(1000), g.r.below(2)}; o.s = {f}; head_strings(g, o); g.p->ops.push_back(o); fl.push_back(f); }
    if (hurt) for (auto& f : fl) if (g.r.below(2) || fl.size() == 1) damage(g, f);
    slots();
    int nw = ph == 0 ? g.r.range(1, 2) : g.r.below(2);
    for (int i = 0; i < nw; ++i) { std::string f = "a" + std::to_string(nf++); write_arch(g, f); fl.push_back(f); }
    for (auto& f : fl) if (g.r.below(3) || ph == np - 1) read_arch(g, f);
    if (g.r.below(20) == 0) read_arch(g, "nothere");
    finish(g);
  }
  (void)stop;
  int w = g.r.below(6);
  if (w == 0) {
    static const char* kd[] = {"fs.open-w", "fs.eio-w", "fs.enospc", "fs.close", "fs.eio-r", "fs.open-r"}; std::string k = kd[g.r.below(6)];
    if (g.r.below(2)) g.s.k["fat." + k] = 1 + g.r.below(g.r.below(2) ? 3 : 15); else { static const int pm[] = {50, 150, 400, 1000}; g.s.k["f." + k] = pm[g.r.below(4)]; g.s.k["f.max"] = g.r.below(3) ? 1 : 4; }
  } else if (w == 1) g.s.k["fs.cap"] = g.r.below(2) ? g.r.below(3000) : g.r.below(60000);
  if (g.r.below(3) == 0) { g.s.k["fs.short"] = g.r.range(5, 60); g.s.k["fs.eintr"] = g.r.range(0, 20); }
  return g.s;
}
}
