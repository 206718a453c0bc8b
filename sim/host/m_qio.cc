// Record files: model, oracle and generator of C22.
#include "io.h"
#include "../common/qio.h"
#include <cstring>
namespace sim {
using namespace simqio;
namespace {
enum { FIELD, GLOBAL, HYPER };
struct QRec { int type = FIELD, kind = 0, count = 1; bool array = false, buf = false; long lo[4], hi[4]; std::vector<VP> v; Vec w; std::string text, meta; };
struct QFile { int fmt = SINGLE; std::string meta; std::vector<QRec> recs; bool cut = false, unsure = false; };
struct QW { std::string path; bool open = false; };
struct QR { std::string path; size_t pos = 0; bool open = false; };
std::map<std::string, QFile> qf;           // survive lives
std::map<int, QW> qw; std::map<int, QR> qr;
std::map<int, std::pair<std::string, QFile>> closed;    // operation -> file it completed
std::set<int> must, may;                   // operations that must, may stop the program
std::map<int, std::string> path_of;
char prec(const QRec& r) { return r.buf ? 'U' : r.kind == K_I ? 'I' : r.kind == K_D ? 'D' : 'F'; }
int colors(int k) { return k == K_V || k == K_M || k == K_F ? 3 : 1; }
int spins(int k) { return k == K_F ? 4 : 1; }
bool inbox(const QRec& r, const int* c) { if (r.type != HYPER) return true; for (int i = 0; i < 4; ++i) if (c[i] < r.lo[i] || c[i] > r.hi[i]) return false; return true; }
std::string mstr(const std::string& s) { return std::to_string(s.size()) + ":" + s; }
// what a record of the file must look like, up to its metadata text
std::string head(const QRec& r, const int* L, long& len) {
  const char* t = r.buf ? "char" : r.type == GLOBAL ? "Scalar" : !r.array && r.kind == K_V ? "USQCD_F3_ColorVector" : r.array && r.kind == K_M ? "QDP_F3_ColorMatrix" : r.array && r.kind == K_F ? "USQCD_F3_DiracFermion" : "Lattice";
  int wb = r.buf ? 1 : r.kind == K_D ? 8 : 4, ts = r.buf ? 1 : Model::words(r.kind) * wb, cnt = r.buf ? (int)r.text.size() : r.count; long ns = 0;
  if (r.type == GLOBAL) ns = 1; else for (long s = 0; s < (long)L[0] * L[1] * L[2] * L[3]; ++s) { int c[4]; simf::unlex(s, L, c); ns += inbox(r, c); }
  len = ns * ts * cnt; char b[300], e[200] = "";
  if (r.type == HYPER) snprintf(e, sizeof e, " %ld %ld %ld %ld %ld %ld %ld %ld", r.lo[0], r.hi[0], r.lo[1], r.hi[1], r.lo[2], r.hi[2], r.lo[3], r.hi[3]);
  snprintf(b, sizeof b, "RECORD %d %d %s %c %d %d %d %d %%zu %ld %d%s\n", r.type, r.type == HYPER ? 4 : 0, t, prec(r), r.buf ? 0 : colors(r.kind), r.buf ? 0 : spins(r.kind), ts, cnt, len, wb, e);
  return b;
}
std::string data(const QRec& r, const int* L) {
  if (r.buf) return r.text;
  std::string d; int nw = Model::words(r.kind);
  if (r.type == GLOBAL) { for (double x : r.w) d += elem_bytes(r.kind, x); return d; }
  for (long s = 0; s < (long)L[0] * L[1] * L[2] * L[3]; ++s) { int c[4]; simf::unlex(s, L, c); if (inbox(r, c)) for (auto& v : r.v) for (int j = 0; j < nw; ++j) d += elem_bytes(r.kind, (*v)[s * nw + j]); }
  return d;
}
std::string differs(const std::string& d, const QFile& f, const int* L) {
  size_t p = 0; char b[300]; std::string h;
  auto text = [&](const std::string& meta, size_t n) -> std::string {
    if (p + n > d.size()) return "it ends inside the metadata";
    std::string x = d.substr(p, n); p += n;
    return x.find("<s>" + meta + "</s>") == std::string::npos ? "metadata \"" + meta + "\" is missing" : "";
  };
  int fmt; size_t n; int used = 0;
  if (sscanf(d.c_str(), "SIMQIO %d %zu%n", &fmt, &n, &used) != 2 || d[used] != '\n') return "it has no header";
  p = used + 1; std::string e = text(f.meta, n); if (!e.empty()) return e;
  for (size_t i = 0; i < f.recs.size(); ++i) {
    long len; std::string w = head(f.recs[i], L, len); size_t q = d.find('\n', p);
    if (q == std::string::npos) return "record " + std::to_string(i) + " is missing";
    h = d.substr(p, q + 1 - p); int t, nn, c, s, ts, cnt; size_t xl = 0;
    if (sscanf(h.c_str(), "RECORD %d %d %*s %*s %d %d %d %d %zu", &t, &nn, &c, &s, &ts, &cnt, &xl) != 7) return "record " + std::to_string(i) + " has no header";
    snprintf(b, sizeof b, w.c_str(), xl); if (h != b) return "record " + std::to_string(i) + " is described as \"" + h.substr(0, h.size() - 1) + "\", expected \"" + std::string(b).substr(0, strlen(b) - 1) + "\"";
    p = q + 1; e = text(f.recs[i].meta, xl); if (!e.empty()) return e;
    std::string x = data(f.recs[i], L); if (d.compare(p, x.size(), x)) return "the data of record " + std::to_string(i) + " differ";
    p += x.size() + 4;
  }
  return p == d.size() ? "" : p > d.size() ? "its last record is cut" : "it has " + std::to_string(d.size() - p) + " bytes too many";
}
}
void model_qio_start() { qw.clear(); qr.clear(); closed.clear(); must.clear(); may.clear(); path_of.clear(); }
bool model_qio(Model& m, const Op& o, Expect& e) {
  const std::string& n = o.name; int op = (int)(&o - &m.ph->ops[0]), h = (int)o.arg(0), sl = (int)o.arg(1);
  if (n == "disk.trunc" && qf.count(o.s.at(0))) { qf[o.s[0]].cut = true; return false; }
  if (n.compare(0, 4, "qio.")) return false;
  auto say = [&](const std::string& s) { e.has_string = true; e.str = s; };
  if (n == "qio.grid") return true;
  if (n == "qio.ionode") { say("ok"); return true; }
  if (n == "qio.w") {
    QW& w = qw[h]; w.path = o.s.at(0); w.open = true; path_of[op] = w.path;
    if (o.arg(3) != APPEND || !qf.count(w.path)) { QFile f; f.fmt = (int)o.arg(1); f.meta = o.s.at(1); qf[w.path] = f; }
    say(std::string(o.arg(4) == 1 ? "bad, " : "") + "good open"); return true;
  }
  if (n == "qio.wclose" || n == "qio.wdel") {
    QW& w = qw[h]; path_of[op] = w.path; if (w.open) closed[op] = {w.path, qf[w.path]};
    w.open = false; say(n == "qio.wdel" ? "gone" : "closed"); return true;
  }
  if (n == "qio.rclose") { QR& r = qr[h]; if (o.arg(1) >= 0) r.open = false; say(r.open ? "open" : "closed"); return true; }
  if (n == "qio.r") {
    QR& r = qr[h]; r.path = o.s.at(0); r.pos = 0; r.open = true; path_of[op] = r.path; auto f = qf.find(r.path);
    if (f == qf.end()) { must.insert(op); return true; }
    if (f->second.cut) may.insert(op);
    say(std::string(o.arg(2) ? "bad, " : "") + mstr(f->second.meta) + " good open"); return true;
  }
  if (n[4] == 'w') {
    QW& w = qw[h]; path_of[op] = w.path; say(n == "qio.wbad" && !w.open ? "bad" : "good"); if (n == "qio.wbad" || n == "qio.wclear") return true;
    QRec r; r.meta = o.s.at(0);
    if (n == "qio.wbuf") { r.buf = true; r.type = GLOBAL; long len = (long)o.s.at(1).size(); for (int i = 3; i >= 0; --i) r.text += (char)((len >> (8 * i)) & 255); r.text += o.s[1]; }
    else if (n == "qio.wscal") { r.type = GLOBAL; r.kind = sl; r.array = o.arg(2) >= 0; r.count = r.array ? (int)o.arg(2) : 1; for (int i = 0; i < r.count; ++i) for (int j = 0; j < Model::words(sl); ++j) r.w.push_back(scalval(o.arg(3), i, j)); }
    else {
      bool hy = n == "qio.whyper" || n == "qio.whypern"; r.array = n == "qio.wfieldn" || n == "qio.whypern"; r.kind = m.slots.at(sl).kind; r.count = r.array ? (int)o.arg(hy ? 10 : 2) : 1;
      if (hy) { r.type = HYPER; for (int i = 0; i < 4; ++i) { r.lo[i] = o.arg(2 + i); r.hi[i] = o.arg(6 + i); } }
      for (int i = 0; i < r.count; ++i) r.v.push_back(m.get(sl + i));
    }
    if (w.open) qf[w.path].recs.push_back(r);
    return true;
  }
  QR& r = qr[h]; path_of[op] = r.path; auto fi = qf.find(r.path); if (fi == qf.end()) { must.insert(op); return true; }
  QFile& f = fi->second; if (f.cut) may.insert(op);
  if (r.pos >= f.recs.size()) { must.insert(op); return true; }
  const QRec& q = f.recs[r.pos]; std::string tail = mstr(q.meta) + " good";
  if (n == "qio.rinfo") { say(tail); return true; }
  if (f.cut && r.pos + 1 == f.recs.size()) must.insert(op);
  ++r.pos;
  int want = 0; bool flt = prec(q) == 'F' || prec(q) == 'D';
  if (n == "qio.rbuf") { if (!q.buf) sim_bug("buffer read from another record"); say(q.text.substr(4) + "|" + tail); return true; }
  if (n == "qio.rscal") {
    want = o.arg(2) < 0 ? 1 : (int)o.arg(2); if (q.type != GLOBAL || q.buf) sim_bug("scalar read from a field");
    if (Model::words(sl) * want != Model::words(q.kind) * q.count) { must.insert(op); return true; }
    if (Model::words(sl) != Model::words(q.kind)) sim_bug("scalar read reshapes");
    e.has_values = true; e.values = q.w; say(tail); return true;
  }
  bool arr = n == "qio.rfieldn"; want = arr ? (int)o.arg(2) : 1; int k = m.slots.at(sl).kind, nw = Model::words(k);
  if (q.type == GLOBAL) sim_bug("field read from global data");
  if (nw * want != Model::words(q.kind) * q.count) { must.insert(op); return true; }
  if (nw != Model::words(q.kind)) sim_bug("field read reshapes");
  for (int i = 0; i < want; ++i) {
    Vec v = *m.get(sl + i);
    for (long s = 0; s < m.vol; ++s) { int c[4]; simf::unlex(s, m.L, c); bool in = inbox(q, c); for (int j = 0; j < nw; ++j) { if (in) v[s * nw + j] = (*q.v[i])[s * nw + j]; else if (flt) v[s * nw + j] = 0; } }
    m.set(sl + i, k, v); e.fields[sl + i] = m.slots[sl + i];
  }
  say(tail); return true;
}
struct QioOracle : PlainOracle {
  std::map<int, std::string> first; bool spoiled = false;      // a write was reported as failed: what files and fields hold afterwards is nobody's promise
  static const Op& opof(int op) { static const Op none; auto& v = g_spec->phases[g_phase].ops; return op >= 0 && op < (int)v.size() ? v[op] : none; }
  void phase_begin(int p) override { PlainOracle::phase_begin(p); first.clear(); }
  bool goes_on() override { return !spoiled; }
  void on_string(int node, int op, const std::string& s) override {
    auto i = first.emplace(op, s);
    if (i.first->second != s) violation("qio.nodes-differ", "%s answers \"%s\" on node %d and \"%s\" on another", opof(op).name.c_str(), s.c_str(), node, i.first->second.c_str());
    const Expect& ex = g_rt->model.ex.at(op); const std::string& n = opof(op).name;
    if (n[4] == 'w' && n != "qio.wclose" && n != "qio.wdel") {
      if (s.compare(0, 3, "bad") == 0 && ex.str == "good") { if (g_fault.injected > 0) { spoiled = true; return; } }
    }
    if (!spoiled && ex.has_string && ex.str != s) violation("qio.answer", "%s answers \"%s\", expected \"%s\"", n.c_str(), s.c_str(), ex.str.c_str());
  }
  void on_field(int node, int op, int slot, int kind, const void* w, long ns) override { if (!spoiled) PlainOracle::on_field(node, op, slot, kind, w, ns); }
  void on_values(int node, int op, const double* v, int n) override { if (!spoiled) PlainOracle::on_values(node, op, v, n); }
  void op_end(int node, int op) override {
    if (spoiled) return;
    if (must.count(op)) violation("qio.accepted", "%s of %s, which is missing, damaged, at its end or of another size, returned on node %d", opof(op).name.c_str(), path_of[op].c_str(), node);
    auto c = closed.find(op); if (c == closed.end() || node != 0 || c->second.second.fmt != SINGLE) return;
    auto f = fs().files.find(c->second.first); count("qio.closed");
    std::string why = f == fs().files.end() ? "there is no such file" : differs(f->second->data, c->second.second, g_rt->model.L);
    if (!why.empty()) violation(g_fault.injected > 0 ? "qio.lost-write" : "qio.bytes", "%s was closed without a sign of failure, but %s", c->second.first.c_str(), why.c_str());
  }
  bool may_stop(int node) override {
    if (PlainOracle::may_stop(node)) return true;
    for (Node* n : g_nodes) if (n->end != NE_DONE && (must.count(n->opidx) || may.count(n->opidx))) return true;
    return false;
  }
  void phase_end(int p, bool clean) override { PlainOracle::phase_end(p, clean); if (!clean) spoiled = true; if (!spoiled && !must.empty()) violation("qio.accepted", "a read that must fail did not stop the program"); }
};
Oracle* qio_oracle() { return new QioOracle; }
// ---- generator ----------------------------------------------------------------------------------------
namespace {
struct GR { int form; int kind, count; bool array; };          // form: 0 field 1 global 2 buffer
struct GF { std::string path; std::vector<GR> recs; int fmt; };
struct QG {
  Gen& g; std::vector<GF> files; int nf = 0, nh = 0, nr = 0; std::map<int, std::vector<int>> runs;   // kind -> first slot of 4 in a row
  explicit QG(Gen& g_) : g(g_) {}
  std::vector<int> kinds;
  void slots() { runs.clear(); for (int k : kinds) { int a = g.newslot(k); for (int i = 0; i < 3; ++i) g.newslot(k); runs[k] = {a}; } }
  std::string word() { return plain(bstr(g, 10, true)); }
  static std::string plain(std::string s) { for (char& c : s) if (!isalnum((unsigned char)c)) c = 'q'; return s.empty() ? "e" : s; }
  void record(int h, GF& f) {
    int k = kinds[g.r.below((int)kinds.size())]; long sl = runs[k][0] + g.r.below(4); Op* o; GR r{0, k, 1, false};
    auto box = [&](Op& q) { std::vector<long> lo, hi; for (int i = 0; i < 4; ++i) { int a = g.r.below(g.p->latt[i]), b = g.r.below(g.p->latt[i]); lo.push_back(std::min(a, b)); hi.push_back(std::max(a, b)); } q.a.insert(q.a.end(), lo.begin(), lo.end()); q.a.insert(q.a.end(), hi.begin(), hi.end()); };
    switch (g.r.below(12)) {
      case 0: case 1: case 2: o = &g.op("qio.wfield", {h, sl, g.r.below(2)}); break;
      case 3: case 4: o = &g.op("qio.whyper", {h, sl}); box(*o); break;
      case 5: case 6: r.array = true; r.count = g.r.range(1, 4); o = &g.op("qio.wfieldn", {h, runs[k][0], r.count}); break;
      case 7: r.array = true; r.count = g.r.range(1, 4); o = &g.op("qio.whypern", {h, runs[k][0]}); box(*o); o->a.push_back(r.count); break;
      case 8: case 9: case 10: { static const int sk[] = {K_I, K_R, K_D, K_C, K_V, K_M}; r.form = 1; r.kind = sk[g.r.below(6)]; r.array = g.r.below(2); r.count = r.array ? g.r.range(g.r.below(8) ? 1 : 0, 5) : 1; o = &g.op("qio.wscal", {h, r.kind, r.array ? r.count : -1, g.r.below(1000)}); break; }
      default: r.form = 2; o = &g.op("qio.wbuf", {h, 0, g.r.below(2)});
    }
    o->s.push_back(word()); if (r.form == 2) o->s.push_back(g.r.below(6) ? bstr(g, 40, false) : "");
    f.recs.push_back(r);
    if (g.r.below(5) == 0) g.op("qio.wbad", {h});
    if (g.r.below(3) == 0) g.refill((int)sl);
  }
  void write(const std::string& old = "") {
    int h = nh++, fmt = g.r.below(5) ? SINGLE : g.r.below(2) ? MULTI : PART; GF f; f.path = old.empty() ? "q" + std::to_string(nf++) : old; size_t at = files.size();
    int mode = g.r.below(4) ? TRUNC : CREATE;
    if (!old.empty()) for (size_t i = 0; i < files.size(); ++i) if (files[i].path == old) { at = i; f = files[i]; fmt = f.fmt; mode = APPEND; if (g.r.below(4) == 0) { mode = TRUNC; f.recs.clear(); } }
    f.fmt = fmt;
    Op& o = g.op("qio.w", {h, fmt, g.r.below(2), mode, g.r.below(4)}); o.s = {f.path, word(), g.r.below(2) ? word() : ""};
    int n = g.r.range(g.r.below(8) ? 1 : 0, g.tier ? 7 : 4); for (int i = 0; i < n; ++i) record(h, f);
    if (g.r.below(2)) { g.op("qio.wclose", {h, g.r.below(2)}); if (g.r.below(2)) g.op("qio.wbad", {h}); if (g.r.below(2)) g.op("qio.wdel", {h}); } else g.op("qio.wdel", {h});
    if (at < files.size()) files[at] = f; else files.push_back(f);
  }
  void read(const GF& f, bool all) {
    int h = nr++; Op& o = g.op("qio.r", {h, g.r.below(2), g.r.below(2)}); o.s = {f.path}; bool stop = false;
    for (auto& r : f.recs) {
      if (!all && g.r.below(12) == 0) break;
      while (g.r.below(4) == 0) g.op("qio.rinfo", {h});
      int cnt = r.count, k = r.kind; bool arr = r.array || (cnt == 1 && g.r.below(5) == 0); if (r.array && cnt == 1 && g.r.below(3) == 0) arr = false;
      if (k == K_R && g.r.below(4) == 0 && (r.form || runs.count(K_D))) k = K_D; else if (k == K_D && g.r.below(4) == 0 && (r.form || runs.count(K_R))) k = K_R;
      if (!stop && r.form < 2 && arr && cnt && g.r.below(40) == 0) { cnt = cnt % 4 + 1; if (cnt != r.count) stop = true; }       // another number of objects: refused
      if (r.form == 0) { if (arr) g.op("qio.rfieldn", {h, runs[k][0], cnt}); else g.op("qio.rfield", {h, runs[k][0] + g.r.below(4), g.r.below(2)}); }
      else if (r.form == 1) g.op("qio.rscal", {h, k, arr ? cnt : -1});
      else g.op("qio.rbuf", {h});
    }
    if (g.r.below(25) == 0) g.op("qio.rinfo", {h});
    g.op("qio.rclose", {h, g.r.below(3) - 1, g.r.below(2)});
  }
};
}
Spec g_C22(Gen& g) {
  g.sched(); QG q(g);
  auto variant = [&](const int* L) { return L && L[0] % 2 ? std::string("ps-lex") : pickv(g, {"ps-cb2", "ps-lex", "ps-cb2", "ps-cb3d", "sc-cb2-xml"}); };
  g.begin_phase(variant(nullptr), 8, g.tier ? 64 : 36);
  static const std::vector<int> K = {K_I, K_R, K_D, K_C, K_V, K_M, K_F};
  q.kinds = somekinds(g, K, g.r.range(1, 3)); if (g.r.below(4) == 0) q.kinds = {K_R, K_D};
  int L[4]; for (int i = 0; i < 4; ++i) L[i] = g.p->latt[i];
  int np = g.r.range(1, 3); bool hurt = false;
  auto grid = [&] {
    std::vector<long> a = {0, 0, 0, 0};
    // the library's master I/O node is always node 0: it must be the origin of its block
    auto& pm = g.p->perm; for (size_t i = 1; i < pm.size(); ++i) if (pm[i] == 0) std::swap(pm[i], pm[0]);
    if (g.r.below(3) == 0) { for (int i = 0; i < 4; ++i) a[i] = g.r.below(2) ? 1 : g.r.range(1, 4); g.op("qio.grid", a); }
    if (g.r.below(2)) g.op("qio.ionode", a);
  };
  for (int ph = 0; ph < np; ++ph) {
    if (ph) { rephase(g, variant(L), 8, L); q.nh = q.nr = 0; std::vector<GF> keep; for (auto& f : q.files) if (f.fmt == SINGLE) keep.push_back(f); q.files = keep; }
    bool damage = ph && ph == np - 1 && !q.files.empty() && g.r.below(4) == 0;
    if (damage) { hurt = true; GF& f = q.files[g.r.below((int)q.files.size())]; Op o; o.name = "disk.trunc"; o.s = {f.path}; o.a = {0, 1 + g.r.below(g.r.below(2) ? 8 : 2000)}; g.p->ops.push_back(o); }
    q.slots(); grid();
    int nw = ph == 0 ? g.r.range(1, 2) : hurt ? 0 : g.r.below(2);
    for (int i = 0; i < nw; ++i) q.write(!q.files.empty() && g.r.below(3) == 0 ? q.files[g.r.below((int)q.files.size())].path : "");
    for (auto& f : q.files) if (g.r.below(3) || ph == np - 1) q.read(f, damage);
    if (g.r.below(30) == 0) { Op& o = g.op("qio.r", {q.nr++, 0, 0}); o.s = {"nothere"}; }
    finish(g);
  }
  int w = g.r.below(5);
  if (w == 0) {
    static const char* kd[] = {"fs.open-w", "fs.eio-w", "fs.enospc", "fs.close", "fs.eio-r", "fs.open-r"}; std::string k = kd[g.r.below(6)];
    if (g.r.below(2)) g.s.k["fat." + k] = 1 + g.r.below(g.r.below(2) ? 3 : 15); else { static const int pm[] = {50, 150, 400, 1000}; g.s.k["f." + k] = pm[g.r.below(4)]; g.s.k["f.max"] = g.r.below(3) ? 1 : 4; }
  } else if (w == 1) g.s.k["fs.cap"] = g.r.below(2) ? g.r.below(3000) : g.r.below(30000);
  if (g.r.below(3) == 0) { g.s.k["fs.short"] = g.r.range(5, 60); }
  g.s.k["anynode"] = 1;
  return g.s;
}
}
