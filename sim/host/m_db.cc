// Disk maps: oracle over histories (candidate values per key) and generators of C16 and C17.
#include "io.h"
#include "../common/db.h"
#include <algorithm>
#include <cstring>
namespace sim {
using namespace simf; using namespace simdb;
namespace {
typedef std::set<std::string> Cand;                 // "" absent, "=..." a value
typedef std::map<long, Cand> Cur;
struct FDb { int kt = 0, vt = 0; Cur cur, ever; std::string user; bool vague = false, hurt = false, openok = true; std::set<long> solid; };
struct Hd { bool wrote = false; int kt = 0, vt = 0; bool multi = false, open = false, ro = false, mod = false, truncating = false, created = false; std::string file; std::vector<std::string> files; std::string user; Cur cur, att; std::set<long> solid; long version = 0; };
std::map<std::string, FDb> fdb;                     // what each file may hold; survives lives
enum { NKEY = 400, NK = 24 };      // keys the model knows; keys ordinary programs use
std::string kbytes(int kt, long k) { int a = kt == KT_INT ? ikey(k) : rkey_a(k); std::string r((char*)&a, 4); if (kt == KT_REC) r += rkey_s(k); return r; }
std::string token(int vt, const Op& o) {            // the value an insert stores
  long p = o.arg(2);
  switch (vt) {
    case V_STR: return "=" + vstr(p);
    case V_DBL: { double d = vdbl(p); return "=" + std::string((char*)&d, 8); }
    case V_ARR: { std::string r = "="; for (int i = 0; i < varr_n(p); ++i) { int x = varr(p, i); r += std::string((char*)&x, 4); } return r; }
    case V_LAT: return "=" + std::to_string(p);
    default: return "=" + std::to_string(p) + "," + std::to_string(o.arg(3));
  }
}
bool isfield(int vt) { return vt == V_LAT || vt == V_TSL; }
std::string shown(const std::string& s) { std::string r; for (unsigned char c : s.substr(0, 40)) { char b[8]; if (c >= 32 && c < 127) r += (char)c; else { snprintf(b, sizeof b, "\\x%02x", c); r += b; } } return r; }
}
// the map in memory: an exact model
struct MM { int kt = 0, vt = 0; std::map<long, std::string> m; std::string user; };
static std::map<int, MM> mmap;
void model_db_start() { mmap.clear(); }
static void model_mm(const Op& o, Expect& e) {
  const std::string& n = o.name; auto str = [&](const std::string& s) { e.has_string = true; e.str = s; };
  if (n == "mm.new") { MM& h = mmap[(int)o.arg(0)]; h = MM(); h.kt = (int)o.arg(1); h.vt = (int)o.arg(2); return; }
  if (n == "mm.del") { mmap.erase((int)o.arg(0)); return; }
  MM& h = mmap.at((int)o.arg(0)); long k = o.arg(1); auto i = h.m.find(k);
  auto listing = [&](bool vals) {
    std::vector<std::string> t; for (auto& x : h.m) t.push_back(kbytes(h.kt, x.first) + (vals ? x.second : "")); std::sort(t.begin(), t.end());
    std::string r; for (auto& x : t) r += std::to_string(x.size()) + ":" + x; str(r);
  };
  if (n == "mm.ins") { h.m[k] = token(h.vt, o); str("0"); }
  else if (n == "mm.get") str(i == h.m.end() ? "none" : "0" + i->second.substr(1));
  else if (n == "mm.at") str(i == h.m.end() ? "" : i->second.substr(1));
  else if (n == "mm.exist") str(i == h.m.end() ? "0" : "1");
  else if (n == "mm.erase") { h.m.erase(k); str("done"); }
  else if (n == "mm.clear") { h.m.clear(); str("done"); }
  else if (n == "mm.flush") str("done");
  else if (n == "mm.size") str(std::to_string(h.m.size()));
  else if (n == "mm.user") { h.user = o.s.at(0); str("0"); }
  else if (n == "mm.guser") str("0" + h.user);
  else if (n == "mm.keys") listing(false);
  else if (n == "mm.kv" || n == "mm.iter") listing(true);
  else if (n == "mm.range") { MM q = mmap.at((int)k); for (auto& x : q.m) h.m[x.first] = x.second; str("0"); }
  else if (n == "mm.copy") { MM q = mmap.at((int)k); h.m = q.m; h.user = q.user; str("done"); }
}
bool model_db(Model&, const Op& o, Expect& e) {
  if (o.name.compare(0, 3, "mm.") == 0) { model_mm(o, e); return true; }
  if (o.name == "disk.lose") {     // pct, window, seed | file: some of the last writes never reached the disk
    auto f = fs().files.find(o.s.at(0)); if (f == fs().files.end()) return true;
    std::vector<const FsWrite*> w;
    for (auto& x : fs().log) { if (x.path != o.s[0]) continue; if (x.kind == 2 && x.pos == -1) w.clear(); else w.push_back(&x); }
    Rng r(mix(o.arg(2), 5)); std::string d; long n = (long)w.size(), lost = 0;
    for (long i = 0; i < n; ++i) {
      size_t len = w[i]->data.size();
      if (i >= n - o.arg(1) && r.chance((int)o.arg(0))) { ++lost; if (r.below(3)) continue; len = r.below((int)len); }
      if (w[i]->kind != 0 || !len) continue;
      if (d.size() < w[i]->pos + len) d.resize(w[i]->pos + len);
      d.replace(w[i]->pos, len, w[i]->data, 0, len);
    }
    if (lost) count("fault.disk.lost-write", lost);
    f->second->data = d; return true;
  }
  return o.name.compare(0, 3, "db.") == 0;
}
struct DbOracle : PlainOracle {
  std::map<int, Hd> hd; std::set<int> begun, stopok, muststop; std::map<int, std::string> first;
  struct GetF { Cand c; int h; long key, version; int vt; };
  std::map<int, GetF> getf;
  static const Op& opof(int op) { static const Op none; auto& v = g_spec->phases[g_phase].ops; return op >= 0 && op < (int)v.size() ? v[op] : none; }
  static bool isdb(const std::string& n) { return n.compare(0, 3, "db.") == 0; }
  static bool there(const std::string& f) { return fs().files.count(f) > 0; }
  long before = 0;                   // faults of earlier lives: only those of this life excuse a failure
  long noncrash() { return g_fault.injected - g_fault.crashes - before; }
  void phase_begin(int p) override {
    before += noncrash(); PlainOracle::phase_begin(p); begun.clear(); stopok.clear(); muststop.clear(); first.clear(); getf.clear(); hd.clear();
    for (auto& o : g_spec->phases[p].ops) {
      if (o.name.compare(0, 5, "disk.")) continue;
      auto i = fdb.find(o.s.at(0)); if (i == fdb.end()) continue; FDb& f = i->second;
      if (o.name == "disk.rm") { fdb.erase(i); continue; }
      if (o.name == "disk.append") continue;
      f.hurt = true; f.openok = false; f.solid.clear();
      if (o.name == "disk.flip" || o.name == "disk.lose") { f.vague = true; f.cur = f.ever; for (auto& c : f.cur) c.second.insert(""); }
    }
  }
  static Cand at(const Cur& c, long k) { auto i = c.find(k); return i == c.end() ? Cand{""} : i->second; }
  Cand look(const Hd& h, long k) {
    if (!h.multi) return at(h.cur, k);
    Cand r;
    for (auto& f : h.files) { Cand c = at(fdb[f].cur, k); bool abs = c.erase("") > 0; r.insert(c.begin(), c.end()); if (!abs) return r; }
    r.insert(""); return r;
  }
  void op_begin(int, int op) override {
    const Op& o = opof(op);
    if (!isdb(o.name) || !begun.insert(op).second) return;
    const std::string& n = o.name;
    auto hurt = [&](const std::string& f) { auto i = fdb.find(f); return i != fdb.end() && i->second.hurt && !i->second.openok; };
    if (n == "db.meta") { if (!there(o.s[0])) muststop.insert(op); else if (hurt(o.s[0])) stopok.insert(op); return; }
    Hd& h = hd[(int)o.arg(0)];
    if (n == "db.new") { h = Hd(); h.kt = (int)o.arg(1); h.vt = (int)o.arg(2); h.multi = o.arg(3); return; }
    if (n == "db.open" && !h.open) {
      for (auto& f : o.s) if (h.multi || o.arg(1) != 2) { if (!there(f)) muststop.insert(op); if (hurt(f)) stopok.insert(op); }
      if (!h.multi && o.arg(1) == 2) { h.truncating = true; h.file = o.s[0]; }
      return;
    }
    if (!h.open) return;
    if (n == "db.ins" && !h.ro) { std::string t = token(h.vt, o); h.att[o.arg(1)].insert(t); h.mod = true; fdb[h.file].ever[o.arg(1)].insert(t); }
    if (n == "db.get") {
      if (h.multi) { for (auto& f : h.files) { FDb& d = fdb[f]; if (d.hurt && !d.solid.count(o.arg(1))) stopok.insert(op); } }
      else { FDb& d = fdb[h.file]; if (d.hurt && !d.solid.count(o.arg(1)) && !h.solid.count(o.arg(1))) stopok.insert(op); }
    }
  }
  void settled(Hd& h) {              // a flush or close has returned
    if (!h.open || h.multi || h.ro) return;
    FDb& f = fdb[h.file];
    if (h.mod) { h.wrote = true; f.openok = true; f.solid.insert(h.solid.begin(), h.solid.end()); if (h.created) { f.vague = f.hurt = false; f.user = h.user; } }
    f.cur = h.cur; h.att.clear(); h.mod = false;
  }
  // the machine stopped with this handle open
  void dropped(Hd& h) {
    FDb& f = fdb[h.file];
    if (h.truncating) { if (!there(h.file)) { fdb.erase(h.file); return; } f.hurt = true; f.openok = false; f.vague = true; f.solid.clear(); for (auto& c : f.cur) c.second.insert(""); return; }
    if (!h.open || h.multi || h.ro || !(h.mod || (h.wrote && noncrash() > 0))) return;    // what was flushed may still be lost when the close fails
    f.hurt = true; f.openok = false;
    for (auto& a : h.att) { Cand c = at(f.cur, a.first); c.insert(a.second.begin(), a.second.end()); f.cur[a.first] = c; f.solid.erase(a.first); }
  }
  [[noreturn]] void wrong(int op, const Hd& h, const char* cls, const std::string& got, const std::string& want) {
    violation(cls, "%s of key %ld in %s answered \"%s\", %s", opof(op).name.c_str(), opof(op).arg(1), h.multi ? "several files" : h.file.c_str(), shown(got).c_str(), want.c_str());
  }
  void apply(int op, const std::string& r) {
    const Op& o = opof(op); const std::string& n = o.name;
    if (n == "db.meta") { FDb& f = fdb[o.s[0]]; if (!f.vague && r != f.user) violation("db.userdata", "user data of %s is \"%s\", stored was \"%s\"", o.s[0].c_str(), shown(r).c_str(), shown(f.user).c_str()); return; }
    Hd& h = hd[(int)o.arg(0)]; long k = o.arg(1);
    auto expect = [&](const std::string& w) { if (r != w) wrong(op, h, "db.answer", r, "expected \"" + shown(w) + "\""); };
    if (n == "db.del") { settled(h); hd.erase((int)o.arg(0)); return; }
    if (n == "db.user") { expect(h.open ? "1" : "0"); if (!h.open) h.user = o.s[0]; return; }
    if (n == "db.fexist") { bool all = true; for (auto& f : o.s) if (!there(f)) all = false; expect(all ? "1" : "0"); return; }
    if (n == "db.open") {
      if (h.open) { expect("refused"); return; }
      expect("opened"); h.open = true; ++h.version; h.att.clear(); h.solid.clear(); h.mod = h.wrote = h.truncating = h.created = false;
      if (h.multi) { h.files = o.s; h.ro = true; count("db.reopen"); return; }
      h.file = o.s[0]; h.ro = o.arg(1) == 0;
      if (o.arg(1) == 2) { FDb f; f.kt = h.kt; f.vt = h.vt; f.user = h.user; f.vague = true; f.hurt = true; f.openok = false; fdb[h.file] = f; h.cur.clear(); h.mod = h.created = true; count("db.create"); }
      else { FDb& f = fdb[h.file]; h.cur = f.cur; h.user = f.user; count(f.hurt && !f.openok ? "db.reopen-hurt" : "db.reopen"); }
      return;
    }
    if (n == "db.flush" || n == "db.close") { bool was = h.open && h.mod; settled(h); if (n == "db.close") { h.open = false; if (!h.multi) ++h.version; } if (was) count("db.settled"); return; }
    if (n == "db.ins") {
      if (!h.open || h.ro) { if (r == "0") wrong(op, h, "db.answer", r, "but the map cannot be written"); return; }
      std::string t = token(h.vt, o); ++h.version;
      if (r == "0") { h.cur[k] = {t}; h.solid.insert(k); if (fdb[h.file].hurt && !h.created) count("db.insert-after-crash"); return; }
      if (!noncrash()) wrong(op, h, "db.answer", r, "expected success");
      Cand c = at(h.cur, k); c.insert(t); h.cur[k] = c; h.solid.erase(k); return;
    }
    if (n == "db.guser") {
      if (!h.open) { if (r == "" || r[0] == '0') wrong(op, h, "db.answer", r, "but the map is not open"); return; }
      const FDb& f = fdb[h.multi ? h.files.at(0) : h.file];
      if (!f.vague || h.created) { std::string u = "0" + (h.multi ? f.user : h.user); if (r != u) violation("db.userdata", "user data of %s is \"%s\", stored was \"%s\"", h.file.c_str(), shown(r).c_str(), shown(u).c_str()); }
      return;
    }
    if (n == "db.get") {
      if (!h.open) { if (r == "" || r[0] == '0') wrong(op, h, "db.answer", r, "but the map is not open"); return; }
      Cand c = look(h, k);
      if (r.empty()) wrong(op, h, "db.answer", r, "no status");
      if (r[0] != '0') { if (!c.count("")) wrong(op, h, "db.lost", r, "but the key was inserted"); if (!h.multi) h.cur[k] = {""}; return; }
      c.erase("");
      if (c.empty()) wrong(op, h, "db.wrong", r, "but the key was never inserted or is not in this file");
      if (isfield(h.vt)) { getf[op] = {c, (int)o.arg(0), k, h.version, h.vt}; return; }
      std::string t = "=" + r.substr(1);
      if (!c.count(t)) wrong(op, h, fdb[h.file].ever[k].count(t) ? "db.stale" : "db.wrong", r, "the value inserted last is " + shown(*c.begin()));
      if (!h.multi) h.cur[k] = {t};
      count("db.get-ok"); return;
    }
    if (n == "db.exist") {
      if (!h.open) return;
      Cand c = look(h, k);
      if (r == "1") { c.erase(""); if (c.empty()) wrong(op, h, "db.wrong", r, "but the key was never inserted"); if (!h.multi) h.cur[k] = c; }
      else { if (!c.count("")) wrong(op, h, "db.lost", r, "but the key was inserted"); if (!h.multi) h.cur[k] = {""}; }
      return;
    }
    if (n == "db.size") {
      if (!h.open) return;
      long lo = 0, hi = 0; for (long q = 0; q < NKEY; ++q) { Cand c = at(h.cur, q); bool a = c.count("") > 0; if (!a) ++lo; if (!a || c.size() > 1) ++hi; }
      long v = atol(r.c_str()); if (v < lo || v > hi) wrong(op, h, "db.size", r, "expected " + std::to_string(lo) + " to " + std::to_string(hi));
      return;
    }
    if (n == "db.keys") {
      if (!h.open) { expect(""); return; }
      std::multiset<std::string> ks; size_t p = 0;
      while (p < r.size()) { size_t q = r.find(':', p); size_t len = atol(r.c_str() + p); ks.insert(r.substr(q + 1, len)); p = q + 1 + len; }
      for (long q = 0; q < NKEY; ++q) {
        Cand c = look(h, q); std::string b = kbytes(h.kt, q); size_t m = ks.count(b); ks.erase(b);
        if (m > 1) wrong(op, h, "db.keys", b, "the key is listed twice");
        if (m == 0 && !c.count("")) wrong(op, h, "db.lost", b, "the key is missing from the list");
        bool abs = c.erase("") > 0; if (m == 1 && c.empty()) wrong(op, h, "db.wrong", b, "the key is listed but was never inserted");
        if (!h.multi && (abs || m)) h.cur[q] = m ? c : Cand{""};
      }
      if (!ks.empty()) wrong(op, h, "db.wrong", *ks.begin(), "a key is listed that nobody inserted");
      return;
    }
  }
  void on_string(int node, int op, const std::string& s) override {
    if (!isdb(opof(op).name)) { PlainOracle::on_string(node, op, s); return; }
    auto i = first.find(op);
    if (i != first.end()) { if (i->second != s) violation("db.nodes-differ", "%s answers \"%s\" on node %d and \"%s\" on another", opof(op).name.c_str(), shown(s).c_str(), node, shown(i->second).c_str()); return; }
    first[op] = s; apply(op, s);
  }
  void on_field(int node, int op, int slot, int kind, const void* w, long ns) override {
    if (!isdb(opof(op).name)) { PlainOracle::on_field(node, op, slot, kind, w, ns); return; }
    auto g = getf.find(op); if (g == getf.end()) return;      // not found: nothing is promised about the field
    const Op& o = opof(op); NodeRt& r = g_rt->node[node]; const int* L = g_rt->model.L; Cand left;
    for (auto& t : g->second.c) {
      long pat = atol(t.c_str() + 1), tt = g->second.vt == V_TSL ? atol(strchr(t.c_str(), ',') + 1) : 0; bool ok = true;
      for (long i = 0; i < ns && ok; ++i) {
        long s = r.site[i]; int c[4]; unlex(s, L, c); bool old = g->second.vt == V_TSL && c[3] != o.arg(3);
        if (g->second.vt == V_TSL) { c[3] = (int)tt; }
        long src = old ? s : lex(c, L);
        for (int j = 0; j < 6 && ok; ++j) if (elem_of(K_V, w, (size_t)i * 6 + j) != fillval(old ? 3 : pat, src, j, K_V)) ok = false;
      }
      if (ok) left.insert(t);
    }
    if (left.empty()) violation("db.wrong", "lookup of key %ld gave node %d a field that is none of the %zu values it may have (expected e.g. %s)", o.arg(1), node, g->second.c.size(), g->second.c.begin()->c_str());
    g->second.c = left; Hd& h = hd[g->second.h];
    if (h.version == g->second.version && h.open && !h.multi) { bool abs = at(h.cur, g->second.key).count("") > 0; (void)abs; h.cur[g->second.key] = left; }
    if (node == 0) count("db.get-field-ok");
  }
  void op_end(int node, int op) override {
    if (muststop.count(op)) violation("db.open-missing", "%s of a missing file returned on node %d", opof(op).name.c_str(), node);
  }
  bool may_run_long() override {       // a damaged length is believed, element by element, until the file ends
    for (Node* n : g_nodes) if (n->end == NE_RUNNING && stopok.count(n->opidx)) return true;
    return false;
  }
  bool may_stop(int) override {
    if (noncrash() > 0) return true;
    for (Node* n : g_nodes) { if (n->end == NE_CRASHED) return true; if (n->end != NE_DONE && (stopok.count(n->opidx) || muststop.count(n->opidx))) return true; }
    return false;
  }
  void phase_end(int p, bool clean) override { PlainOracle::phase_end(p, clean); for (auto& h : hd) dropped(h.second); }
};
Oracle* db_oracle() { return new DbOracle; }
// ---- generators -------------------------------------------------------------------------------------------------
namespace {
struct GF { int kt, vt; bool damaged = false; };
struct GH { int h; int kt, vt; std::string file; };
struct DG { std::map<std::string, GF> files; int nexth = 0, nf = 0; long pat = 1; bool keep_types = false, many = false; };
std::string db_variant(Gen& g, const int* L) { if (L && L[0] % 2) return pickv(g, {"ps-lex", "sc-lex-xml"}); return pickv(g, {"ps-cb2", "ps-lex", "ps-cb3d", "sc-cb2-xml", "sc-lex-xml", "sc-cb3d-xml"}); }
long gkey(Gen& g) { return g.r.below(4) ? g.r.below(5) : g.r.below(NK); }
void insert(Gen& g, DG& d, const GH& h, long key) { g.op("db.ins", {h.h, key, d.pat++, h.vt == V_TSL ? g.r.below(g.p->latt[3]) : 0}); }
void get(Gen& g, const GH& h, long key) { g.op("db.get", {h.h, key, g.r.below(2), h.vt == V_TSL ? g.r.below(g.p->latt[3]) : 0}); }
void ask(Gen& g, DG& d, const GH& h, int ins_pct) {
  if (g.r.chance(ins_pct)) { insert(g, d, h, gkey(g)); return; }
  switch (g.r.below(12)) {
    case 0: g.op("db.exist", {h.h, gkey(g)}); break;
    case 1: g.op("db.size", {h.h}); break;
    case 2: g.op("db.keys", {h.h}); break;
    case 3: g.op("db.guser", {h.h}); break;
    case 4: g.op("db.flush", {h.h}); break;
    case 5: { Op& o = g.op("db.user", {h.h}); o.s = {"late"}; break; }
    case 6: if (g.r.below(4) == 0) { Op& o = g.op("db.open", {h.h, g.r.below(3)}); o.s = {h.file}; break; }
    // fall through
    default: get(g, h, gkey(g));
  }
}
GH make(Gen& g, DG& d, int kt, int vt) { GH h{d.nexth++, kt, vt, ""}; g.op("db.new", {h.h, kt, vt, 0}); if (g.r.below(6) == 0) g.op("db.debug", {h.h, g.r.below(4)}); return h; }
void create(Gen& g, DG& d, GH& h, const std::string& f) {
  Op& u = g.op("db.user", {h.h}); u.s = {g.r.below(4) ? bstr(g, 40, false) : ""}; if (g.r.below(6) == 0) for (char& c : u.s[0]) if (g.r.below(4) == 0) c = 0;
  
  Op& o = g.op("db.open", {h.h, 2}); o.s = {f}; h.file = f; d.files[f] = {h.kt, h.vt};
}
void reopen(Gen& g, GH& h, const std::string& f, bool write) { Op& o = g.op("db.open", {h.h, write ? 1 : 0, g.r.below(2)}); o.s = {f}; h.file = f; }
void session(Gen& g, DG& d, GH& h, int n, int ins_pct) { for (int i = 0; i < n; ++i) ask(g, d, h, ins_pct); }
void ending(Gen& g, GH& h, bool may_leave) {
  int w = g.r.below(8);
  if (g.r.below(4) == 0) g.op("db.flush", {h.h});
  if (w == 0 && may_leave) return;                     // the program ends without closing
  if (w < 3) { g.op("db.del", {h.h}); return; }
  g.op("db.close", {h.h}); if (g.r.below(4) == 0) { g.op("db.keys", {h.h}); g.op("db.get", {h.h, gkey(g), 0, 0}); g.op("db.guser", {h.h}); g.op("db.close", {h.h}); }
  if (g.r.below(2)) g.op("db.del", {h.h});
}
void sweep(Gen& g, const GH& h) { int lim = g.r.below(3) ? 6 : (int)NK; g.op("db.keys", {h.h}); g.op("db.size", {h.h}); for (int k = 0; k < lim; ++k) get(g, h, k); g.op("db.guser", {h.h}); }
int pick_vt(Gen& g) { static const int v[] = {V_STR, V_STR, V_STR, V_LAT, V_LAT, V_TSL, V_DBL, V_ARR}; return v[g.r.below(8)]; }
void life(Gen& g, DG& d, bool hurt, bool leave) {
  int ns = g.r.range(1, 3);
  for (int s = 0; s < ns; ++s) {
    int w = g.r.below(10);
    if (d.files.empty() || w < 3) {
      // an existing file is made anew; where an earlier state may survive, with the types it had
      bool anew = !d.files.empty() && g.r.below(5) == 0; std::string f = anew ? d.files.begin()->first : "m" + std::to_string(d.nf++);
      GH h = anew && d.keep_types ? make(g, d, d.files[f].kt, d.files[f].vt) : make(g, d, g.r.below(2), pick_vt(g));
      create(g, d, h, f);
      if (d.many && h.vt <= V_ARR && g.r.below(2)) {      // many keys: the table in memory and on disk grows
        int n = g.r.range(30, g.tier ? NKEY : 150), k0 = g.r.below(NKEY - n + 1), st = g.r.range(1, 30);
        while (std::__gcd(st, n) != 1) ++st;
        for (int i = 0; i < n; ++i) insert(g, d, h, k0 + (long)i * st % n);
        for (int i = 0; i < 10; ++i) get(g, h, g.r.below(NKEY));
        g.op("db.size", {h.h}); g.op("db.keys", {h.h});
      }
      session(g, d, h, g.r.range(2, g.tier ? 30 : 16), 60);
      if (g.r.below(4) == 0) {      // the same object goes on with another file
        g.op("db.close", {h.h});
        if (g.r.below(2)) create(g, d, h, "m" + std::to_string(d.nf++));
        else { std::string f; for (auto& x : d.files) if (x.second.kt == h.kt && x.second.vt == h.vt && (f.empty() || g.r.below(2))) f = x.first; reopen(g, h, f, g.r.below(2)); }
        sweep(g, h); session(g, d, h, g.r.range(1, 8), 40);
      }
      ending(g, h, leave && s == ns - 1);
      continue;
    }
    auto it = d.files.begin(); std::advance(it, g.r.below((int)d.files.size()));
    std::string f = it->first; GF gf = it->second;
    if (w == 3) {
      if (gf.vt == V_STR || gf.vt == V_LAT) {      // several files read as one
        int h = d.nexth++; g.op("db.new", {h, gf.kt, gf.vt, 1}); std::vector<std::string> fl; for (auto& x : d.files) if (x.second.kt == gf.kt && x.second.vt == gf.vt && (x.first == f || g.r.below(3))) fl.push_back(x.first);
        for (int i = (int)fl.size() - 1; i > 0; --i) std::swap(fl[i], fl[g.r.below(i + 1)]);
        if (g.r.below(2)) { Op& o = g.op("db.fexist", {h}); o.s = fl; if (g.r.below(2)) o.s.push_back("nothere"); }
        for (int rep = g.r.range(1, 2); rep > 0; --rep) {
          Op& o = g.op("db.open", {h, 0}); o.s = fl; GH q{h, gf.kt, gf.vt, f};
          for (int i = g.r.range(2, 8); i > 0; --i) switch (g.r.below(6)) { case 0: g.op("db.exist", {h, gkey(g)}); break; case 1: g.op("db.keys", {h}); break; case 2: g.op("db.guser", {h}); break; case 3: if (g.r.below(2)) { g.op("db.flush", {h}); break; } default: get(g, q, gkey(g)); }
          g.op("db.close", {h}); if (g.r.below(4) == 0) { g.op("db.close", {h}); g.op("db.keys", {h}); get(g, q, gkey(g)); }
        }
        if (g.r.below(2)) g.op("db.del", {h});
        continue;
      }
    }
    if (w == 4) { Op& o = g.op("db.meta", {}); o.s = {f}; }
    GH h = make(g, d, gf.kt, gf.vt);
    if (g.r.below(4) == 0) { Op& o = g.op("db.fexist", {h.h}); o.s = {g.r.below(2) ? f : "nothere"}; }
    bool wr = g.r.below(3) > 0; reopen(g, h, f, wr);
    if (g.r.below(2) || hurt) sweep(g, h);
    session(g, d, h, g.r.range(1, g.tier ? 20 : 12), wr ? 45 : 8);
    if (g.r.below(3) == 0) sweep(g, h);
    ending(g, h, leave && s == ns - 1);
  }
}
// maps in memory of one type, copied and merged
void memlife(Gen& g, DG& d) {
  struct H { int h; std::set<long> in; }; int kt = g.r.below(2), vt = g.r.below(3), big = g.r.below(6) == 0 ? 60 : 0;
  std::vector<H> hs; auto mk = [&] { hs.push_back({d.nexth++, {}}); g.op("mm.new", {hs.back().h, kt, vt}); }; mk();
  auto key = [&]() -> long { return big && g.r.below(2) ? g.r.below(big) : gkey(g); };
  for (int n = g.r.range(4, g.tier ? 60 : 30) + big; n > 0; --n) {
    H& h = hs[g.r.below((int)hs.size())]; long k = key();
    switch (g.r.below(16)) {
      case 0: case 1: case 2: case 3: case 4: g.op("mm.ins", {h.h, k, d.pat++, g.r.below(h.in.count(k) ? 4 : 3)}); h.in.insert(k); break;
      case 5: case 6: case 7: g.op("mm.get", {h.h, k, g.r.below(2)}); break;
      case 8: if (h.in.empty()) break; { auto i = h.in.begin(); std::advance(i, g.r.below((int)h.in.size())); g.op("mm.at", {h.h, *i, g.r.below(2)}); } break;
      case 9: g.op("mm.exist", {h.h, k}); break;
      case 10: g.op("mm.erase", {h.h, k}); h.in.erase(k); break;
      case 11: { static const char* q[] = {"mm.keys", "mm.kv", "mm.iter", "mm.size", "mm.flush", "mm.guser"}; g.op(q[g.r.below(6)], {h.h}); break; }
      case 12: { Op& o = g.op("mm.user", {h.h}); o.s = {rstr(g, 12, false)}; break; }
      case 13: if (hs.size() < 3) mk(); break;
      case 14: { H& q = hs[g.r.below((int)hs.size())]; if (q.h == h.h) break; if (g.r.below(2)) { g.op("mm.range", {h.h, q.h}); h.in.insert(q.in.begin(), q.in.end()); } else { g.op("mm.copy", {h.h, q.h, g.r.below(2)}); h.in = q.in; } break; }
      case 15: if (g.r.below(6) == 0) { g.op("mm.clear", {h.h}); h.in.clear(); } break;
    }
  }
  for (auto& h : hs) { g.op("mm.iter", {h.h}); g.op("mm.guser", {h.h}); if (g.r.below(2)) g.op("mm.del", {h.h}); }
}
}
static Spec db_gen(Gen& g, bool faults) {
  g.sched(); DG d; d.many = !faults && g.r.below(10) == 0;
  g.begin_phase(db_variant(g, nullptr), 8, 32);
  int L[4]; for (int i = 0; i < 4; ++i) L[i] = g.p->latt[i];
  int np = faults ? g.r.range(2, 3) : g.r.range(1, 3), mode = faults ? g.r.below(8) : 8;   // 0-2 crash, 3-4 damage, 5 lost writes, 6-7 failing calls
  d.keep_types = np > 1;      // a life may stop early and leave the older file to the next one
  for (int ph = 0; ph < np; ++ph) {
    if (ph) { int K[4]; for (int i = 0; i < 4; ++i) K[i] = L[i]; rephase(g, db_variant(g, K), 8, K); }
    if (ph && mode >= 3 && mode <= 5 && (ph == np - 1 || g.r.below(2))) for (auto& x : d.files) if (g.r.below(3)) {
      Op o; o.s = {x.first}; int w = g.r.below(4);
      if (mode == 5) { o.name = "disk.lose"; o.a = {g.r.range(20, 100), g.r.below(3) ? g.r.range(1, 8) : 1000, g.r.below(1 << 20)}; }
      else if (w == 0) { o.name = "disk.trunc"; o.a = {0, 1 + g.r.below(g.r.below(2) ? 40 : 400)}; }
      else if (w == 1) { o.name = "disk.trunc"; o.a = {g.r.below(1000), 0}; }
      else if (w == 2) { o.name = "disk.flip"; o.a = {g.r.below(2) ? g.r.below(80) : g.r.below(1 << 20), g.r.below(8)}; }
      else { o.name = "disk.append"; o.s.push_back(rstr(g, 30, false)); }
      g.p->ops.push_back(o);
    }
    g.newslot(K_V); g.newslot(K_V);
    life(g, d, faults && ph, !faults || g.r.below(3) == 0);
    if (!faults && g.r.below(4) == 0) memlife(g, d);
    if (g.r.below(30) == 0) { GH h = make(g, d, 0, 0); reopen(g, h, "nothere", g.r.below(2)); }
  }
  if (mode <= 2) { if (g.r.below(4)) g.s.k["fat.crash"] = 1 + g.r.below(g.r.below(2) ? 20 : 120); else { g.s.k["f.crash"] = 15; g.s.k["f.max"] = 1; } }
  else if (mode == 6 || mode == 7) {
    static const char* kd[] = {"fs.open-w", "fs.eio-w", "fs.eio-w", "fs.enospc", "fs.close", "fs.close", "fs.eio-r", "fs.open-r"}; std::string k = kd[g.r.below(8)];
    int w = g.r.below(5);
    if (w == 0) g.s.k["fs.cap"] = g.r.below(2) ? g.r.below(800) : g.r.below(12000);
    else if (w < 3) g.s.k["fat." + k] = 1 + g.r.below(g.r.below(2) ? 5 : 40); else { static const int pm[] = {20, 60, 150, 400}; g.s.k["f." + k] = pm[g.r.below(4)]; g.s.k["f.max"] = g.r.below(3) ? 1 : 4; }
  }
  if (g.r.below(3) == 0) { g.s.k["fs.short"] = g.r.range(5, 60); g.s.k["fs.eintr"] = g.r.range(0, 20); }
  return g.s;
}
Spec g_C16(Gen& g) { return db_gen(g, false); }
Spec g_C17(Gen& g) { return db_gen(g, true); }
}
