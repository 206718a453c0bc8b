// Disk maps.
#include "vm.h"
#include "qdp_map_obj_disk.h"
#include "qdp_map_obj_memory.h"
#include "qdp_map_obj_disk_multiple.h"
#include "qdp_disk_map_slice.h"
#include "../common/db.h"
#include <algorithm>
using namespace simdb;
typedef LatticeColorVector LV;
struct KRec { int a; std::string s; };
struct VStr { std::string s; };
namespace QDP {
void write(BinaryWriter& b, const KRec& k) { write(b, k.a); writeDesc(b, k.s); }
void read(BinaryReader& b, KRec& k) { read(b, k.a); readDesc(b, k.s); }
void write(BinaryWriter& b, const VStr& k) { writeDesc(b, k.s); }
void read(BinaryReader& b, VStr& k) { readDesc(b, k.s); }
}
static void str(const std::string& s) { sim_string(s.data(), (long)s.size()); }
static void mkkey(int& k, long i) { k = ikey(i); }
static void mkkey(KRec& k, long i) { k.a = rkey_a(i); k.s = rkey_s(i); }
static std::string bytes(const int& k) { return std::string((const char*)&k, 4); }
static std::string bytes(const KRec& k) { return bytes(k.a) + k.s; }
static void fillv(VM& vm, LV& f, long pat) { for (long i = 0; i < vm.nloc; ++i) { float* w = (float*)&f.elem((int)i); for (int j = 0; j < 6; ++j) w[j] = (float)simf::fillval(pat, vm.lexs[i], j, sim::K_V); } }
// how a value type is written and read by the program
template <class V> struct Use;
template <> struct Use<VStr> {
  template <class M, class K> static int ins(VM&, M& m, const K& k, const Op& o) { VStr v{vstr(o.arg(2))}; return m.insert(k, v); }
  template <class M, class K> static bool get(VM&, M& m, const K& k, const Op&) { VStr v{"unset"}; int r = m.get(k, v); str(r ? std::to_string(r) : "0" + v.s); return false; }
};
template <> struct Use<double> {
  template <class M, class K> static int ins(VM&, M& m, const K& k, const Op& o) { return m.insert(k, vdbl(o.arg(2))); }
  template <class M, class K> static bool get(VM&, M& m, const K& k, const Op&) { double v = 1e300; int r = m.get(k, v); str(r ? std::to_string(r) : "0" + std::string((char*)&v, 8)); return false; }
};
template <> struct Use<multi1d<int>> {
  template <class M, class K> static int ins(VM&, M& m, const K& k, const Op& o) { multi1d<int> v(varr_n(o.arg(2))); for (int i = 0; i < v.size(); ++i) v[i] = varr(o.arg(2), i); return m.insert(k, v); }
  template <class M, class K> static bool get(VM&, M& m, const K& k, const Op&) { multi1d<int> v(2); v = 77; int r = m.get(k, v); str(r ? std::to_string(r) : "0" + std::string((char*)v.slice(), 4 * v.size())); return false; }
};
template <> struct Use<LV> {
  template <class M, class K> static int ins(VM& vm, M& m, const K& k, const Op& o) { LV f; fillv(vm, f, o.arg(2)); return m.insert(k, f); }
  template <class M, class K> static bool get(VM& vm, M& m, const K& k, const Op& o) { LV& f = vm.f<LV>(o.arg(2)); fillv(vm, f, 3); int r = m.get(k, f); str(std::to_string(r)); vm.report(o.arg(2)); return true; }
};
template <> struct Use<TimeSliceIO<LV>> {
  template <class M, class K> static int ins(VM& vm, M& m, const K& k, const Op& o) { LV f; fillv(vm, f, o.arg(2)); return m.insert(k, TimeSliceIO<LV>(f, (int)o.arg(3))); }
  template <class M, class K> static bool get(VM& vm, M& m, const K& k, const Op& o) { LV& f = vm.f<LV>(o.arg(2)); fillv(vm, f, 3); TimeSliceIO<LV> t(f, (int)o.arg(3)); int r = m.get(k, t); str(std::to_string(r)); vm.report(o.arg(2)); return true; }
};
struct DbH { virtual ~DbH() {} virtual bool run(VM&, const Op&) = 0; };
template <class M, class K> static void listkeys(M& m) {
  std::vector<K> ks; m.keys(ks); std::vector<std::string> t; for (auto& k : ks) t.push_back(bytes(k));
  std::sort(t.begin(), t.end()); std::string r; for (auto& x : t) r += std::to_string(x.size()) + ":" + x; str(r);
}
template <class K, class V> struct Db1 : DbH {
  MapObjectDisk<K, V> m;
  bool run(VM& vm, const Op& o) override {
    const std::string& n = o.name; K k{}; mkkey(k, o.arg(1));
    if (n == "db.debug") m.setDebug((int)o.arg(1));
    else if (n == "db.user") str(std::to_string(m.insertUserdata(o.s.at(0))));
    else if (n == "db.open") {
      std::ios_base::openmode md = o.arg(1) == 0 ? std::ios_base::in : std::ios_base::in | std::ios_base::out; if (o.arg(1) == 2) md |= std::ios_base::trunc;
      std::string r = "opened";
      try { if (o.arg(1) == 1 && o.arg(2)) m.open(o.s.at(0)); else m.open(o.s.at(0), md); } catch (const std::string&) { r = "refused"; }
      str(r);
    } else if (n == "db.ins") str(std::to_string(Use<V>::ins(vm, m, k, o)));
    else if (n == "db.get") Use<V>::get(vm, m, k, o);
    else if (n == "db.exist") str(m.exist(k) ? "1" : "0");
    else if (n == "db.size") str(std::to_string(m.size()));
    else if (n == "db.keys") listkeys<MapObjectDisk<K, V>, K>(m);
    else if (n == "db.guser") { std::string u; int r = m.getUserdata(u); str(r ? std::to_string(r) : "0" + u); }
    else if (n == "db.flush") { m.flush(); str("done"); }
    else if (n == "db.close") { m.close(); str("done"); }
    else if (n == "db.fexist") str(m.fileExists(o.s.at(0)) ? "1" : "0");
    else return false;
    return true;
  }
};
template <class K, class V> struct DbM : DbH {
  MapObjectDiskMultiple<K, V> m;
  bool run(VM& vm, const Op& o) override {
    const std::string& n = o.name; K k{}; mkkey(k, o.arg(1));
    if (n == "db.debug") m.setDebug((int)o.arg(1));
    else if (n == "db.open") { m.open(o.s); str("opened"); }
    else if (n == "db.get") Use<V>::get(vm, m, k, o);
    else if (n == "db.exist") str(m.exist(k) ? "1" : "0");
    else if (n == "db.keys") listkeys<MapObjectDiskMultiple<K, V>, K>(m);
    else if (n == "db.guser") { std::string u; int r = m.getUserdata(u); str(r ? std::to_string(r) : "0" + u); }
    else if (n == "db.flush") { m.flush(); str("done"); }
    else if (n == "db.close") { m.close(); str("done"); }
    else if (n == "db.fexist") str(m.fileExists(o.s) ? "1" : "0");
    else return false;
    return true;
  }
};
// the map in memory
static VStr mkval(VStr*, long p) { return VStr{vstr(p)}; }
static double mkval(double*, long p) { return vdbl(p); }
static multi1d<int> mkval(multi1d<int>*, long p) { multi1d<int> v(varr_n(p)); for (int i = 0; i < v.size(); ++i) v[i] = varr(p, i); return v; }
static std::string vbytes(const VStr& v) { return v.s; }
static std::string vbytes(const double& v) { return std::string((const char*)&v, 8); }
static std::string vbytes(const multi1d<int>& v) { return v.size() ? std::string((const char*)v.slice(), 4 * v.size()) : ""; }
static std::string listing(std::vector<std::string> t) { std::sort(t.begin(), t.end()); std::string r; for (auto& x : t) r += std::to_string(x.size()) + ":" + x; return r; }
static std::map<int, DbH*> mms;
template <class K, class V> struct Mem1 : DbH {
  MapObjectMemory<K, V> m;
  bool run(VM& vm, const Op& o) override {
    const std::string& n = o.name; K k{}; mkkey(k, o.arg(1)); V* tag = nullptr; MapObject<K, V>& b = m;
    auto other = [&]() -> Mem1& { return *static_cast<Mem1*>(mms.at((int)o.arg(1))); };
    if (n == "mm.ins") {
      V v = mkval(tag, o.arg(2)); int r = 0;
      switch (o.arg(3)) { case 0: r = m.insert(k, v); break; case 1: r = b.insert(k, v); break; case 2: r = m.insert(std::make_pair(k, v)); break; default: m[k] = v; }
      str(std::to_string(r));
    } else if (n == "mm.get") { V v = mkval(tag, 1); int r = o.arg(2) ? b.get(k, v) : m.get(k, v); str(r ? "none" : "0" + vbytes(v)); }
    else if (n == "mm.at") { const MapObjectMemory<K, V>& c = m; str(vbytes(o.arg(2) ? c[k] : m[k])); }
    else if (n == "mm.exist") str(b.exist(k) ? "1" : "0");
    else if (n == "mm.erase") { m.erase(k); str("done"); }
    else if (n == "mm.clear") { m.clear(); str("done"); }
    else if (n == "mm.flush") { b.flush(); str("done"); }
    else if (n == "mm.size") str(std::to_string(b.size()));
    else if (n == "mm.user") str(std::to_string(b.insertUserdata(o.s.at(0))));
    else if (n == "mm.guser") { std::string u = "old"; int r = b.getUserdata(u); str(r ? "none" : "0" + u); }
    else if (n == "mm.keys") { std::vector<K> ks(2); b.keys(ks); std::vector<std::string> t; for (auto& x : ks) t.push_back(bytes(x)); str(listing(t)); }
    else if (n == "mm.kv") { std::vector<K> ks(1); std::vector<V> vs(3); m.keysAndValues(ks, vs); std::vector<std::string> t; if (ks.size() != vs.size()) str("unequal"); else { for (size_t i = 0; i < ks.size(); ++i) t.push_back(bytes(ks[i]) + "=" + vbytes(vs[i])); str(listing(t)); } }
    else if (n == "mm.iter") { std::vector<std::string> t; for (auto i = m.begin(); i != m.end(); i++) t.push_back(bytes(i->first) + "=" + vbytes((*i).second)); str(listing(t)); }
    else if (n == "mm.range") { auto& q = other(); str(std::to_string(m.insert(q.m.begin(), q.m.end()))); }
    else if (n == "mm.copy") { auto& q = other(); if (o.arg(2)) m = q.m; else { MapObjectMemory<K, V> t(q.m); m = t; } str("done"); }
    else return false;
    return true;
  }
};
template <class K> static DbH* mkmem(int vt) { switch (vt) { case V_STR: return new Mem1<K, VStr>; case V_DBL: return new Mem1<K, double>; default: return new Mem1<K, multi1d<int>>; } }
static std::map<int, DbH*> dbs;
template <class K> static DbH* mk(int vt, bool multi) {
  if (multi) return vt == V_STR ? (DbH*)new DbM<K, VStr> : new DbM<K, LV>;
  switch (vt) { case V_STR: return new Db1<K, VStr>; case V_LAT: return new Db1<K, LV>; case V_DBL: return new Db1<K, double>; case V_ARR: return new Db1<K, multi1d<int>>; default: return new Db1<K, TimeSliceIO<LV>>; }
}
bool run_db(VM& vm, const Op& o) {
  const std::string& n = o.name;
  if (n.compare(0, 5, "disk.") == 0) return true;
  if (n.compare(0, 3, "mm.") == 0) {
    int h = (int)o.arg(0);
    if (n == "mm.new") { DbH*& d = mms[h]; d = o.arg(1) == KT_INT ? mkmem<int>((int)o.arg(2)) : mkmem<KRec>((int)o.arg(2)); return true; }
    if (n == "mm.del") { delete mms.at(h); mms.erase(h); return true; }
    return mms.at(h)->run(vm, o);
  }
  if (n.compare(0, 3, "db.")) return false;
  int h = (int)o.arg(0);
  if (n == "db.new") { DbH*& d = dbs[h]; d = o.arg(1) == KT_INT ? mk<int>((int)o.arg(2), o.arg(3)) : mk<KRec>((int)o.arg(2), o.arg(3)); return true; }
  if (n == "db.del") { delete dbs.at(h); dbs.erase(h); str("done"); return true; }
  if (n == "db.meta") { str(MapObjDiskEnv::getMetaData(o.s.at(0))); return true; }
  return dbs.at(h)->run(vm, o);
}
