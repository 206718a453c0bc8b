#ifndef SIM_GEN_H
#define SIM_GEN_H
#include "host.h"
namespace sim {
struct GSlot { int kind; double mag; };
struct Gen {
  Rng r; Spec s; Phase* p = nullptr; int tier = 0;
  std::map<int, GSlot> sl; int nextslot = 0;
  std::vector<int> maps, bimaps; std::vector<std::pair<int, int>> amaps, abmaps;   // id, number of directions
  std::set<int> sets; long vol = 0; bool scalar = false; int nextid = 0;
  bool ordered_only = false;
  int bigvol = 0;                                 // per mille of machines with a much larger lattice
  Gen(const std::string& prop, uint64_t seed, int tier_) : r(mix(seed, 77 + prop[1] * 31 + prop[2])), tier(tier_) { s.prop = prop; s.seed = seed; s.phases.reserve(8); }
  // machine
  void sched();                                   // strategy, poison, eagerness
  void machine(const std::string& variant, int maxnodes, long maxvol, bool multi = false);
  Phase& begin_phase(const std::string& variant, int maxnodes, long maxvol, bool multi = false);
  Phase& same_phase();                            // another life of the same machine
  bool last_phase_used = false;
  // ops
  Op& op(const std::string& n, std::vector<long> a = {}) { Op o; o.name = n; o.a = std::move(a); p->ops.push_back(o); return p->ops.back(); }
  int newslot(int kind, long pat = -1);
  int anyslot(int kind = -1);
  std::vector<int> slots_of(int kind);
  int other(int kind, int not1, int not2 = -1, int not3 = -1);   // slot of a kind, created when missing
  std::pair<long, long> subset(int pct_none = 40);
  void addsub(Op& o, int pct_none = 40);
  double maxmag(int kind) { return kinfo(kind).w == W_INT ? 5e8 : kinfo(kind).w == W_DOUBLE ? 1e9 : 4e6; }
  long pick_pat(int kind, bool small = false);
  double patmag(int kind, long pat) { return kind == K_B ? 1 : pat % 4 == 2 ? 2000 : 8; }
  long site() { return r.below((int)vol); }
  std::vector<long> coord() { std::vector<long> c; for (int i = 0; i < 4; ++i) c.push_back(r.below(p->latt[i])); return c; }
  void refill(int slot);                          // fill with a small pattern
  // op families; each emits one op
  void op_arith(const std::vector<int>& kinds);
  void op_shift(const std::vector<int>& kinds);
  void op_map(const std::vector<int>& kinds);
  void defmaps(int n);
  void op_reduce(const std::vector<int>& kinds);
  void op_site(const std::vector<int>& kinds);
  void op_mask(const std::vector<int>& kinds);
  int pickkind(const std::vector<int>& k) { return k[r.below((int)k.size())]; }
  bool sq_ok(int kind, double a, double b) {       // exact products summed over a site
    double w = kinfo(kind).words * 2;
    return kinfo(kind).w == W_DOUBLE ? w * a * b * vol < 4e15 : w * a * b < 8e6;
  }
  void small(int slot, double lim);               // make sure a slot's magnitude is at most lim
};
extern const std::vector<int> ALLK, NUMK, FLTK;
}
#endif
