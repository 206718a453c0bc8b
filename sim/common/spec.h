// Specification of one simulated run.  Shared by the simulator executable and the
// node library (plain C++, same compiler, no QDP types).
#ifndef SIM_SPEC_H
#define SIM_SPEC_H
#include <string>
#include <vector>
#include <map>

namespace sim {

// One step of the program every node executes.  Meaning of a[] depends on name.
struct Op {
  std::string name;
  std::vector<long> a;
  std::vector<std::string> s;
  int id = -1;        // dense opcode, resolved by the node library
  long arg(size_t i, long d = 0) const { return i < a.size() ? a[i] : d; }
};

// One life of the machine: boot, program, shutdown.  A crash or a normal end of a
// phase leaves only the simulated disk for the next phase.
struct Phase {
  std::string variant = "ps-cb2";   // build variant of the node library
  int nodes = 1;
  int geom[4] = {1, 1, 1, 1};       // logical machine
  int latt[4] = {2, 2, 2, 2};
  int use_geom_arg = 1;             // pass -geom, or let the message layer lay out the grid
  int threads = 1;
  std::vector<int> perm;            // rank -> lexicographic logical position (empty: identity)
  std::vector<Op> ops;
};

struct Spec {
  std::string prop;
  unsigned long seed = 0;
  std::map<std::string, long> k;    // knobs: strategy, fault rates, poison ...
  std::vector<Phase> phases;
  long knob(const std::string& n, long d = 0) const {
    auto i = k.find(n); return i == k.end() ? d : i->second;
  }
};

// Element kinds
enum Kind { K_I, K_B, K_R, K_D, K_C, K_V, K_M, K_S, K_F, K_H, K_P, K_CD, K_FD, K_MD, K_HD, K_VD, K_NKIND };
enum Word { W_INT, W_BOOL, W_FLOAT, W_DOUBLE };
struct KindInfo { const char* name; Word w; int words; int wsize; bool cplx; };
inline const KindInfo& kinfo(int k) {
  static const KindInfo t[] = {
    {"I", W_INT, 1, 4, false}, {"B", W_BOOL, 1, 1, false}, {"R", W_FLOAT, 1, 4, false},
    {"D", W_DOUBLE, 1, 8, false}, {"C", W_FLOAT, 2, 4, true}, {"V", W_FLOAT, 6, 4, true},
    {"M", W_FLOAT, 18, 4, true}, {"S", W_FLOAT, 32, 4, true}, {"F", W_FLOAT, 24, 4, true},
    {"H", W_FLOAT, 12, 4, true}, {"P", W_FLOAT, 288, 4, true}, {"CD", W_DOUBLE, 2, 8, true},
    {"FD", W_DOUBLE, 24, 8, true}, {"MD", W_DOUBLE, 18, 8, true}, {"HD", W_DOUBLE, 12, 8, true}, {"VD", W_DOUBLE, 6, 8, true}};
  return t[k];
}

} // namespace sim
#endif
