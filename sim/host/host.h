// Host side of the simulator: specs, reference model, oracles, generators.
#ifndef SIM_HOST_H
#define SIM_HOST_H
#include "../core/sim.h"
#include "../core/internal.h"
#include "../core/fs.h"
#include "../core/sys.h"
#include "../common/funcs.h"
#include <memory>
#include <string>
#include <vector>
#include <map>
#include <set>

namespace sim {
// ---- spec text -----------------------------------------------------------------
typedef std::vector<std::pair<long, int>> Trace;
std::string spec_text(const Spec& s);
bool spec_parse(const std::string& txt, Spec& s, Trace& tr, bool& has_trace);

// ---- reference model -------------------------------------------------------------
typedef std::vector<double> Vec;
typedef std::shared_ptr<const Vec> VP;       // lexicographic site order, words innermost
struct MField { int kind = -1; VP v; double tol = 0; std::shared_ptr<const std::vector<char>> mask; };   // mask: words that are compared
struct Expect {                              // what op k must report
  std::map<int, MField> fields;              // slot (or -1: array) -> contents
  bool has_values = false; Vec values;
  std::map<int, Vec> node_values;            // node-dependent values
  bool has_string = false; std::string str;
  std::vector<char> mask;                    // for slot -1: sites that are compared (all when empty)
};
struct Model {
  const Phase* ph = nullptr;
  int L[4]; long vol = 0;
  std::map<int, MField> slots;
  struct MapDef { int k; long p[4]; };
  std::map<int, MapDef> maps, bimaps; std::map<int, MapDef> amaps, abmaps;
  std::vector<Expect> ex;
  void start(const Phase& p);
  void run_all();
  bool step(const Op& o, Expect& e);         // false: not a field op
  // helpers for other models
  VP get(int slot) const;
  void set(int slot, int kind, Vec v);
  static int words(int kind) { return kinfo(kind).words; }
  bool insub(long setk, long col, long site) const;
  Vec pattern(int kind, long pat) const;
  Vec shiftv(const Vec& a, int nw, int isign, int dir) const;
  Vec mapv(const Vec& a, int nw, const MapDef& m, int sign) const;
  Vec amapv(const Vec& a, int nw, const MapDef& m, int sign, int dir) const;
  void assign(const Op& o, size_t i, int slot, Vec r, int addsign = 0);
};
// extension ops (other groups); returns true when handled
bool model_ext(Model& m, const Op& o, Expect& e);
void model_ext_start();                        // a new life of the machine

// ---- geometry -------------------------------------------------------------------
struct Geo {
  int L[4], G[4], S[4]; int nodes; std::vector<int> perm, iperm;
  explicit Geo(const Phase& p);
  int owner(const int* c) const;             // rank owning a site
  int owner(long lex) const { int c[4]; simf::unlex(lex, L, c); return owner(c); }
};
// true if the map needs more than one remote source or destination on some node
bool map_multi_peer(const Geo& g, int k, const long* p, int sign);

// ---- per-node facts of the running phase -------------------------------------------
struct NodeRt { std::vector<long> site; std::vector<int> at; long reports = 0; std::map<std::string, long> notes; };
struct Rt {
  Model model; std::unique_ptr<Geo> geo; std::vector<NodeRt> node;
  std::map<std::string, std::string> blobs;
};
extern Rt* g_rt;

// ---- oracle of a property --------------------------------------------------------------
struct Oracle {
  virtual ~Oracle() {}
  virtual void phase_begin(int) {}
  virtual void on_layout(int node);
  virtual void on_field(int node, int op, int slot, int kind, const void* w, long nsites);
  virtual void on_values(int node, int op, const double* v, int n);
  virtual void on_string(int node, int op, const std::string& s);
  virtual void on_note(int node, int op, const std::string& what, long v);
  virtual void mismatch(int node, int op, const char* cls, const char* msg);   // a result differs from the model
  virtual void op_begin(int node, int op) {}
  virtual void op_end(int node, int op) {}
  virtual void phase_end(int, bool clean);      // all nodes stopped
  virtual void run_end() {}
  virtual bool may_stop(int node) { return g_fault.injected > 0; }   // is an early stop of this node acceptable
  virtual bool goes_on() { return true; }          // asked after each life: may another follow
  virtual bool may_run_long() { return false; }    // an operation may legitimately take more steps than the limit
};
Oracle* make_oracle(const Spec& s);
extern Oracle* g_oracle;

// ---- running ------------------------------------------------------------------------------
struct Lib { std::map<std::string, std::string> path; };
void libs_load(const Spec& s, const std::map<std::string, std::string>& so);
[[noreturn]] void run_spec(const Spec& s, bool replay, const Trace& tr, int fd);
double elem_of(int kind, const void* w, size_t i);

// ---- generators ------------------------------------------------------------------------------
Spec generate(const std::string& prop, uint64_t seed, int tier);
std::vector<std::string> variants_of(const std::string& prop, int tier);
}
#endif
