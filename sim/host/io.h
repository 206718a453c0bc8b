// Model of the text and binary streams; shared by the groups that use files.
#ifndef SIM_HOST_IO_H
#define SIM_HOST_IO_H
#include "ext.h"
#include "../common/io.h"
#include <sstream>
namespace sim {
typedef std::shared_ptr<std::string> FileP;
struct MIo {                        // one stream
  int kind = 0; std::string path; FileP d; long rp = 0, wp = 0; bool fail = false, eof = false, open = true, vague = false, real = false; unsigned crc = 0;
  std::shared_ptr<std::istringstream> ti;
  bool isfile() const { using namespace simio; return kind == K_FW || kind == K_FR || kind == K_FRW || kind == K_TFW || kind == K_TFR; }
  bool writer() const { using namespace simio; return kind == K_FW || kind == K_BW || kind == K_FRW || kind == K_BRW || kind == K_TFW || kind == K_TBW; }
  bool one_pos() const { return kind == simio::K_FRW; }
};
std::map<std::string, FileP>& mfs();       // the model's disk
unsigned crc32(unsigned c, const char* p, size_t n);
std::string elem_bytes(int kind, double v);          // big-endian
double elem_val(int kind, const char* p);
void disk_op(const Op& o);
void rephase(Gen& g, const std::string& variant, int maxnodes, const int* L);      // another machine for the same lattice
std::string rstr(Gen& g, int max, bool word);
std::string bstr(Gen& g, int max, bool word);       // now and then much longer
int blen(Gen& g, int small);
// What a run must not do silently: base for the file properties.
struct IoOracle : PlainOracle {
  std::map<std::pair<int, int>, std::string> first; std::map<std::pair<int, int>, int> cnt;
  std::map<int, bool> bad; std::map<int, double> failval; std::map<int, std::string> why; std::map<int, bool> stale;
  std::set<std::pair<int, int>> tainted; int cur_slot = -1;      // fields a failed read left undefined
  void phase_begin(int ph) override;
  void agree(int node, int op, const std::string& b);
  void on_field(int node, int op, int slot, int kind, const void* w, long ns) override;
  void on_values(int node, int op, const double* v, int n) override;
  void on_string(int node, int op, const std::string& s) override;
  void mismatch(int node, int op, const char* cls, const char* msg) override;
  void op_begin(int node, int op) override;
  void op_end(int node, int op) override;
  bool may_stop(int node) override;
  void phase_end(int ph, bool clean) override;
};
}
#endif
