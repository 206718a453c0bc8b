// Extension groups: models and oracles beyond plain field operations.
#ifndef SIM_EXT_H
#define SIM_EXT_H
#include "gen.h"
namespace sim {
typedef bool (*ModelFn)(Model&, const Op&, Expect&);
bool model_rng(Model&, const Op&, Expect&); void model_rng_start();
bool model_io(Model&, const Op&, Expect&); void model_io_start();
bool model_arch(Model&, const Op&, Expect&); void model_arch_start();
bool model_db(Model&, const Op&, Expect&); void model_db_start();
bool model_lin(Model&, const Op&, Expect&);
bool model_xml(Model&, const Op&, Expect&); void model_xml_start();
bool model_qio(Model&, const Op&, Expect&); void model_qio_start();
bool model_misc(Model&, const Op&, Expect&);
struct PlainOracle : Oracle { void phase_begin(int) override { g_rt->model.run_all(); } };
Oracle* rng_oracle(); Oracle* io_oracle(); Oracle* arch_oracle(); Oracle* db_oracle(); Oracle* mem_oracle(); Oracle* watch_oracle(); Oracle* xml_oracle(); Oracle* qio_oracle();
std::string pickv(Gen& g, std::initializer_list<const char*> v);
std::vector<int> somekinds(Gen& g, const std::vector<int>& from, int n);
void finish(Gen& g);
Spec g_C07(Gen&); Spec g_C08(Gen&); Spec g_C09(Gen&); Spec g_C10(Gen&); Spec g_C11(Gen&); Spec g_C12(Gen&); Spec g_C13(Gen&); Spec g_C14(Gen&); Spec g_C15(Gen&); Spec g_C16(Gen&); Spec g_C17(Gen&); Spec g_C18(Gen&); Spec g_C19(Gen&); Spec g_C20(Gen&); Spec g_C21(Gen&); Spec g_C22(Gen&);
}
#endif
