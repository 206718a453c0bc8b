// Linear-algebra statements: see common/lin.h.
#include "vm.h"
bool run_lin_bf(VM&, const Op&); bool run_lin_gf(VM&, const Op&); bool run_lin_mf(VM&, const Op&);
bool run_lin_bd(VM&, const Op&); bool run_lin_gd(VM&, const Op&); bool run_lin_md(VM&, const Op&);
bool run_lin(VM& vm, const Op& o) {
  if (o.name != "lin") return false;
  bool ok = run_lin_bf(vm, o) || run_lin_gf(vm, o) || run_lin_mf(vm, o) || run_lin_bd(vm, o) || run_lin_gd(vm, o) || run_lin_md(vm, o);
  if (ok) vm.report(o.arg(0));
  return ok;
}
