// Statements of common/lin.h for one precision; LSECT(L) lists them, LFN names the function.
#include "vm.h"
#include "../common/lin.h"
#ifdef LDBL
typedef LatticeDiracFermionD TF; typedef LatticeHalfFermionD TH; typedef LatticeColorMatrixD TM; typedef LatticeColorVectorD TV;
typedef LatticeRealD TA; typedef LatticeComplexD TC; typedef RealD TR; typedef ComplexD TZ;
enum { KF = sim::K_FD, KH = sim::K_HD, KM = sim::K_MD, KV = sim::K_VD, KA = sim::K_D, KC = sim::K_CD };
#else
typedef LatticeDiracFermionF TF; typedef LatticeHalfFermionF TH; typedef LatticeColorMatrixF TM; typedef LatticeColorVectorF TV;
typedef LatticeRealF TA; typedef LatticeComplexF TC; typedef RealF TR; typedef ComplexF TZ;
enum { KF = sim::K_F, KH = sim::K_H, KM = sim::K_M, KV = sim::K_V, KA = sim::K_R, KC = sim::K_C };
#endif
typedef LatticePropagatorF TP; typedef LatticeSpinMatrixF TS;
namespace {
struct Env {                     // operands of one statement
  VM& vm; const Op& o; TR ra, rb; TZ zc, ze;
  template <class T> T& at(int i) { return vm.f<T>(o.arg(i)); }
  Env(VM& v, const Op& o_) : vm(v), o(o_), ra((typename WordType<TR>::Type_t)(o.arg(17) * 0.5)), rb((typename WordType<TR>::Type_t)(o.arg(18) * 0.5)) {
    zc = cmplx(TR((typename WordType<TR>::Type_t)(o.arg(19) * 0.5)), TR((typename WordType<TR>::Type_t)(o.arg(20) * 0.5)));
    ze = cmplx(TR((typename WordType<TR>::Type_t)(o.arg(21) * 0.5)), TR((typename WordType<TR>::Type_t)(o.arg(22) * 0.5)));
  }
};
#define x e_.at<TF>(1)
#define y e_.at<TF>(2)
#define u e_.at<TM>(3)
#define v e_.at<TM>(4)
#define h e_.at<TH>(5)
#define k e_.at<TH>(6)
#define w e_.at<TV>(7)
#define r e_.at<TV>(8)
#define p e_.at<TP>(9)
#define q e_.at<TP>(10)
#define s e_.at<TS>(11)
#define t e_.at<TS>(12)
#define A e_.at<TA>(13)
#define C e_.at<TC>(14)
#define a e_.ra
#define b e_.rb
#define c e_.zc
#define e e_.ze
#define LFORM(name, D, asg, expr, rpn) \
  static void f_##name(Env& e_) { T##D& d = e_.at<T##D>(0); (void)d; \
    if (e_.o.arg(15, -1) < 0) d asg expr; else d[e_.vm.subset((int)e_.o.arg(15), (int)e_.o.arg(16))] asg expr; }
LSECT(LFORM)
#undef x
#undef y
#undef u
#undef v
#undef h
#undef k
#undef w
#undef r
#undef p
#undef q
#undef s
#undef t
#undef A
#undef C
#undef a
#undef b
#undef c
#undef e
typedef void (*LF)(Env&);
#define LENT(name, D, asg, expr, rpn) {#name, {K##D, f_##name}},
const int KP = sim::K_P, KS = sim::K_S;
const std::map<std::string, std::pair<int, LF>> g_forms = {LSECT(LENT)};
} // namespace
bool LFN(VM& vm, const Op& o) {
  auto i = g_forms.find(o.s.at(0));
  if (i == g_forms.end() || vm.kind(o.arg(0)) != i->second.first) return false;
  Env en(vm, o); i->second.second(en); return true;
}
