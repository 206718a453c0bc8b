// Interpreter for fields of one element kind; KT, KK are defined by the including file.
#include "vm.h"
static const bool isB = KK == sim::K_B, isI = KK == sim::K_I;
static const bool isReal = KK == sim::K_R || KK == sim::K_D;
static const bool isCplx = KK == sim::K_C || KK == sim::K_CD;

namespace {
template <class ET> void fillelem(ET& e, long pat, long site) {
  typedef typename Words<ET>::W WT;
  WT* w = Words<ET>::p(e);
  for (int i = 0; i < Words<ET>::n(); ++i) w[i] = (WT)simf::fillval(pat, site, i, KK);
}
template <class FT> struct Runner : KindRunner {
  typedef typename std::remove_reference<decltype(std::declval<FT&>().elem(0))>::type ET;
  typedef OScalar<ET> ST;
  typedef typename Words<ET>::W WT;
  static const int NW = int(sizeof(ET) / sizeof(WT));
  void report_array(VM& vm, int slot, const multi1d<ST>& a) { sim_field(slot, KK, &a[0], vm.nloc); }
  SlotBase* make() {      // fields start as zero, so that a shortened program stays meaningful
    Slot<FT>* s = new Slot<FT>; s->kind = KK;
    memset((void*)&s->f.elem(0), 0, sizeof(ET) * Layout::sitesOnNode());
    return s;
  }
  void report(VM& vm, int slot) { sim_field(slot, KK, &vm.template f<FT>(slot).elem(0), vm.nloc); }

  // d[sub] = e, or the whole lattice when no set is given
  template <class E> void asg(VM& vm, FT& d, const Op& o, size_t i, const E& e) {
    if (o.arg(i, -1) < 0) d = e;
    else d[vm.subset((int)o.arg(i), (int)o.arg(i + 1))] = e;
  }
  // slot, slot, slot, pattern, form (, set, colour)
  void run_sasg(VM& vm, const Op& o, FT& d) {
    auto F = [&](size_t i) -> FT& { return vm.template f<FT>(o.arg(i)); };
    ST c; fillelem(c.elem(), o.arg(3), 5);
    const bool sub = o.arg(5, -1) >= 0; const Subset& s = sub ? vm.subset((int)o.arg(5), (int)o.arg(6)) : all;
    switch (o.arg(4)) {
      case 0: { FT t(c); asg(vm, d, o, 5, t); break; }
      default: if constexpr (!isB) switch (o.arg(4)) {
        case 1: if (sub) d[s] += c; else d += c; break;
        case 2: if (sub) d[s] -= c; else d -= c; break;
        case 3: { FT t(F(1) + F(2)); asg(vm, d, o, 5, t); break; }
        case 4: if (sub) d[s] += F(1) + F(2); else d += F(1) + F(2); break;
        case 5: if (sub) d[s] -= F(1) + F(2); else d -= F(1) + F(2); break;
        case 6: { FT t(zero); asg(vm, d, o, 5, t); break; }
        case 7: asg(vm, d, o, 5, c + F(1)); break;
        case 8: asg(vm, d, o, 5, F(1) - c); break;
        case 9: { typedef OScalar<PScalar<PScalar<RScalar<WT>>>> RT; RT two; two.elem().elem().elem().elem() = WT(2); if (sub) d[s] *= two; else d *= two; break; }
        case 10: { typedef OScalar<PScalar<PScalar<RScalar<WT>>>> RT; RT m; m.elem().elem().elem().elem() = WT(-0.5); if (sub) d[s] /= m; else d /= m; break; }
        case 11: { typedef OLattice<PScalar<PScalar<RScalar<WT>>>> LR; LR m; m = WT(-1); if (sub) d[s] *= m; else d *= m; break; }
        case 17: { typedef OLattice<PScalar<PScalar<RScalar<WT>>>> LR; LR m; m = WT(-1); if (sub) d[s] *= m + m; else d *= m + m; break; }
        case 18: { typedef OLattice<PScalar<PScalar<RScalar<WT>>>> LR; LR m; m = WT(-0.25); if (sub) d[s] /= m + m; else d /= m + m; break; }
        case 19: { typedef OLattice<PScalar<PScalar<RScalar<WT>>>> LR; LR m; m = WT(-0.5); if (sub) d[s] /= m; else d /= m; break; }
        default: if constexpr (NW == 1) { const WT k = (WT)o.arg(7, 3); switch (o.arg(4)) {
          case 12: if (sub) d[s] = k; else d = k; break;
          case 13: if (sub) d[s] += k; else d += k; break;
          case 14: if (sub) d[s] -= k; else d -= k; break;
          case 15: if (sub) d[s] *= WT(2); else d *= WT(2); break;
          default: if (sub) d[s] /= WT(-0.5); else d /= WT(-0.5); break;
        } }
      }
    }
  }
  // a field held on a subset only: slot, slot, slot, form, set, colour, pattern
  void run_subf(VM& vm, const Op& o, FT& d) {
    auto F = [&](size_t i) -> FT& { return vm.template f<FT>(o.arg(i)); };
    const Subset& s = vm.subset((int)o.arg(4), (int)o.arg(5));
    typedef OSubLattice<ET> SL;
    SL t(s, F(1));
    switch (o.arg(3)) {
      case 0: break;
      case 1: { ST c; fillelem(c.elem(), o.arg(6), 5); t = c; break; }
      case 2: { SL u; u.setSubset(s); u = F(2); t = u; break; }
      case 3: t = F(2); break;
      default: if constexpr (!isB) switch (o.arg(3)) {
        case 4: t += F(2); break;
        case 5: t = F(1) - F(2); break;
        case 6: t = zero; break;
        case 7: t -= F(1) + F(2); break;
        case 8: { SL u(t); u += F(2); t = u; break; }
        case 9: { ST c; fillelem(c.elem(), o.arg(6), 5); t += c; break; }
        case 10: t += F(2) - F(1); break;
        case 11: { ST c; fillelem(c.elem(), o.arg(6), 5); t -= c; break; }
        case 12: { ST c; fillelem(c.elem(), o.arg(6), 5); t = c + F(2); break; }
        case 13: t -= F(2); break;
        default: if constexpr (!isI) { typedef PScalar<PScalar<RScalar<WT>>> RE; switch (o.arg(3)) {
          case 14: { OScalar<RE> m; m.elem().elem().elem().elem() = WT(-2); t *= m; break; }
          case 15: { OLattice<RE> m; m = WT(-2); t *= m; break; }
          case 16: { OLattice<RE> m; m = WT(-1); t *= m + m; break; }
          case 17: { OScalar<RE> m; m.elem().elem().elem().elem() = WT(-0.5); t /= m; break; }
          case 18: { OLattice<RE> m; m = WT(-0.5); t /= m; break; }
          case 19: { OLattice<RE> m; m = WT(-0.25); t /= m + m; break; }
          default: if constexpr (NW == 1) switch (o.arg(3)) { case 20: t = WT(3); break; case 21: t += WT(3); break; case 22: t -= WT(3); break; case 23: t *= WT(-2); break; default: t /= WT(-0.5); }
        } }
      }
    }
    d = t;
  }
  bool run(VM& vm, const Op& o) {
    const std::string& n = o.name;
    FT* dp = vm.kind(o.arg(0)) == KK ? &vm.template f<FT>(o.arg(0)) : nullptr;
    if (!dp) return false;
    FT& d = *dp;
    auto F = [&](size_t i) -> FT& { return vm.template f<FT>(o.arg(i)); };
    if (n == "fill") {
      for (long i = 0; i < vm.nloc; ++i) fillelem(d.elem((int)i), o.arg(1), vm.lexs[i]);
      return true;
    }
    if (n == "copy") { asg(vm, d, o, 2, F(1)); return true; }
    if (n == "ctor") { FT t(F(1)); d = t; return true; }
    if (n == "const") { ST s; fillelem(s.elem(), o.arg(1), 5); asg(vm, d, o, 2, s); return true; }
    if constexpr (!isB) {
      if (n == "zero") { if (o.arg(1, -1) < 0) d = zero; else d[vm.subset((int)o.arg(1), (int)o.arg(2))] = zero; return true; }
      if (n == "add") { asg(vm, d, o, 3, F(1) + F(2)); return true; }
      if (n == "sub") { asg(vm, d, o, 3, F(1) - F(2)); return true; }
      if (n == "add3") { asg(vm, d, o, 4, F(1) + F(2) - F(3)); return true; }
      if (n == "neg") { asg(vm, d, o, 2, -F(1)); return true; }
      if (n == "peq") { if (o.arg(2, -1) < 0) d += F(1); else d[vm.subset((int)o.arg(2), (int)o.arg(3))] += F(1); return true; }
      if (n == "meq") { if (o.arg(2, -1) < 0) d -= F(1); else d[vm.subset((int)o.arg(2), (int)o.arg(3))] -= F(1); return true; }
      if (n == "pex") { d[vm.subset((int)o.arg(3), (int)o.arg(4))] += F(1) + F(2); return true; }
    } else {
      if (n == "and") { asg(vm, d, o, 3, F(1) && F(2)); return true; }
      if (n == "or") { asg(vm, d, o, 3, F(1) || F(2)); return true; }
      if (n == "not") { asg(vm, d, o, 2, !F(1)); return true; }
    }
    // ---- other forms of assignment ---------------------------------------------
    if (n == "sasg") { run_sasg(vm, o, d); return true; }
    if constexpr (isI) if (n == "bits") {
      if (o.arg(3, -1) < 0) switch (o.arg(2)) { case 0: d |= F(1); break; case 1: d &= F(1); break; default: d ^= F(1); }
      else { const Subset& s = vm.subset((int)o.arg(3), (int)o.arg(4)); switch (o.arg(2)) { case 0: d[s] |= F(1); break; case 1: d[s] &= F(1); break; default: d[s] ^= F(1); } }
      return true;
    }
    if constexpr (!isB && !isI) if (n == "prec") {
      switch (o.arg(2)) {
        case 0: { typename DoublePrecType<FT>::Type_t t(F(1)); d = t; break; }
        case 1: { typename SinglePrecType<FT>::Type_t t(F(1)); d = t; break; }
        case 2: { typename DoublePrecType<FT>::Type_t t; t = F(1); asg(vm, d, o, 3, t); break; }
        default: { typename SinglePrecType<FT>::Type_t t; t = F(1); asg(vm, d, o, 3, t); break; }
      }
      return true;
    }
    if (n == "subf") { run_subf(vm, o, d); return true; }
    if constexpr (!isB) if (n == "subr") {           // slot, slot, form, set, colour
      OSubLattice<ET> t(vm.subset((int)o.arg(3), (int)o.arg(4)), d);
      if (o.arg(2) == 0) { auto r = sum(t); values(r.elem()); }
      else if constexpr (!isI) {
        if (o.arg(2) == 1) { auto r = innerProduct(t, F(1)); values(r.elem()); } else { auto r = innerProduct(F(1), t); values(r.elem()); }
      }
      return true;
    }
#ifndef KLITE
    // ---- shifts ---------------------------------------------------------------
    if (n == "sh") { asg(vm, d, o, 4, shift(F(1), (int)o.arg(2), (int)o.arg(3))); return true; }
    if (n == "sh2") { asg(vm, d, o, 6, shift(shift(F(1), (int)o.arg(2), (int)o.arg(3)), (int)o.arg(4), (int)o.arg(5))); return true; }
    if (n == "sh3") {   // three nested
      asg(vm, d, o, 8, shift(shift(shift(F(1), (int)o.arg(2), (int)o.arg(3)), (int)o.arg(4), (int)o.arg(5)), (int)o.arg(6), (int)o.arg(7)));
      return true;
    }
    if constexpr (!isB) {
      if (n == "shadd") { asg(vm, d, o, 5, F(1) + shift(F(2), (int)o.arg(3), (int)o.arg(4))); return true; }
      if (n == "shexpr") { asg(vm, d, o, 5, shift(F(1) + F(2), (int)o.arg(3), (int)o.arg(4))); return true; }
      if (n == "shcomb") { asg(vm, d, o, 7, shift(F(1), (int)o.arg(2), (int)o.arg(3)) - shift(F(4), (int)o.arg(5), (int)o.arg(6))); return true; }
      if (n == "shpeq") { d[vm.subset((int)o.arg(4), (int)o.arg(5))] += shift(F(1), (int)o.arg(2), (int)o.arg(3)); return true; }
      if (n == "mapadd") { asg(vm, d, o, 4, F(1) + (*vm.maps.at((int)o.arg(3)))(F(2))); return true; }
      if (n == "mapexpr") { asg(vm, d, o, 4, (*vm.maps.at((int)o.arg(3)))(F(1) - F(2))); return true; }
      if (n == "bimapexpr") { asg(vm, d, o, 5, (*vm.bimaps.at((int)o.arg(3)))(F(1) - F(2), (int)o.arg(4))); return true; }
      if (n == "amapexpr") { asg(vm, d, o, 5, (*vm.amaps.at((int)o.arg(3)))(F(1) + F(2), (int)o.arg(4))); return true; }
      if (n == "abmapexpr") { asg(vm, d, o, 6, (*vm.abmaps.at((int)o.arg(3)))(F(1) + F(2), (int)o.arg(4), (int)o.arg(5))); return true; }
    }
    if (n == "map") { asg(vm, d, o, 3, (*vm.maps.at((int)o.arg(2)))(F(1))); return true; }
    if (n == "bimap") { asg(vm, d, o, 4, (*vm.bimaps.at((int)o.arg(2)))(F(1), (int)o.arg(3))); return true; }
    if (n == "amap") { asg(vm, d, o, 4, (*vm.amaps.at((int)o.arg(2)))(F(1), (int)o.arg(3))); return true; }
    if (n == "abmap") { asg(vm, d, o, 5, (*vm.abmaps.at((int)o.arg(2)))(F(1), (int)o.arg(3), (int)o.arg(4))); return true; }
    // ---- masks ------------------------------------------------------------------
    if constexpr (!isB) if (n == "cmask") {
      LatticeBoolean& m = vm.template f<LatticeBoolean>(o.arg(1));
      copymask(d, m, F(2));
      return true;
    }
    if constexpr (!isB) if (n == "where") {
      LatticeBoolean& m = vm.template f<LatticeBoolean>(o.arg(1));
      asg(vm, d, o, 4, where(m, F(2), F(3))); return true;
    }
    // ---- single sites -----------------------------------------------------------
    if constexpr (!isB) if (n == "peek") { ST s = peekSite(d, vm.coord(o, 1)); values(s.elem()); return true; }
    if constexpr (!isB) if (n == "peekx") { ST s = peekSite(d + F(5), vm.coord(o, 1)); values(s.elem()); return true; }
    if (n == "poke") { ST s; fillelem(s.elem(), o.arg(5), 3); pokeSite(d, s, vm.coord(o, 1)); return true; }
    if (n == "ext" || n == "extsub") {
      multi1d<ST> a((int)vm.nloc);
      for (long i = 0; i < vm.nloc; ++i) fillelem(a[(int)i].elem(), o.arg(1), vm.lexs[i]);
      QDP_extract(a, d, vm.subset((int)o.arg(2), (int)o.arg(3)));
      report_array(vm, -1, a);
      return true;
    }
    if (n == "ins") {
      multi1d<ST> a((int)vm.nloc);
      for (long i = 0; i < vm.nloc; ++i) fillelem(a[(int)i].elem(), o.arg(1), vm.lexs[i]);
      QDP_insert(d, a, vm.subset((int)o.arg(2), (int)o.arg(3)));
      return true;
    }
#endif
    // ---- reductions -------------------------------------------------------------
    if constexpr (!isB) {
      if (n == "sum") {
        if (o.arg(1, -1) < 0) { auto r = sum(d); values(r.elem()); }
        else { auto r = sum(d, vm.subset((int)o.arg(1), (int)o.arg(2))); values(r.elem()); }
        return true;
      }
      if (n == "sumx") { if (o.arg(2, -1) < 0) { auto r = sum(d - F(1)); values(r.elem()); } else { auto r = sum(d - F(1), vm.subset((int)o.arg(2), (int)o.arg(3))); values(r.elem()); } return true; }
      if (n == "smulti") {
        auto r = sumMulti(d, vm.set((int)o.arg(1)));
        std::vector<double> v; for (int i = 0; i < r.size(); ++i) put_words(v, r[i].elem());
        values_v(v); return true;
      }
      if (n == "smultix") {
        auto r = sumMulti(d + F(2), vm.set((int)o.arg(1)));
        std::vector<double> v; for (int i = 0; i < r.size(); ++i) put_words(v, r[i].elem());
        values_v(v); return true;
      }
    }
    if constexpr (!isB && !isI) {
      if (n == "norm2") {
        if (o.arg(1, -1) < 0) { auto r = norm2(d); values(r.elem()); }
        else { auto r = norm2(d, vm.subset((int)o.arg(1), (int)o.arg(2))); values(r.elem()); }
        return true;
      }
      if (n == "norm2x") { if (o.arg(2, -1) < 0) { auto r = norm2(d - F(1)); values(r.elem()); } else { auto r = norm2(d - F(1), vm.subset((int)o.arg(2), (int)o.arg(3))); values(r.elem()); } return true; }
      if (n == "ipx" || n == "iprx") {    // slot, slot, which operands are expressions (, set, colour)
        const bool sub = o.arg(3, -1) >= 0; const Subset& s = sub ? vm.subset((int)o.arg(3), (int)o.arg(4)) : all;
        auto run = [&](auto&& f) { switch (o.arg(2)) {
          case 0: f(d, d - F(1)); break;
          case 1: f(d - F(1), F(1)); break;
          default: f(d - F(1), d + F(1)); } };
        if (n == "ipx") run([&](const auto& x, const auto& y) { if (sub) { auto r = innerProduct(x, y, s); values(r.elem()); } else { auto r = innerProduct(x, y); values(r.elem()); } });
        else run([&](const auto& x, const auto& y) { if (sub) { auto r = innerProductReal(x, y, s); values(r.elem()); } else { auto r = innerProductReal(x, y); values(r.elem()); } });
        return true;
      }
      if (n == "ip") {
        if (o.arg(2, -1) < 0) { auto r = innerProduct(d, F(1)); values(r.elem()); }
        else { auto r = innerProduct(d, F(1), vm.subset((int)o.arg(2), (int)o.arg(3))); values(r.elem()); }
        return true;
      }
      if (n == "ipr") {
        if (o.arg(2, -1) < 0) { auto r = innerProductReal(d, F(1)); values(r.elem()); }
        else { auto r = innerProductReal(d, F(1), vm.subset((int)o.arg(2), (int)o.arg(3))); values(r.elem()); }
        return true;
      }
      if (n == "ln2") {    // site-wise, then summed per colour
        auto r = sumMulti(localNorm2(d), vm.set((int)o.arg(1)));
        std::vector<double> v; for (int i = 0; i < r.size(); ++i) put_words(v, r[i].elem());
        values_v(v); return true;
      }
      if (n == "norm2a" || n == "ipa" || n == "ipra") {   // arrays of fields: a0,a1 (, b0,b1), size, set, col
        const int an = n == "norm2a" ? 2 : 4, sz = (int)o.arg(an);
        multi1d<FT> a(sz); for (int i = 0; i < sz; ++i) a[i] = i % 2 ? F(1) : d;
        if (n == "norm2a") {
          if (o.arg(3, -1) < 0) { auto r = norm2(a); values(r.elem()); } else { auto r = norm2(a, vm.subset((int)o.arg(3), (int)o.arg(4))); values(r.elem()); }
          return true;
        }
        multi1d<FT> b(sz); for (int i = 0; i < sz; ++i) b[i] = F(i % 2 ? 3 : 2);
        if (n == "ipa") {
          if (o.arg(5, -1) < 0) { auto r = innerProduct(a, b); values(r.elem()); } else { auto r = innerProduct(a, b, vm.subset((int)o.arg(5), (int)o.arg(6))); values(r.elem()); }
        } else {
          if (o.arg(5, -1) < 0) { auto r = innerProductReal(a, b); values(r.elem()); } else { auto r = innerProductReal(a, b, vm.subset((int)o.arg(5), (int)o.arg(6))); values(r.elem()); }
        }
        return true;
      }
    }
#if defined(ARCH_PARSCALAR)      // the scalar overload does not compile
    if constexpr (!isB) if (n == "smultia") {
      const int sz = (int)o.arg(3); multi1d<FT> a(sz); for (int i = 0; i < sz; ++i) a[i] = i % 2 ? F(2) : d;
      auto r = sumMulti(a, vm.set((int)o.arg(1)));
      std::vector<double> v;
      for (int k = 0; k < r.size1(); ++k) for (int i = 0; i < r.size2(); ++i) put_words(v, r(i, k).elem());
      double sh[2] = {(double)r.size1(), (double)r.size2()};
      v.insert(v.begin(), sh, sh + 2);
      values_v(v); return true;
    }
#endif
    if constexpr (isReal) {
      if (n == "gmax") { auto r = globalMax(d); values(r.elem()); return true; }
      if (n == "gmin") { auto r = globalMin(d); values(r.elem()); return true; }
      if (n == "gmaxx") { auto r = globalMax(d - F(1)); values(r.elem()); return true; }
    }
    if constexpr (!isB && !isI) if (n == "isf") {      // slot, site (lex), code, word
      long site = o.arg(1); int code = (int)o.arg(2), w = (int)o.arg(3) % NW;
      WT saved = 0; long at = -1;
      for (long i = 0; i < vm.nloc; ++i) if (vm.lexs[i] == site) at = i;
      WT bad = 0;
      switch (code) {
        case 1: bad = std::numeric_limits<WT>::quiet_NaN(); break;
        case 2: bad = std::numeric_limits<WT>::infinity(); break;
        case 3: bad = -std::numeric_limits<WT>::infinity(); break;
        case 4: bad = std::numeric_limits<WT>::denorm_min(); break;
        case 5: bad = 0; break;
      }
      if (code && at >= 0) { WT* p = Words<ET>::p(d.elem((int)at)); saved = p[w]; p[w] = bad; }
      double v[4];
      if (o.arg(4)) { v[0] = isnan(-d); v[1] = isinf(-d); v[2] = isfinite(-d); v[3] = isnormal(-d); }
      else { v[0] = isnan(d); v[1] = isinf(d); v[2] = isfinite(d); v[3] = isnormal(d); }
      if (code && at >= 0) Words<ET>::p(d.elem((int)at))[w] = saved;
      sim_values(v, 4); return true;
    }
#ifdef VM_RNG
    if constexpr (!isB && !isI) {
      if (n == "rnd") { if (o.arg(1, -1) < 0) random(d); else random(d, vm.subset((int)o.arg(1), (int)o.arg(2))); return true; }
      if (n == "gau") { if (o.arg(1, -1) < 0) gaussian(d);  else gaussian(d, vm.subset((int)o.arg(1), (int)o.arg(2))); return true; }
    }
#endif
#ifdef VM_IO
    if (n == "io.plat" || n == "io.glat") {          // slot, handle, mode, arguments
      bool put = n == "io.plat"; IoH* h = vm.io.at((int)o.arg(1));
      switch (o.arg(2)) {
        case 0: if (put) write(*h->w, d); else read(*h->r, d); break;
        case 1: {      // the forms taking a sublattice do not compile; the functions below them do on a parallel machine
          typedef typename std::decay<decltype(d.elem(0))>::type T1_; const Subset& sub = vm.subset((int)o.arg(3), (int)o.arg(4)); const size_t ws = sizeof(typename WordType<T1_>::Type_t), nw = sizeof(T1_) / ws;
#if defined(ARCH_PARSCALAR)
          if (put) writeOLattice(*h->w, (const char*)&d.elem(0), ws, nw, sub); else readOLattice(*h->r, (char*)&d.elem(0), ws, nw, sub);
#else
          std::set<int> in; for (int i = 0; i < sub.numSiteTable(); ++i) in.insert(sub.siteTable()[i]);
          for (int s = 0; s < Layout::vol(); ++s) {
            multi1d<int> c = crtesn(s, Layout::lattSize());
            if (in.count(Layout::linearSiteIndex(c))) { if (put) write(*h->w, d, c); else read(*h->r, d, c); }
          }
#endif
          break;
        }
        case 2: if (put) write(*h->w, d, vm.coord(o, 3)); else read(*h->r, d, vm.coord(o, 3)); break;
        case 3: if (put) LatticeTimeSliceIO::writeSlice(*h->w, d, (int)o.arg(3), (int)o.arg(4)); else LatticeTimeSliceIO::readSlice(*h->r, d, (int)o.arg(3), (int)o.arg(4)); break;
        case 4: {
          multi1d<FT> a(2);
          if (put) { a[0] = d; a[1] = F(3); write(*h->w, a); }
          else { read(*h->r, a); if (a.size() == 2) { d = a[0]; F(3) = a[1]; } else { double v = a.size(); sim_values(&v, 1); } vm.report(o.arg(3)); }
          break;
        }
        case 5: if constexpr (KK != sim::K_B) {          // time slices by index
          TimeSliceIO<FT> t(d, (int)o.arg(3)); if (put) write(*h->w, t); else read(*h->r, t); break;
        }
      }
      return true;
    }
    if (n == "io.posc") { ST s; fillelem(s.elem(), o.arg(2), 9); write(*vm.io.at((int)o.arg(1))->w, s); return true; }
    if (n == "io.gosc") { ST s; memset((void*)&s.elem(), 0, sizeof s.elem()); read(*vm.io.at((int)o.arg(1))->r, s); values(s.elem()); return true; }
#endif
#ifdef KEXTRA
    if (run_extra(vm, o, d)) return true;
#endif
    return false;
  }
};
Runner<KT> g_runner;
} // namespace
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
KindRunner* CAT(kind_runner_, KN)() { return &g_runner; }
