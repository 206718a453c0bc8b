// Random number generator state: set, save, restore by several routes.
#include "vm.h"
#include "qdp_rannyu.h"
static int* words(Seed& s) { static_assert(sizeof(s.elem()) == 4 * sizeof(int), "seed"); return (int*)&s.elem(); }
template <class T> static void draw() { OScalar<T> x; random(x); values(x.elem()); }
bool run_rng(VM& vm, const Op& o) {
  const std::string& n = o.name;
  auto name = [&] { return "/data/seed" + std::to_string(o.arg(0)); };
  // every node keeps the numbers it saw; in a later life of the machine everybody uses those of node 0
  auto key = [&](const char* k, int ph, int nd) { return k + std::to_string(o.arg(0)) + "." + std::to_string(ph) + "." + std::to_string(nd); };
  auto blob = [&](const char* k) { return key(k, sim_phase_no(), vm.node); };
  auto get = [&](const char* k, int* w) {
    if (sim_get_blob(blob(k).c_str(), w, 16) == 16) return;
    for (int ph = sim_phase_no() - 1; ph >= 0; --ph) if (sim_get_blob(key(k, ph, 0).c_str(), w, 16) == 16) return;
    sim_fail("simbug", "no saved state");
  };
  auto out = [&](Seed& s) { double v[4]; for (int i = 0; i < 4; ++i) v[i] = words(s)[i]; sim_values(v, 4); };
  if (n == "setrn") { Seed s; for (int i = 0; i < 4; ++i) words(s)[i] = (int)o.arg(i); RNG::setrn(s); return true; }
  if (n == "setrni") { Seed s; s = (int)o.arg(0); RNG::setrn(s); return true; }
  if (n == "savern") { Seed s; RNG::savern(s); out(s); return true; }
  if (n == "rndsc") {
    switch (o.arg(0)) {
      case sim::K_R: draw<std::remove_reference<decltype(RealF().elem())>::type>(); break;
      case sim::K_D: draw<std::remove_reference<decltype(RealD().elem())>::type>(); break;
      case sim::K_C: draw<std::remove_reference<decltype(ComplexF().elem())>::type>(); break;
      case sim::K_V: draw<std::remove_reference<decltype(ColorVectorF().elem())>::type>(); break;
      case sim::K_M: draw<std::remove_reference<decltype(ColorMatrixF().elem())>::type>(); break;
      case sim::K_S: draw<std::remove_reference<decltype(SpinMatrixF().elem())>::type>(); break;
      case sim::K_F: draw<std::remove_reference<decltype(DiracFermionF().elem())>::type>(); break;
      default: draw<std::remove_reference<decltype(ComplexD().elem())>::type>(); break;
    }
    return true;
  }
  if (n == "rnsave") { Seed s; RNG::savern(s); sim_blob(blob("seed").c_str(), words(s), 16); return true; }
  if (n == "rnload") {
    Seed s; s = zero;
    get("seed", words(s));
    RNG::setrn(s); return true;
  }
  if (n == "rnbsave") { Seed s; RNG::savern(s); BinaryFileWriter w(name()); write(w, s); w.close(); return true; }
  if (n == "rnbload") { Seed s; BinaryFileReader r(name()); read(r, s); r.close(); RNG::setrn(s); return true; }
#ifdef QDP_USE_LIBXML2
  if (n == "rnxsave") { Seed s; RNG::savern(s); XMLFileWriter w(name() + ".xml"); push(w, "top"); write(w, "Seed", s); pop(w); w.close(); return true; }
  if (n == "rnxload") { Seed s; XMLReader r(name() + ".xml"); read(r, "/top/Seed", s); r.close(); RNG::setrn(s); return true; }
#endif
  if (n == "nyset") { multi1d<int> s(4); for (int i = 0; i < 4; ++i) s[i] = (int)o.arg(i); RANNYU::setrn(s); return true; }
  if (n == "nysave" || n == "nyload") {
    if (n == "nysave") {
      multi1d<int> s = RANNYU::savern(); std::vector<double> v; for (int i = 0; i < s.size(); ++i) v.push_back(s[i]);
      if (s.size() == 4) sim_blob(blob("ny").c_str(), &s[0], 16);
      values_v(v);
    } else { multi1d<int> s(4); get("ny", &s[0]); RANNYU::setrn(s); }
    return true;
  }
  if (n == "nyrnd") { std::vector<double> v; for (long i = 0; i < o.arg(0); ++i) v.push_back(RANNYU::random()); values_v(v); return true; }
  if (n == "nystate") {   // packaged form, starting from the saved state k; the global stream is not touched
    RANNYU::RNGState_t st; st.seed.resize(4);
    get("ny", &st.seed[0]);
    std::vector<double> v; for (long i = 0; i < o.arg(1); ++i) { RANNYU::random(st); v.push_back(st.ran); }
    values_v(v); return true;
  }
  return false;
}
