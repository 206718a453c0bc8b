#include "vm.h"
#include "qdp_util.h"
#include <cstdlib>

#ifdef NO_K_I
#define RUN_I nullptr
#else
KindRunner* kind_runner_I();
#define RUN_I kind_runner_I()
#endif
#ifdef NO_K_B
#define RUN_B nullptr
#else
KindRunner* kind_runner_B();
#define RUN_B kind_runner_B()
#endif
#ifdef NO_K_R
#define RUN_R nullptr
#else
KindRunner* kind_runner_R();
#define RUN_R kind_runner_R()
#endif
#ifdef NO_K_D
#define RUN_D nullptr
#else
KindRunner* kind_runner_D();
#define RUN_D kind_runner_D()
#endif
#ifdef NO_K_C
#define RUN_C nullptr
#else
KindRunner* kind_runner_C();
#define RUN_C kind_runner_C()
#endif
#ifdef NO_K_V
#define RUN_V nullptr
#else
KindRunner* kind_runner_V();
#define RUN_V kind_runner_V()
#endif
#ifdef NO_K_M
#define RUN_M nullptr
#else
KindRunner* kind_runner_M();
#define RUN_M kind_runner_M()
#endif
#ifdef NO_K_S
#define RUN_S nullptr
#else
KindRunner* kind_runner_S();
#define RUN_S kind_runner_S()
#endif
#ifdef NO_K_F
#define RUN_F nullptr
#else
KindRunner* kind_runner_F();
#define RUN_F kind_runner_F()
#endif
#ifdef NO_K_H
#define RUN_H nullptr
#else
KindRunner* kind_runner_H();
#define RUN_H kind_runner_H()
#endif
#ifdef NO_K_P
#define RUN_P nullptr
#else
KindRunner* kind_runner_P();
#define RUN_P kind_runner_P()
#endif
#ifdef NO_K_CD
#define RUN_CD nullptr
#else
KindRunner* kind_runner_CD();
#define RUN_CD kind_runner_CD()
#endif
#ifdef NO_K_FD
#define RUN_FD nullptr
#else
KindRunner* kind_runner_FD();
#define RUN_FD kind_runner_FD()
#endif
#ifdef NO_K_MD
#define RUN_MD nullptr
#else
KindRunner* kind_runner_MD();
#define RUN_MD kind_runner_MD()
#endif
#ifdef NO_K_HD
#define RUN_HD nullptr
#else
KindRunner* kind_runner_HD();
#define RUN_HD kind_runner_HD()
#endif
#ifdef NO_K_VD
#define RUN_VD nullptr
#else
KindRunner* kind_runner_VD();
#define RUN_VD kind_runner_VD()
#endif
KindRunner* kind_runner(int k) {
  switch (k) {
    case sim::K_FD: return RUN_FD;
    case sim::K_MD: return RUN_MD;
    case sim::K_HD: return RUN_HD;
    case sim::K_VD: return RUN_VD;
    case sim::K_I: return RUN_I;
    case sim::K_B: return RUN_B;
    case sim::K_R: return RUN_R;
    case sim::K_D: return RUN_D;
    case sim::K_C: return RUN_C;
    case sim::K_V: return RUN_V;
    case sim::K_M: return RUN_M;
    case sim::K_S: return RUN_S;
    case sim::K_F: return RUN_F;
    case sim::K_H: return RUN_H;
    case sim::K_P: return RUN_P;
    case sim::K_CD: return RUN_CD;
  }
  return nullptr;
}
const Set& VM::set(int k) {
  switch (k) {
    case simf::S_ALL: return QDP::all.getSet();
    case simf::S_RB: return QDP::rb;
    case simf::S_RB3: return QDP::rb3;
    case simf::S_MCB: return QDP::mcb;
  }
  Set*& s = sets[k];
  if (!s) { SFunc fn(k, L); s = new Set(fn); }
  return *s;
}
void VM::report(long s) { kind_runner(kind(s))->report(*this, (int)s); }

bool run_basic(VM& vm, const Op& o) {
  const std::string& n = o.name;
  if (n == "new") { vm.slots[(int)o.arg(0)] = kind_runner((int)o.arg(1))->make(); return true; }
  if (n == "del") { delete vm.slots.at((int)o.arg(0)); vm.slots.erase((int)o.arg(0)); return true; }
  if (n == "audit") { for (auto& s : vm.slots) vm.report(s.first); return true; }
  if (n == "bcast") {       // from primary: value known to node 0 only
    int x = vm.node == 0 ? (int)o.arg(0) : -1; QDPInternal::broadcast(x);
    double y = vm.node == 0 ? o.arg(0) * 0.5 : -1; QDPInternal::broadcast(y);
    double v[2] = {(double)x, y}; sim_values(v, 2); return true;
  }
  if (n == "bcaststr") {
    std::string s = vm.node == 0 ? o.s.at(0) : std::string("zz");
    QDPInternal::broadcast_str(s); sim_string(s.data(), (long)s.size()); return true;
  }
  if (n == "gsum") {        // integers summed over nodes: node-dependent contribution
    int x = vm.node * (int)o.arg(0) + 1; QDPInternal::globalSum(x);
    double y = vm.node * 0.25 + 1; QDPInternal::globalSum(y);
    float z = vm.node * 0.5f + 1; QDPInternal::globalSum(z);
    double v[3] = {(double)x, y, (double)z}; sim_values(v, 3); return true;
  }
  if (n == "coord") { vm.f<LatticeInteger>(o.arg(0)) = Layout::latticeCoordinate((int)o.arg(1)); return true; }
  if (n == "mkset") { vm.set((int)o.arg(0)); return true; }
  if (n == "setcopy") {     // a copied set behaves like the original: rebuild slot from a copy
    Set t; t = vm.set((int)o.arg(0));
    (void)t; return true;
  }
  if (n == "subinfo") {     // everything a Set says about its subsets
    const Set& s = vm.set((int)o.arg(0));
    std::vector<double> v; v.push_back(s.numSubsets());
    for (int c = 0; c < s.numSubsets(); ++c) {
      const Subset& b = s[c];
      v.push_back(b.hasOrderedRep()); v.push_back(b.start()); v.push_back(b.end()); v.push_back(b.color());
      v.push_back(b.numSiteTable());
      for (int i = 0; i < b.numSiteTable(); ++i) v.push_back(b.siteTable()[i]);
    }
    v.push_back(s.latticeColoring().size());
    for (int i = 0; i < s.latticeColoring().size(); ++i) v.push_back(s.latticeColoring()[i]);
    sim_values(v.data(), (int)v.size()); return true;
  }
  if (n == "layinfo") {     // ownership queries for every site of the lattice
    std::vector<double> v;
    v.push_back(Layout::sitesOnNode()); v.push_back(Layout::vol()); v.push_back(Layout::numNodes()); v.push_back(Layout::nodeNumber());
    for (int m = 0; m < 4; ++m) { v.push_back(Layout::lattSize()[m]); v.push_back(Layout::subgridLattSize()[m]); v.push_back(Layout::logicalSize()[m]); v.push_back(Layout::nodeCoord()[m]); }
    long vol = (long)vm.L[0] * vm.L[1] * vm.L[2] * vm.L[3];
    for (long l = 0; l < vol; ++l) {
      int c[4]; simf::unlex(l, vm.L, c);
      multi1d<int> x(4); for (int m = 0; m < 4; ++m) x[m] = c[m];
      v.push_back(Layout::nodeNumber(x)); v.push_back(Layout::linearSiteIndex(x));
    }
    // the other forms of the same lookups
    for (long l = 0; l < vol; ++l) {
      int c[4], b[4]; simf::unlex(l, vm.L, c); char w[200];
      multi1d<int> x(4); for (int m = 0; m < 4; ++m) x[m] = c[m];
      const char* bad = 0; int nd = Layout::nodeNumber(x), i = Layout::linearSiteIndex(x);
      multi1d<int> g = Layout::nodeCoord(x), h = Layout::getLogicalCoordFrom(nd), y = crtesn((int)l, Layout::lattSize());
      if (Layout::linearSiteIndex((int)l) != i) bad = "linearSiteIndex of the site number";
      else if (g.size() != 4 || h.size() != 4 || y.size() != 4) bad = "size of a coordinate";
      else if (Layout::getNodeNumberFrom(g) != nd) bad = "getNodeNumberFrom(nodeCoord)";
      else if (local_site(x, Layout::lattSize()) != (int)l) bad = "local_site";
      else if (QDP::Layout::QDPXX_nodeNumber(c) != nd) bad = "QDPXX_nodeNumber";
      else if (QDP::Layout::QDPXX_getLinearSiteIndex(c) != i) bad = "QDPXX_getLinearSiteIndex";
      else {
        QDP::Layout::QDPXX_getSiteCoords(b, nd, i);
        for (int m = 0; m < 4 && !bad; ++m) bad = g[m] != h[m] ? "getLogicalCoordFrom(nodeNumber)" : y[m] != c[m] ? "crtesn" : b[m] != c[m] ? "QDPXX_getSiteCoords" : nd == Layout::nodeNumber() && g[m] != Layout::nodeCoord()[m] ? "nodeCoord" : 0;
      }
      if (!bad && l < Layout::sitesOnNode()) {
        const multi1d<int>& s = Layout::subgridLattSize(); multi1d<int> z = Layout::localLexiCoordFromLinear((int)l);
        if (z.size() != 4 || z[0] + s[0] * (z[1] + s[1] * (z[2] + s[2] * z[3])) != (int)l) bad = "localLexiCoordFromLinear";
        else for (int m = 0; m < 4; ++m) if (z[m] < 0 || z[m] >= s[m]) bad = "localLexiCoordFromLinear";
      }
      if (bad) { snprintf(w, sizeof w, "%s disagrees with the other lookups at site (%d,%d,%d,%d): %d, %d on node %d", bad, c[0], c[1], c[2], c[3], Layout::linearSiteIndex((int)l), i, nd); sim_fail("layout.lookup", w); abort(); }
    }
    // and back, for every node
    for (int nd = 0; nd < Layout::numNodes(); ++nd)
      for (int i = 0; i < Layout::sitesOnNode(); ++i) {
        multi1d<int> x = Layout::siteCoords(nd, i);
        int c[4]; for (int m = 0; m < 4; ++m) c[m] = x[m];
        v.push_back((double)simf::lex(c, vm.L));
      }
    sim_values(v.data(), (int)v.size()); return true;
  }
  if (n == "mapdef" || n == "bimapdef") {
    MFunc f; f.k = (int)o.arg(1); f.L = vm.L; for (int i = 0; i < 4; ++i) f.p[i] = o.arg(2 + i);
    if (n == "mapdef") { Map* m = new Map; vm.maps[(int)o.arg(0)] = m; m->make(f); }
    else { BiDirectionalMap* m = new BiDirectionalMap; vm.bimaps[(int)o.arg(0)] = m; m->make(f); }
    return true;
  }
  if (n == "amapdef" || n == "abmapdef") {
    AFunc f; f.n = (int)o.arg(1); f.L = vm.L; for (int i = 0; i < 4; ++i) f.p[i] = o.arg(2 + i);
    if (n == "amapdef") { ArrayMap* m = new ArrayMap; vm.amaps[(int)o.arg(0)] = m; m->make(f); }
    else { ArrayBiDirectionalMap* m = new ArrayBiDirectionalMap; vm.abmaps[(int)o.arg(0)] = m; m->make(f); }
    return true;
  }
  return false;
}

static void cleanup(VM& vm) {
#ifdef VM_IO
  for (auto& s : vm.io) delete s.second;
  vm.io.clear();
#endif
  for (auto& s : vm.slots) delete s.second;
  for (auto& s : vm.sets) delete s.second;
  for (auto& s : vm.maps) delete s.second;
  for (auto& s : vm.bimaps) delete s.second;
  for (auto& s : vm.amaps) delete s.second;
  for (auto& s : vm.abmaps) delete s.second;
  vm.slots.clear(); vm.sets.clear(); vm.maps.clear(); vm.bimaps.clear(); vm.amaps.clear(); vm.abmaps.clear();
}

extern "C" __attribute__((visibility("default"))) void sim_node_main(const sim::Phase* ph, int node) {
  char a[12][32]; char* av[14]; int ac = 0;
  auto add = [&](const char* s) { strcpy(a[ac], s); av[ac] = a[ac]; ++ac; };
  add("node");
  if (ph->use_geom_arg) {
    add("-geom");
    for (int i = 0; i < 4; ++i) { char b[32]; snprintf(b, sizeof b, "%d", ph->geom[i]); add(b); }
  }
  if (long kb = sim_spec()->knob("pool", 0)) { char b[32]; snprintf(b, sizeof b, "%.9f", (kb + 1) / 1048576.0); add("-poolsize"); add(b); }
  av[ac] = nullptr;
  char** avp = av;
  sim_op_begin(-2);
  QDP_initialize(&ac, &avp);
  multi1d<int> ls(4);
  for (int i = 0; i < 4; ++i) ls[i] = ph->latt[i];
  Layout::setLattSize(ls);
  Layout::create();
  {
    VM vm; vm.ph = ph; vm.node = node;
    for (int i = 0; i < 4; ++i) vm.L[i] = ph->latt[i];
    vm.nloc = Layout::sitesOnNode();
    vm.coords.resize(vm.nloc * 4); vm.lexs.resize(vm.nloc);
    for (long i = 0; i < vm.nloc; ++i) {
      multi1d<int> c = Layout::siteCoords(Layout::nodeNumber(), (int)i);
      for (int m = 0; m < 4; ++m) vm.coords[i * 4 + m] = c[m];
      vm.lexs[i] = simf::lex(&vm.coords[i * 4], vm.L);
    }
    sim_layout(vm.nloc, vm.coords.data());
    long mark = sim_mem_mark();
    (void)mark;
    sim_op_end(-2);
    for (size_t k = 0; k < ph->ops.size(); ++k) {
      const Op& o = ph->ops[k];
#ifdef VM_QIO
      if (qio_gives_up(o)) QDP_abort(1);
#endif
      sim_op_begin((int)k);
      bool done = run_basic(vm, o);
#ifdef VM_LIN
      if (!done) done = run_lin(vm, o);
#endif
#ifdef VM_RNG
      if (!done) done = run_rng(vm, o);
#endif
#ifdef VM_IO
      if (!done) done = run_io(vm, o);
#endif
#ifdef VM_ARCH
      if (!done) done = run_arch(vm, o);
#endif
#ifdef VM_DB
      if (!done) done = run_db(vm, o);
#endif
#ifdef VM_XML
      if (!done) done = run_xml(vm, o);
#endif
#ifdef VM_QIO
      if (!done) done = run_qio(vm, o);
#endif
#ifdef VM_MISC
      if (!done) done = run_misc(vm, o);
#endif
      if (!done) {
        // field operation: the kind of the first slot decides
        int kd = o.a.empty() ? -1 : vm.kind(o.a[0]);
        if (kd >= 0) {
          done = kind_runner(kd)->run(vm, o);
          if (done) vm.report(o.a[0]);
        }
      }
      if (!done) sim_fail("simbug", ("unknown op " + o.name).c_str());
      sim_op_end((int)k);
    }
    sim_op_begin((int)ph->ops.size());
    cleanup(vm);
  }
  QDP_finalize();
  sim_op_end((int)ph->ops.size());
}
