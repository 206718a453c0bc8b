// Text and binary streams.
#include "vm.h"
#include "../common/io.h"
#include <complex>
#include <list>
using namespace simio;
template <class T> static T* as(IoH* h) { return static_cast<T*>(h->obj); }
#define BYKIND(h, F) switch (h->kind) { \
  case K_FW: F(BinaryFileWriter) case K_BW: F(BinaryBufferWriter) case K_FR: F(BinaryFileReader) case K_BR: F(BinaryBufferReader) \
  case K_FRW: F(BinaryFileReaderWriter) case K_BRW: F(BinaryBufferReaderWriter) case K_TFW: F(TextFileWriter) case K_TBW: F(TextBufferWriter) \
  case K_TFR: F(TextFileReader) case K_TBR: F(TextBufferReader) }
IoH::~IoH() {
#define DEL(T) delete as<T>(this); break;
  BYKIND(this, DEL)
  if (in) { QDPIO::cin.init(&std::cin); delete in; }
  if (out) { if (kind == K_COUT) QDPIO::cout.init(&std::cout); else QDPIO::cerr.init(&std::cerr); delete out; }
}
static void raw(const void* p, size_t n) { sim_string((const char*)p, (long)n); }
static void str(const std::string& s) { sim_string(s.data(), (long)s.size()); }
// text and binary names are the same, the streams differ
template <class T> static void set(IoH* h, T* t) { h->obj = t; }
static bool isfile(int k) { return k == K_FW || k == K_FR || k == K_FRW || k == K_TFW || k == K_TFR; }
static void doopen(VM& vm, const Op& o) {
  IoH* h = new IoH; h->kind = (int)o.arg(1); bool ctor = o.arg(2);
  vm.io[(int)o.arg(0)] = h;
  // the streams of other nodes hold something else
  if (h->kind == K_CIN) { h->in = new std::istringstream(vm.node ? "77 66 55" : o.s.at(0)); QDPIO::cin.init(h->in); return; }
  if ((h->kind == K_COUT || h->kind == K_CERR) && o.arg(5)) { h->real = true; h->mark = sim_output(h->kind == K_CERR, 0, nullptr); return; }
  if (h->kind == K_COUT) { h->out = new std::ostringstream; QDPIO::cout.init(h->out); return; }
  if (h->kind == K_CERR) { h->out = new std::ostringstream; QDPIO::cerr.init(h->out); return; }
  std::string p = o.s.empty() ? std::string() : o.s[0];
  if (o.arg(3, -1) >= 0) {     // contents of another buffer
    IoH* b = vm.io.at((int)o.arg(3)); bool prim = o.arg(4);
    switch (b->kind) {
      case K_BW: p = prim ? as<BinaryBufferWriter>(b)->strPrimaryNode() : as<BinaryBufferWriter>(b)->str(); break;
      case K_BR: p = prim ? as<BinaryBufferReader>(b)->strPrimaryNode() : as<BinaryBufferReader>(b)->str(); break;
      case K_BRW: p = prim ? as<BinaryBufferReaderWriter>(b)->strPrimaryNode() : as<BinaryBufferReaderWriter>(b)->str(); break;
      case K_TBW: p = prim ? as<TextBufferWriter>(b)->strPrimaryNode() : as<TextBufferWriter>(b)->str(); break;
      case K_TBR: p = prim ? as<TextBufferReader>(b)->strPrimaryNode() : as<TextBufferReader>(b)->str(); break;
    }
  }
  if (h->kind == K_FRW) {
    std::ios_base::openmode m = std::ios_base::in | std::ios_base::out;
    if (o.arg(5)) m |= std::ios_base::trunc;
    BinaryFileReaderWriter* x;
    if (ctor) x = new BinaryFileReaderWriter(p, m); else { x = new BinaryFileReaderWriter; h->obj = x; x->open(p, m); }
    h->obj = x; h->w = x; h->r = x; return;
  }
#define OPENED(T) { T* x; if (ctor) x = new T(p); else { x = new T; h->obj = x; if (isfile(h->kind) || o.arg(6)) x->open(p); } h->obj = x; bind(h, x); break; }
  struct B {
    static void bind_(IoH* h, BinaryWriter* x) { h->w = x; }
    static void bind_(IoH* h, BinaryReader* x) { h->r = x; }
    static void bind_(IoH* h, TextWriter* x) { h->tw = x; }
    static void bind_(IoH* h, TextReader* x) { h->tr = x; }
    static void bind_(IoH* h, BinaryBufferReaderWriter* x) { h->w = x; h->r = x; }
  };
  auto bind = [](IoH* h, auto* x) { B::bind_(h, x); };
  switch (h->kind) {
    case K_FW: OPENED(BinaryFileWriter)
    case K_BW: OPENED(BinaryBufferWriter)
    case K_FR: OPENED(BinaryFileReader)
    case K_BR: OPENED(BinaryBufferReader)
    case K_BRW: OPENED(BinaryBufferReaderWriter)
    case K_TFW: OPENED(TextFileWriter)
    case K_TBW: OPENED(TextBufferWriter)
    case K_TFR: OPENED(TextFileReader)
    case K_TBR: OPENED(TextBufferReader)
  }
}
// an object kept open may be pointed at something else
static void reopen(IoH* h, const std::string& p) {
  switch (h->kind) {
#define RE(T) as<T>(h)->open(p); break;
    case K_FW: RE(BinaryFileWriter) case K_FR: RE(BinaryFileReader) case K_TFW: RE(TextFileWriter) case K_TFR: RE(TextFileReader) case K_FRW: RE(BinaryFileReaderWriter)
  }
}
template <class T> static void put1(BinaryWriter& b, T x, int via) {
  switch (via) { case 0: write(b, x); break; case 1: b << x; break; default: b.write(x); }
}
template <class T> static void get1(BinaryReader& b, int via, int node) {
  T x; memset(&x, 0x11 + node, sizeof x);
  if (std::is_same<T, bool>::value) x = T(0);
  switch (via) { case 0: read(b, x); break; case 1: b >> x; break; default: b.read(x); }
  raw(&x, sizeof x);
}
template <class T> static void oput1(StandardOutputStream& b, T x) { b << x; }
template <class T> static void iget1(StandardInputStream& b, int node) {
  T x; memset(&x, 0, sizeof x); x = T(node % 2);
  b >> x; raw(&x, sizeof x);
}
template <class T> static void tput1(TextWriter& b, T x, int via) { if (via) b.write(x); else b << x; }
template <class T> static void tget1(TextReader& b, int via, int node) {
  T x; memset(&x, 0, sizeof x); x = T(node % 2);
  if (via) b.read(x); else b >> x;
  raw(&x, sizeof x);
}
// ---- containers ------------------------------------------------------------------
struct Out { std::string b; template <class T> void v(const T& x) { b.append((const char*)&x, sizeof x); } void n(long k) { int i = (int)k; v(i); } };
template <class T> struct El { static T get(unsigned s) { return Val<T>::get(s); } static void out(Out& o, const T& x) { o.v(x); } };
template <> struct El<std::complex<double>> { static std::complex<double> get(unsigned s) { return {Val<double>::get(s), Val<double>::get(s + 1)}; } static void out(Out& o, const std::complex<double>& x) { o.v(x.real()); o.v(x.imag()); } };
template <class T> static void parr(BinaryWriter& b, const Op& o) {
  int c = (int)o.arg(1); int n[5]; for (int i = 0; i < 5; ++i) n[i] = (int)o.arg(4 + i); unsigned s = (unsigned)o.arg(3); int k = 0;
  auto nx = [&] { return El<T>::get(s + 13 * k++); };
  switch (c) {
    case A_M1: case A_M1N: { multi1d<T> a(n[0]); for (int i = 0; i < n[0]; ++i) a[i] = nx(); if (c == A_M1) write(b, a); else write(b, a, n[0]); break; }
    case A_M2: { multi2d<T> a(n[1], n[0]); for (int i = 0; i < n[0]; ++i) for (int j = 0; j < n[1]; ++j) a[j][i] = nx(); write(b, a); break; }
    case A_M3: { multi3d<T> a(n[2], n[1], n[0]); for (int i = 0; i < n[0]; ++i) for (int j = 0; j < n[1]; ++j) for (int l = 0; l < n[2]; ++l) a[l][j][i] = nx(); write(b, a); break; }
    case A_M4: { multi4d<T> a(n[3], n[2], n[1], n[0]); for (int i = 0; i < n[0]; ++i) for (int j = 0; j < n[1]; ++j) for (int l = 0; l < n[2]; ++l) for (int m = 0; m < n[3]; ++m) a[m][l][j][i] = nx(); write(b, a); break; }
    case A_M5: { multi5d<T> a; a.resize(n[4], n[3], n[2], n[1], n[0]); for (int i = 0; i < n[0]; ++i) for (int j = 0; j < n[1]; ++j) for (int l = 0; l < n[2]; ++l) for (int m = 0; m < n[3]; ++m) for (int q = 0; q < n[4]; ++q) a[q][m][l][j][i] = nx(); write(b, a); break; }
    case A_MN: { multi1d<int> z(3); for (int i = 0; i < 3; ++i) z[i] = n[i]; multiNd<T> a(z); for (int i = 0; i < a.numElem(); ++i) a.getElem(i) = nx(); write(b, a); break; }
    case A_VEC: { std::vector<T> a(n[0]); for (int i = 0; i < n[0]; ++i) a[i] = nx(); write(b, a); break; }
    case A_LIST: { std::list<T> a; for (int i = 0; i < n[0]; ++i) a.push_back(nx()); write(b, a); break; }
    case A_A1O: { Array1dO<T> a(n[0]); for (int i = 1; i <= n[0]; ++i) a[i] = nx(); write(b, a); break; }
    case A_MAP: { std::map<int, T> a; for (int i = 0; i < n[0]; ++i) { T v = nx(); a[i * 3 - 4] = v; } write(b, a); break; }
    case A_PAIR: { std::pair<int, T> a; a.first = n[0]; a.second = nx(); write(b, a); break; }
  }
}
template <class T> static void garr(BinaryReader& b, const Op& o) {
  int c = (int)o.arg(1); Out r;
  switch (c) {
    case A_M1: { multi1d<T> a; read(b, a); r.n(a.size()); for (int i = 0; i < a.size(); ++i) El<T>::out(r, a[i]); break; }
    case A_M1N: { multi1d<T> a((int)o.arg(4)); read(b, a, (int)o.arg(4)); for (int i = 0; i < a.size(); ++i) El<T>::out(r, a[i]); break; }
    case A_M2: { multi2d<T> a; read(b, a); r.n(a.size1()); r.n(a.size2()); for (int i = 0; i < a.size1(); ++i) for (int j = 0; j < a.size2(); ++j) El<T>::out(r, a[j][i]); break; }
    case A_M3: { multi3d<T> a; read(b, a); r.n(a.size1()); r.n(a.size2()); r.n(a.size3()); for (int i = 0; i < a.size1(); ++i) for (int j = 0; j < a.size2(); ++j) for (int l = 0; l < a.size3(); ++l) El<T>::out(r, a[l][j][i]); break; }
    case A_M4: { multi4d<T> a; read(b, a); r.n(a.size1()); r.n(a.size2()); r.n(a.size3()); r.n(a.size4()); for (int i = 0; i < a.size1(); ++i) for (int j = 0; j < a.size2(); ++j) for (int l = 0; l < a.size3(); ++l) for (int m = 0; m < a.size4(); ++m) El<T>::out(r, a[m][l][j][i]); break; }
    case A_M5: { multi5d<T> a; read(b, a); r.n(a.size1()); r.n(a.size2()); r.n(a.size3()); r.n(a.size4()); r.n(a.size5()); for (int i = 0; i < a.size1(); ++i) for (int j = 0; j < a.size2(); ++j) for (int l = 0; l < a.size3(); ++l) for (int m = 0; m < a.size4(); ++m) for (int q = 0; q < a.size5(); ++q) El<T>::out(r, a[q][m][l][j][i]); break; }
    case A_MN: { multiNd<T> a; read(b, a); for (int i = 0; i < a.size().size(); ++i) r.n(a.size()[i]); for (int i = 0; i < a.numElem(); ++i) El<T>::out(r, a.getElem(i)); break; }
    case A_VEC: { std::vector<T> a(2); read(b, a); r.n(a.size()); for (auto& x : a) El<T>::out(r, x); break; }
    case A_LIST: { std::list<T> a(2); read(b, a); r.n(a.size()); for (auto& x : a) El<T>::out(r, x); break; }
    case A_A1O: { Array1dO<T> a; read(b, a); r.n(a.size()); for (int i = 1; i <= a.size(); ++i) El<T>::out(r, a[i]); break; }
    case A_MAP: { std::map<int, T> a; a[7] = T(); read(b, a); r.n(a.size()); for (auto& x : a) { r.n(x.first); El<T>::out(r, x.second); } break; }
    case A_PAIR: { std::pair<int, T> a; read(b, a); r.n(a.first); El<T>::out(r, a.second); break; }
  }
  str(r.b);
}
// ---- global objects as text
template <class T, class W> static T obj(unsigned s) { T x; W* w = (W*)&x; for (size_t j = 0; j < sizeof(T) / sizeof(W); ++j) w[j] = TVal<W>::get(s + 13 * (unsigned)j); return x; }
template <class S> static void oput(S& b, int t, unsigned s) {
  switch (t) {
    case B_INT: b << obj<Integer, int>(s); break; case B_RF: b << obj<RealF, float>(s); break; case B_RD: b << obj<RealD, double>(s); break; case B_BOOL: b << obj<Boolean, bool>(s); break;
    case B_CF: b << obj<ComplexF, float>(s); break; case B_CD: b << obj<ComplexD, double>(s); break; case B_CVF: b << obj<ColorVectorF, float>(s); break; case B_SVD: b << obj<SpinVectorD, double>(s); break; case B_SEED: b << obj<Seed, int>(s); break;
  }
}
static void sput(StandardOutputStream& b, int t, unsigned s) {
  if (t == B_SUMD) { RealD x(2.5), y(TVal<int>::get(s) % 1000); b << x + y; return; }
  oput(b, t, s);
}
template <class T, class W, class S> static void get1o(S& b, int node) { T x; W* w = (W*)&x; for (size_t j = 0; j < sizeof(T) / sizeof(W); ++j) w[j] = W(node % 2); b >> x; raw(&x, sizeof x); }
template <class S> static void oget(S& b, int t, int node) {
  switch (t) {
    case B_INT: get1o<Integer, int>(b, node); break; case B_RF: get1o<RealF, float>(b, node); break; case B_RD: get1o<RealD, double>(b, node); break; case B_BOOL: get1o<Boolean, bool>(b, node); break;
    case B_SEED: get1o<Seed, int>(b, node); break;
  }
}
static void tgeto(TextReader& b, int t, int node) {
  switch (t) {
    case B_CF: get1o<ComplexF, float>(b, node); break; case B_CD: get1o<ComplexD, double>(b, node); break; case B_CVF: get1o<ColorVectorF, float>(b, node); break; case B_SVD: get1o<SpinVectorD, double>(b, node); break;
    default: oget(b, t, node);
  }
}
static void bval(bool b) { double v = b; sim_values(&v, 1); }
bool run_io(VM& vm, const Op& o) {
  const std::string& n = o.name;
  if (n.compare(0, 5, "disk.") == 0) return true;        // done between lives of the machine
  if (n.compare(0, 3, "io.") != 0) return false;
  if (n == "io.plat" || n == "io.glat" || n == "io.posc" || n == "io.gosc") return false;     // per element kind
  if (n == "io.open") { doopen(vm, o); return true; }
  if (n == "io.info") {        // error stream?, number, text
    int err = (int)o.arg(0); long k = o.arg(1); const char* m = o.s.at(0).c_str();
    int r = err ? (k < 0 ? QDP_error("%s", m) : QDP_error("%ld: %s.", k, m)) : (k < 0 ? QDP_info("%s", m) : QDP_info("%ld: %s.", k, m));
    double v = r; sim_values(&v, 1);
    std::string t = "QDP m" + std::to_string(Layout::nodeNumber()) + ",n" + std::to_string(Layout::numNodes()) + "@simhost " + (err ? "error" : "info") + ":  " + (k < 0 ? std::string(m) : std::to_string(k) + ": " + m + ".") + "\n";
    for (auto& x : vm.io) if (x.second->real && (x.second->kind == K_CERR) == !!err) x.second->mine += t;
    return true;
  }
  IoH* h = vm.io.at((int)o.arg(0));
  if (n == "io.del") { delete h; vm.io.erase((int)o.arg(0)); return true; }
  if (n == "io.reopen") { reopen(h, o.s.at(0)); return true; }
  if (n == "io.close") {
    switch (h->kind) {
#define CL(T) as<T>(h)->close(); break;
      case K_FW: CL(BinaryFileWriter) case K_FR: CL(BinaryFileReader) case K_FRW: CL(BinaryFileReaderWriter) case K_TFW: CL(TextFileWriter) case K_TFR: CL(TextFileReader)
    }
    return true;
  }
  if (n == "io.flush") {
    switch (h->kind) {
#define FL(T) as<T>(h)->flush(); break;
      case K_FW: FL(BinaryFileWriter) case K_BW: FL(BinaryBufferWriter) case K_FRW: FL(BinaryFileReaderWriter) case K_BRW: FL(BinaryBufferReaderWriter) case K_TFW: FL(TextFileWriter)
      case K_COUT: QDPIO::cout.flush(); break; case K_CERR: QDPIO::cerr.flush(); break;
    }
    return true;
  }
  if (n == "io.isopen") {
    switch (h->kind) {
#define IO_(T) bval(as<T>(h)->is_open()); break;
      case K_FW: IO_(BinaryFileWriter) case K_FR: IO_(BinaryFileReader) case K_FRW: IO_(BinaryFileReaderWriter) case K_TFW: IO_(TextFileWriter) case K_TFR: IO_(TextFileReader)
    }
    return true;
  }
  if (n == "io.str" && h->real) {
    const char* q; long k = sim_output(h->kind == K_CERR, h->mark, &q);
    if (vm.node == 0) str(std::string(q, k)); else if (std::string(q, k) != h->mine) sim_fail("io.non-primary", "a node other than the primary one printed text of the standard streams, or lost its own messages");
    return true;
  }
  if (n == "io.str" && h->out) {
    if (vm.node == 0) str(h->out->str()); else if (!h->out->str().empty()) sim_fail("io.non-primary", "a node other than the primary one printed text");
    return true;
  }
  if (n == "io.str") {
    switch (h->kind) {
#define ST_(T) { str(as<T>(h)->str()); std::string p = as<T>(h)->strPrimaryNode(); if (vm.node == 0) sim_note("primary-string", (long)p.size()); else if (!p.empty()) sim_fail("io.primary-string", "strPrimaryNode is not empty on another node"); break; }
      case K_BW: ST_(BinaryBufferWriter) case K_BR: ST_(BinaryBufferReader) case K_BRW: ST_(BinaryBufferReaderWriter) case K_TBW: ST_(TextBufferWriter) case K_TBR: ST_(TextBufferReader)
    }
    return true;
  }
  if (n == "io.clear") {
    switch (h->kind) {
#define CLR(T) as<T>(h)->clear(); break;
      case K_BW: CLR(BinaryBufferWriter) case K_BR: CLR(BinaryBufferReader) case K_BRW: CLR(BinaryBufferReaderWriter)
    }
    return true;
  }
  bool asw = h->w && !(h->r && o.arg(1) == 1);      // a reader-writer is asked through either face
  if (n == "io.fail") {
    if (h->in) bval(QDPIO::cin.fail()); else if (h->out || h->real) bval(h->kind == K_COUT ? QDPIO::cout.fail() : QDPIO::cerr.fail());
    else if (h->tw) bval(h->tw->fail()); else if (h->tr) bval(h->tr->fail()); else if (asw) bval(h->w->fail()); else bval(h->r->fail());
    return true;
  }
  if (n == "io.chk") { double v = asw ? h->w->getChecksum() : h->r->getChecksum(); sim_values(&v, 1); return true; }
  if (n == "io.rchk") { if (asw) h->w->resetChecksum(); else h->r->resetChecksum(); return true; }
  if (n == "io.pos" || n == "io.mark") {
    long p = asw ? (long)h->w->currentPosition() : (long)h->r->currentPosition();
    if (n == "io.mark") vm.marks[{(int)o.arg(0), (int)o.arg(2)}] = p;
    double v = (double)p; sim_values(&v, 1); return true;
  }
  if (n == "io.seek") {      // handle, face, mode, mark, end mark
    int mh = (int)o.arg(5, -1); if (mh < 0) mh = (int)o.arg(0);
    int mode = (int)o.arg(2); long t = mode == 4 ? 0 : vm.marks.at({mh, (int)o.arg(3)}), e = mode == 3 ? vm.marks.at({mh, (int)o.arg(4)}) : 0;
    auto go = [&](auto* s) {
      switch (mode) {
        case 0: s->seek(t); break;
        case 1: s->seekBegin(t); break;
        case 2: { long c = (long)s->currentPosition(); s->seekRelative(t - c); break; }
        case 3: s->seekEnd(e - t); break;
        default: s->rewind();
      }
    };
    if (asw) go(h->w); else go(h->r);
    return true;
  }
  int t = (int)o.arg(1), via = (int)o.arg(3); unsigned s = (unsigned)o.arg(2);
  if (n == "io.gle") {       // handle, only the primary node, type: the bytes as they are in the file
    size_t z = 1;
    switch (o.arg(2)) {
#define SZ_(k, T) case k: z = sizeof(T); break;
      SIMIO_TYPES(SZ_)
    }
    std::string x(z, (char)(vm.node + 1));
    if (o.arg(1)) { h->r->readArrayLittleEndian(&x[0], z, 1); str(x); }
    else { h->r->readArrayPrimaryNodeLittleEndian(&x[0], z, 1); if (vm.node == 0) str(x); else if (x != std::string(z, (char)(vm.node + 1))) sim_fail("io.non-primary", "a node other than the primary one was given data meant for the primary node alone"); }
    return true;
  }
  if (n == "io.put") {
    BinaryWriter& b = *h->w;
    switch (t) {
#define PUT(k, T) case k: put1<T>(b, Val<T>::get(s), via); break;
      SIMIO_TYPES(PUT)
      case T_CF: write(b, std::complex<float>(Val<float>::get(s), Val<float>::get(s + 1))); break;
      case T_CD: write(b, std::complex<double>(Val<double>::get(s), Val<double>::get(s + 1))); break;
      case T_STR: switch (via) { case 0: write(b, o.s.at(0)); break; case 1: b << o.s.at(0); break; case 2: b.write(o.s.at(0)); break; case 3: write(b, o.s.at(0).c_str()); break; default: b.write(o.s.at(0).c_str()); } break;
      case T_DESC: if (via) b.writeDesc(o.s.at(0)); else writeDesc(b, o.s.at(0)); break;
    }
    return true;
  }
  if (n == "io.get") {
    BinaryReader& b = *h->r;
    switch (t) {
#define GET(k, T) case k: get1<T>(b, via, vm.node); break;
      SIMIO_TYPES(GET)
      case T_CF: { std::complex<float> x(vm.node, 1); read(b, x); raw(&x, sizeof x); break; }
      case T_CD: { std::complex<double> x(vm.node, 1); read(b, x); raw(&x, sizeof x); break; }
      case T_STR: { std::string x = "old"; if (via) b.read(x, (size_t)o.arg(4)); else read(b, x, (size_t)o.arg(4)); str(x); break; }
      case T_DESC: { std::string x = "old"; if (via) b.readDesc(x); else readDesc(b, x); str(x); break; }
    }
    return true;
  }
  if (n == "io.parr" || n == "io.garr") {
    bool p = n == "io.parr";
    switch ((int)o.arg(2)) {
#define ARR(k, T) case k: if (p) parr<T>(*h->w, o); else garr<T>(*h->r, o); break;
      ARR(T_INT, int) ARR(T_DOUBLE, double) ARR(T_CHAR, char) ARR(T_CD, std::complex<double>)
    }
    return true;
  }
  if (n == "io.tput" && (h->out || h->real)) {
    StandardOutputStream& b = h->kind == K_COUT ? QDPIO::cout : QDPIO::cerr;
    switch (t) {
#define OPUT(k, T) case k: oput1<T>(b, TVal<T>::get(s)); break;
      SIMIO_TYPES(OPUT)
      case T_STR: switch (via) { case 0: b << o.s.at(0); break; case 1: b << o.s.at(0).c_str(); break; default: b << o.s.at(0) << std::endl; } break;
      case T_LD: b << (long double)TVal<double>::get(s); break;
    }
    return true;
  }
  if (n == "io.tget" && h->in) {
    StandardInputStream& b = QDPIO::cin;
    switch (t) {
#define IGET(k, T) case k: iget1<T>(b, vm.node); break;
      SIMIO_TYPES(IGET)
      case T_STR: { std::string x = vm.node ? "old" : ""; b >> x; str(x); break; }
      case T_LD: { long double x = vm.node % 2; b >> x; double d = (double)x; raw(&d, sizeof d); break; }
      case T_IARR: { multi1d<int> a(3); a = vm.node; b >> a; raw(&a[0], 3 * sizeof(int)); break; }
    }
    return true;
  }
  if (n == "io.oput") { if (h->tw) oput(*h->tw, t, s); else sput(h->kind == K_COUT ? QDPIO::cout : QDPIO::cerr, t, s); return true; }
  if (n == "io.oget") { if (h->tr) tgeto(*h->tr, t, vm.node); else oget(QDPIO::cin, t, vm.node); return true; }
  if (n == "io.tput") {
    TextWriter& b = *h->tw;
    switch (t) {
#define TPUT(k, T) case k: tput1<T>(b, TVal<T>::get(s), via); break;
      TPUT(0, char) TPUT(1, int) TPUT(2, unsigned int) TPUT(3, short) TPUT(4, unsigned short) TPUT(5, long) TPUT(6, unsigned long) TPUT(7, long long) TPUT(8, float) TPUT(9, double) TPUT(10, bool)
      case T_STR: switch (via) { case 0: b << o.s.at(0); break; case 1: b.write(o.s.at(0)); break; case 2: b << o.s.at(0).c_str(); break; default: b.write(o.s.at(0).c_str()); } break;
    }
    return true;
  }
  if (n == "io.tget") {
    TextReader& b = *h->tr;
    switch (t) {
#define TGET(k, T) case k: tget1<T>(b, via, vm.node); break;
      SIMIO_TYPES(TGET)
      case T_STR: { std::string x = vm.node ? "old" : ""; if (via) b.read(x); else b >> x; str(x); break; }
    }
    return true;
  }
  return false;
}
