// Gauge archives.
#include "vm.h"
#include "qdp_iogauge.h"
#include "../common/gauge.h"
typedef LatticeColorMatrix U;
static void str(const std::string& s) { sim_string(s.data(), (long)s.size()); }
bool run_arch(VM& vm, const Op& o) {
  const std::string& n = o.name;
  if (n.compare(0, 5, "disk.") == 0) return true;
  if (n.compare(0, 3, "ar.")) return false;
  int b = (int)o.arg(0);
  long vol = (long)vm.L[0] * vm.L[1] * vm.L[2] * vm.L[3];
  auto take = [&](multi1d<U>& u) { u.resize(4); for (int m = 0; m < 4; ++m) u[m] = vm.f<U>(b + m); };
  if (n == "ar.fill") {
    for (int m = 0; m < 4; ++m) {
      U& f = vm.f<U>(b + m);
      for (long i = 0; i < vm.nloc; ++i) simg::link(o.arg(1), vm.lexs[i], vol, m, (float*)&f.elem((int)i));
      vm.report(b + m);
    }
    return true;
  }
  if (n == "ar.write") {     // slot, mat_size, boundary bits, sequence number, via | file, 6 strings
    multi1d<U> u; take(u);
    ArchivGauge_t h;
    h.mat_size = o.arg(1); h.sequence_number = (int)o.arg(3);
    for (int m = 0; m < 4; ++m) h.boundary[m] = (o.arg(2) >> m) & 1 ? -1 : 1;
    if (o.arg(4) != 1) { h.ensemble_id = o.s.at(1); h.ensemble_label = o.s.at(2); h.creator = o.s.at(3); h.creator_hardware = o.s.at(4); h.creation_date = o.s.at(5); h.archive_date = o.s.at(6); }
    switch (o.arg(4)) {
      case 0: writeArchiv(h, u, o.s.at(0)); break;
      case 1: writeArchiv(u, o.s.at(0)); break;
#ifdef QDP_USE_LIBXML2
      default: { XMLBufferWriter x; write(x, "NERSC", h); writeArchiv(x, u, o.s.at(0)); }
#endif
    }
    for (int m = 0; m < 4; ++m) vm.report(b + m);
    return true;
  }
  if (n == "ar.read") {      // slot, via | file
    multi1d<U> u(4); u = zero; ArchivGauge_t h; bool head = true;
    switch (o.arg(1)) {
      case 0: readArchiv(h, u, o.s.at(0)); break;
      case 1: readArchiv(u, o.s.at(0)); head = false; break;
#ifdef QDP_USE_LIBXML2
      default: { XMLReader x; readArchiv(x, u, o.s.at(0)); read(x, "/NERSC", h); }
#endif
    }
    for (int m = 0; m < 4; ++m) { vm.f<U>(b + m) = u[m]; vm.report(b + m); }
    if (head) {
      std::ostringstream s;
      for (int m = 0; m < 4; ++m) s << h.nrow[m] << " " << h.boundary[m] << " ";
      s << h.mat_size << " " << h.float_size << " " << std::hex << h.checksum << std::dec << " " << h.sequence_number << "\n"
        << h.ensemble_id << "\n" << h.ensemble_label << "\n" << h.creator << "\n" << h.creator_hardware << "\n" << h.creation_date << "\n" << h.archive_date;
      str(s.str());
      double v[2] = {toDouble(h.w_plaq), toDouble(h.link)}; sim_values(v, 2);
    }
    return true;
  }
  return false;
}
