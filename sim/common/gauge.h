// Gauge links of the archive programs; shared by node program and model.
#ifndef SIM_GAUGE_H
#define SIM_GAUGE_H
#include "funcs.h"
#include <cmath>
namespace simg {
// monomial SU(3) matrices (products and sums of traces are exact) or general ones; the tail may be zero
inline bool exact(long pat) { return pat % 3 != 0; }
inline void link(long pat, long site, long vol, int mu, float* w) {
  for (int i = 0; i < 18; ++i) w[i] = 0;
  if ((pat & 64) && site >= vol - (vol + 3) / 4) return;
  unsigned h = simf::hash3((unsigned)pat, (unsigned)site, 40 + mu);
  if (exact(pat)) {
    static const int pm[6][3] = {{0, 1, 2}, {1, 2, 0}, {2, 0, 1}, {0, 2, 1}, {2, 1, 0}, {1, 0, 2}};
    int k = h % 6, a = (h >> 8) & 3, b = (h >> 12) & 3, c = ((k >= 3 ? 2 : 0) + 8 - a - b) & 3; int ph[3] = {a, b, c};
    for (int r = 0; r < 3; ++r) { float* z = w + 2 * (3 * r + pm[k][r]); z[0] = ph[r] == 0 ? 1.f : ph[r] == 2 ? -1.f : 0.f; z[1] = ph[r] == 1 ? 1.f : ph[r] == 3 ? -1.f : 0.f; }
    return;
  }
  double a[6], b[6], c[6], n = 0;
  for (int i = 0; i < 6; ++i) { a[i] = (simf::hash3(h, i, 1) % 2001) / 1000.0 - 1; b[i] = (simf::hash3(h, i, 2) % 2001) / 1000.0 - 1; }
  a[0] += 3; b[2] += 3;
  for (double x : a) n += x * x; n = std::sqrt(n); for (double& x : a) x /= n;
  double re = 0, im = 0;                          // <a,b>
  for (int i = 0; i < 6; i += 2) { re += a[i] * b[i] + a[i + 1] * b[i + 1]; im += a[i] * b[i + 1] - a[i + 1] * b[i]; }
  for (int i = 0; i < 6; i += 2) { double p = re * a[i] - im * a[i + 1], q = re * a[i + 1] + im * a[i]; b[i] -= p; b[i + 1] -= q; }
  n = 0; for (double x : b) n += x * x; n = std::sqrt(n); for (double& x : b) x /= n;
  for (int i = 0; i < 3; ++i) {                    // conj(a x b)
    int j = (i + 1) % 3, k = (i + 2) % 3;
    c[2 * i] = (a[2 * j] * b[2 * k] - a[2 * j + 1] * b[2 * k + 1]) - (a[2 * k] * b[2 * j] - a[2 * k + 1] * b[2 * j + 1]);
    c[2 * i + 1] = -((a[2 * j] * b[2 * k + 1] + a[2 * j + 1] * b[2 * k]) - (a[2 * k] * b[2 * j + 1] + a[2 * k + 1] * b[2 * j]));
  }
  for (int i = 0; i < 6; ++i) { w[i] = (float)a[i]; w[6 + i] = (float)b[i]; w[12 + i] = (float)c[i]; }
}
}
#endif
