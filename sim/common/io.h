// Values written and read by the I/O programs; shared by node program and model.
#ifndef SIM_IO_H
#define SIM_IO_H
#include "funcs.h"
#include <cmath>
#include <limits>
namespace simio {
enum { T_CHAR, T_INT, T_UINT, T_SHORT, T_USHORT, T_LONG, T_ULONG, T_LL, T_FLOAT, T_DOUBLE, T_BOOL, T_CF, T_CD, T_STR, T_DESC, T_LD, T_IARR };
// streams
enum { K_FW, K_BW, K_FR, K_BR, K_FRW, K_BRW, K_TFW, K_TBW, K_TFR, K_TBR, K_CIN, K_COUT, K_CERR };
// global objects as text: element words
enum { B_INT, B_RF, B_RD, B_BOOL, B_CF, B_CD, B_CVF, B_SVD, B_SEED, B_SUMD, B_N };
inline int obj_words(int b) { static const int w[] = {1, 1, 1, 1, 2, 2, 6, 8, 4, 2}; return w[b]; }
// containers
enum { A_M1, A_M2, A_M3, A_M4, A_M5, A_MN, A_VEC, A_LIST, A_A1O, A_MAP, A_PAIR, A_M1N, A_NCONT };
inline unsigned long long h64(unsigned s, unsigned t) { return ((unsigned long long)simf::hash3(s, t, 11) << 32) | simf::hash3(s, t, 12); }
template <class T> inline T ival(unsigned s) {
  switch (s % 7) {
    case 0: return T(0);
    case 1: return std::numeric_limits<T>::max();
    case 2: return std::numeric_limits<T>::min();
    case 3: return T(-1);
    default: return T(h64(s, 5));
  }
}
template <class T> struct Val { static T get(unsigned s) { return ival<T>(s); } };
template <> struct Val<bool> { static bool get(unsigned s) { return simf::hash3(s, 1, 2) & 1; } };
template <class T> inline T fval(unsigned s, T big, T tiny) {
  switch (s % 9) {
    case 0: return T(0);
    case 1: return T(1) / T(3);
    case 2: return T(-0.0);
    case 3: return big;
    case 4: return tiny;
    default: return T((int)(simf::hash3(s, 3, 4) % 2000001) - 1000000) * std::ldexp(T(1), (int)(simf::hash3(s, 5, 6) % 40) - 25);
  }
}
template <> struct Val<float> { static float get(unsigned s) { return fval<float>(s, -3.4e38f, 1.5e-45f); } };
template <> struct Val<double> { static double get(unsigned s) { return fval<double>(s, -1.7e308, 5e-324); } };
// text: printable character, normal numbers
template <class T> struct TVal { static T get(unsigned s) { return Val<T>::get(s); } };
template <> struct TVal<char> { static char get(unsigned s) { return (char)(33 + simf::hash3(s, 7, 8) % 94); } };
template <> struct TVal<float> { static float get(unsigned s) { return s % 9 == 4 ? 1.25e-30f : Val<float>::get(s); } };
template <> struct TVal<double> { static double get(unsigned s) { return s % 9 == 4 ? 1.25e-300 : Val<double>::get(s); } };
#define SIMIO_TYPES(X) X(0, char) X(1, int) X(2, unsigned int) X(3, short) X(4, unsigned short) X(5, long) X(6, unsigned long) X(7, long long) X(8, float) X(9, double) X(10, bool)
}
#endif
