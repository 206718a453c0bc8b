// Values written to and read from XML documents; shared by node program and model.
#ifndef SIM_XMLV_H
#define SIM_XMLV_H
#include "io.h"
#include <string>
#include <sstream>
namespace simxml {
enum { X_STR, X_CHAR, X_INT, X_UINT, X_SHORT, X_USHORT, X_LONG, X_ULONG, X_FLOAT, X_DOUBLE, X_BOOL, X_INTEGER, X_R32, X_R64, X_BOOLEAN, NATOM };
enum { C_ATOM, C_M1, C_VEC, C_LIST, NCONT };
// type code: container * 100 + atom, or one of these
enum { X_MAP = 1000, X_PAIR, X_A1O, X_M1M1, X_LPAIR, X_CPLX, X_SEED, X_MEM, X_VSTRV, X_COLV, X_COLM, X_SPV, X_LATR, X_LATI, X_LATC, X_LATV, X_END };
inline bool write_only(int c) { return c >= X_COLV; }
inline int kind_of_lat(int c) { static const int k[] = {2, 0, 4, 5}; return k[c - X_LATR]; }
template <class T> inline std::string istr(unsigned s) { std::ostringstream o; o << simio::ival<T>(s); return o.str(); }
inline unsigned h(unsigned s, unsigned t) { return simf::hash3(s, t, 21); }
inline int latword(unsigned s, long lex, int j) { return (int)(h(s, (unsigned)(lex * 31 + j)) % 2001) - 1000; }
inline int seedpart(unsigned s, int i) { return (int)(h(s, i) % (i ? 4096 : 2048)); }      // from the most significant part on
// the text of a value
inline std::string token(int atom, unsigned s) {
  switch (atom) {
    case X_STR: {
      static const char* pool[] = {"", "a", "abc", "x y", " lead", "trail ", "a&b", "<tag>", "]]>", "two\nlines", "\"q\" 'p'", "&amp;", "tab\there", "-17", "1.5", "true", "    ", "\n", "z<z>&;z"};
      if (h(s, 1) % 4) return pool[h(s, 2) % (sizeof pool / sizeof *pool)];
      std::string r; int n = h(s, 3) % 60; if (h(s, 5) % 16 == 0) n = h(s, 7) % 1100; for (int i = 0; i < n; ++i) r += "ab &<>c1"[h(s, 4 + i) % 8]; return r;
    }
    case X_CHAR: return std::string(1, (char)(33 + h(s, 1) % 94));
    case X_INT: case X_INTEGER: return istr<int>(s);
    case X_UINT: return istr<unsigned int>(s);
    case X_SHORT: return istr<short>(s);
    case X_USHORT: return istr<unsigned short>(s);
    case X_LONG: return istr<long>(s);
    case X_ULONG: return istr<unsigned long>(s);
    case X_BOOL: case X_BOOLEAN: return h(s, 1) % 2 ? "1" : "0";
    default: {                                    // few digits: arrays are written with a limited precision
      std::ostringstream o;
      switch (h(s, 1) % 8) { case 0: o << 0; break; case 1: o << "1e+20"; break; case 2: o << "-2.5e-10"; break; case 3: o << "1e-05"; break; default: o << (int(h(s, 2) % 15999) - 7999) / 8.0; }
      return o.str();
    }
  }
}
}
#endif
