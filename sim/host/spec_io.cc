#include "host.h"
#include <sstream>
#include <cstring>
namespace sim {
static std::string enc(const std::string& s) {
  std::string o; char b[4];
  for (unsigned char c : s) if (c <= 32 || c == '%' || c == '|' || c > 126) { snprintf(b, sizeof b, "%%%02x", c); o += b; } else o += (char)c;
  return o.empty() ? "%" : o;
}
static std::string dec(const std::string& s) {
  std::string o;
  if (s == "%") return o;
  for (size_t i = 0; i < s.size(); ++i) if (s[i] == '%' && i + 2 < s.size()) { o += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; } else o += s[i];
  return o;
}
std::string spec_text(const Spec& s) {
  std::ostringstream o;
  o << "prop " << s.prop << "\nseed " << s.seed << "\n";
  for (auto& k : s.k) o << "knob " << k.first << " " << k.second << "\n";
  for (auto& p : s.phases) {
    o << "phase " << p.variant << " " << p.nodes;
    for (int i = 0; i < 4; ++i) o << " " << p.geom[i];
    for (int i = 0; i < 4; ++i) o << " " << p.latt[i];
    o << " " << p.use_geom_arg << " " << p.threads;
    for (int x : p.perm) o << " " << x;
    o << "\n";
    for (auto& op : p.ops) {
      o << "op " << op.name;
      for (long a : op.a) o << " " << a;
      if (!op.s.empty()) { o << " |"; for (auto& x : op.s) o << " " << enc(x); }
      o << "\n";
    }
  }
  return o.str();
}
bool spec_parse(const std::string& txt, Spec& s, Trace& tr, bool& has) {
  std::istringstream in(txt); std::string line; has = false; tr.clear(); s = Spec();
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == '#') continue;
    std::istringstream l(line); std::string w; l >> w;
    if (w == "prop") l >> s.prop;
    else if (w == "seed") l >> s.seed;
    else if (w == "knob") { std::string n; long v; l >> n >> v; s.k[n] = v; }
    else if (w == "phase") {
      Phase p; l >> p.variant >> p.nodes;
      for (int i = 0; i < 4; ++i) l >> p.geom[i];
      for (int i = 0; i < 4; ++i) l >> p.latt[i];
      l >> p.use_geom_arg >> p.threads;
      int x; while (l >> x) p.perm.push_back(x);
      s.phases.push_back(p);
    } else if (w == "op") {
      Op o; l >> o.name; std::string t; bool str = false;
      while (l >> t) { if (!str && t == "|") { str = true; continue; } if (str) o.s.push_back(dec(t)); else o.a.push_back(strtol(t.c_str(), nullptr, 10)); }
      if (s.phases.empty()) return false;
      s.phases.back().ops.push_back(o);
    } else if (w == "trace") {
      has = true; std::string t;
      while (l >> t) { size_t c = t.find(':'); if (c == std::string::npos) return false; tr.push_back({atol(t.c_str()), atoi(t.c_str() + c + 1)}); }
    } else if (w == "expect") continue;
    else return false;
  }
  return !s.phases.empty();
}
}
