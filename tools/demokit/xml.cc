#include "xml_simplewriter.h"
#include "basic_xpath_reader.h"
#include <fstream>
namespace XMLWriterAPI {
std::string escape(const std::string& s) {
  std::string o;
  for (char c : s) switch (c) { case '&': o += "&amp;"; break; case '<': o += "&lt;"; break; case '>': o += "&gt;"; break; default: o += c; }
  return o;
}
void XMLSimpleWriter::open(const std::string& t, AttributeList& al, bool empty) {
  std::ostream& os = getOstream();
  os << "\n" << std::string(2 * indent_level, ' ') << "<" << t;
  for (auto& a : al) os << " " << a.name << "=\"" << escape(a.value) << "\"";
  if (empty) { os << "/>"; simple = false; return; }
  os << ">";
  stack.push_back(t); ++indent_level; simple = true;
}
void XMLSimpleWriter::closeTag() {
  if (stack.empty()) throw std::string("closeTag without an open tag");
  --indent_level;
  std::ostream& os = getOstream();
  if (!simple) os << "\n" << std::string(2 * indent_level, ' ');
  os << "</" << stack.back() << ">";
  stack.pop_back(); simple = false;
}
}
namespace XMLXPathReader {
static std::string unescape(const std::string& s) {
  std::string o;
  for (size_t i = 0; i < s.size(); ++i) {
    if (s[i] != '&') { o += s[i]; continue; }
    size_t e = s.find(';', i);
    if (e == std::string::npos) throw std::string("bad entity");
    std::string n = s.substr(i + 1, e - i - 1);
    if (n == "amp") o += '&'; else if (n == "lt") o += '<'; else if (n == "gt") o += '>'; else if (n == "quot") o += '"'; else if (n == "apos") o += '\'';
    else throw std::string("unknown entity");
    i = e;
  }
  return o;
}
struct Parser {
  const std::string& s; size_t p = 0;
  explicit Parser(const std::string& t) : s(t) {}
  [[noreturn]] void bad(const char* m) { throw std::string("XML document is not well formed: ") + m; }
  bool at(const char* t) { return s.compare(p, strlen(t), t) == 0; }
  void ws() { while (p < s.size() && isspace((unsigned char)s[p])) ++p; }
  void misc() {
    for (;;) {
      ws();
      if (at("<?")) { p = s.find("?>", p); if (p == std::string::npos) bad("prologue"); p += 2; }
      else if (at("<!--")) { p = s.find("-->", p); if (p == std::string::npos) bad("comment"); p += 3; }
      else return;
    }
  }
  std::string name() {
    size_t b = p;
    while (p < s.size() && (isalnum((unsigned char)s[p]) || strchr("_-.:", s[p]))) ++p;
    if (b == p) bad("name");
    return s.substr(b, p - b);
  }
  EP element() {
    if (!at("<")) bad("element expected");
    ++p;
    EP e = std::make_shared<Elem>(); e->name = name();
    for (;;) {
      ws();
      if (at("/>")) { p += 2; return e; }
      if (at(">")) { ++p; break; }
      std::string n = name(); ws();
      if (!at("=")) bad("attribute"); ++p; ws();
      if (p >= s.size() || (s[p] != '"' && s[p] != '\'')) bad("attribute value");
      char q = s[p++]; size_t t = s.find(q, p);
      if (t == std::string::npos) bad("attribute value");
      e->attr.push_back({n, unescape(s.substr(p, t - p))}); p = t + 1;
    }
    std::string txt;
    for (;;) {
      size_t t = s.find('<', p);
      if (t == std::string::npos) bad("end of document inside an element");
      txt += unescape(s.substr(p, t - p)); p = t;
      if (at("<!--")) { p = s.find("-->", p); if (p == std::string::npos) bad("comment"); p += 3; continue; }
      if (at("</")) {
        p += 2; std::string n = name(); ws();
        if (n != e->name || !at(">")) bad("closing tag");
        ++p; e->tail = txt; return e;
      }
      EP k = element(); k->up = e; e->kids.push_back({txt, k}); txt.clear();
    }
  }
};
static void out(std::ostream& os, const EP& e);
static void inner(std::ostream& os, const EP& e) {
  for (auto& k : e->kids) { os << XMLWriterAPI::escape(k.first); out(os, k.second); }
  os << XMLWriterAPI::escape(e->tail);
}
static void out(std::ostream& os, const EP& e) {
  os << "<" << e->name;
  for (auto& a : e->attr) os << " " << a.first << "=\"" << XMLWriterAPI::escape(a.second) << "\"";
  if (e->kids.empty() && e->tail.empty()) { os << "/>"; return; }
  os << ">"; inner(os, e); os << "</" << e->name << ">";
}
static std::string content(const EP& e) {
  std::string r;
  for (auto& k : e->kids) { r += k.first; r += content(k.second); }
  return r + e->tail;
}
void BasicXPathReader::open(const std::string& f) { std::ifstream i(f.c_str()); if (!i) throw "cannot open " + f; open(i); }
void BasicXPathReader::open(std::istream& is) {
  std::ostringstream o; o << is.rdbuf();
  std::string t = o.str();
  Parser q(t); q.misc();
  EP root = q.element(); q.misc();
  if (q.p != t.size()) q.bad("text after the document");
  doc = std::make_shared<Elem>(); doc->kids.push_back({"", root}); root->up = doc;
  ctx = doc;
}
static void walk(const EP& e, std::vector<EP>& v) { for (auto& k : e->kids) { v.push_back(k.second); walk(k.second, v); } }
std::vector<EP> BasicXPathReader::find(const std::string& xp) {
  if (!doc) throw std::string("no document is open");
  std::vector<EP> cur; size_t p = 0;
  bool deep = false;
  if (xp.compare(0, 2, "//") == 0) { cur.push_back(doc); p = 2; deep = true; }
  else if (!xp.empty() && xp[0] == '/') { cur.push_back(doc); p = 1; }
  else cur.push_back(ctx);
  if (xp.empty()) throw std::string("empty XPath");
  while (p < xp.size()) {
    size_t e = xp.find('/', p);
    std::string st = xp.substr(p, e == std::string::npos ? std::string::npos : e - p);
    bool nextdeep = false;
    p = e == std::string::npos ? xp.size() : e + 1;
    if (e != std::string::npos && p < xp.size() && xp[p] == '/') { nextdeep = true; ++p; }
    if (st == ".") { deep = nextdeep; continue; }
    std::vector<EP> nx;
    if (st == "..") { for (auto& c : cur) if (auto u = c->up.lock()) nx.push_back(u); }
    else {
      long idx = 0;
      size_t b = st.find('[');
      if (b != std::string::npos) { idx = atol(st.c_str() + b + 1); st = st.substr(0, b); if (idx <= 0) throw std::string("unsupported XPath predicate"); }
      for (auto& c : cur) {
        std::vector<EP> cand;
        if (deep) walk(c, cand); else for (auto& k : c->kids) cand.push_back(k.second);
        long n = 0;
        for (auto& k : cand) if (st == "*" || k->name == st) { ++n; if (!idx || n == idx) nx.push_back(k); }
      }
    }
    cur = nx; deep = nextdeep;
  }
  return cur;
}
EP BasicXPathReader::unique(const std::string& xp) {
  std::vector<EP> v = find(xp);
  if (v.size() != 1) throw "XPath query " + xp + (v.empty() ? " did not return any node" : " did not return a unique node");
  return v[0];
}
void BasicXPathReader::open(BasicXPathReader& old, const std::string& xp) { EP e = old.unique(xp); doc = old.doc; ctx = e; }
void BasicXPathReader::get(const std::string& xp, std::string& r) {
  EP e = unique(xp);
  if (!e->kids.empty()) throw "XPath query " + xp + " does not identify a simple element";
  r = content(e);
}
void BasicXPathReader::get(const std::string& xp, bool& r) {
  std::string s, t; get(xp, s);
  std::istringstream i(s); i >> t;
  if (t == "true") r = true; else if (t == "false") r = false; else throw "XPath query " + xp + " is not a boolean";
}
int BasicXPathReader::count(const std::string& xp) { return (int)find(xp).size(); }
std::string BasicXPathReader::attrText(const std::string& xp, const std::string& a) {
  EP e = unique(xp);
  for (auto& x : e->attr) if (x.first == a) return x.second;
  throw "no attribute " + a;
}
void BasicXPathReader::setText(const std::string& xp, const std::string& v) { EP e = unique(xp); e->kids.clear(); e->tail = v; }
void BasicXPathReader::print(std::ostream& os) { if (doc) { os << "<?xml version=\"1.0\"?>\n"; inner(os, ctx); os << "\n"; } }
void BasicXPathReader::printRoot(std::ostream& os) { if (doc) inner(os, doc); }
void BasicXPathReader::printChildren(std::ostream& os) { if (ctx) inner(os, ctx); }
}
