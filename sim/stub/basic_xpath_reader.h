// Stand-in for the reader half of the (absent) xpath_reader library: a small XML
// parser and the XPath subset QDP++ itself produces (a/b, /a/b, //a, ., a[3], *).
#ifndef SIM_BASIC_XPATH_READER_H
#define SIM_BASIC_XPATH_READER_H
#include <string>
#include <vector>
#include <list>
#include <iostream>
#include <sstream>
#include <memory>
namespace XMLXPathReader {
struct Elem {
  std::string name, text;                         // own character data
  std::vector<std::pair<std::string, std::string>> attr;
  std::vector<std::pair<std::string, std::shared_ptr<Elem>>> kids;   // text before child, child
  std::string tail;                               // text after the last child
  std::weak_ptr<Elem> up;
};
typedef std::shared_ptr<Elem> EP;
class BasicXPathReader {
public:
  BasicXPathReader() {}
  void open(const std::string& file);
  void open(std::istream& is);
  void open(BasicXPathReader& old, const std::string& xpath);
  void close() { doc.reset(); ctx.reset(); }
  void get(const std::string& xp, std::string& r);
  void get(const std::string& xp, int& r) { prim(xp, r); }
  void get(const std::string& xp, unsigned int& r) { prim(xp, r); }
  void get(const std::string& xp, short int& r) { prim(xp, r); }
  void get(const std::string& xp, unsigned short int& r) { prim(xp, r); }
  void get(const std::string& xp, long int& r) { prim(xp, r); }
  void get(const std::string& xp, unsigned long int& r) { prim(xp, r); }
  void get(const std::string& xp, float& r) { prim(xp, r); }
  void get(const std::string& xp, double& r) { prim(xp, r); }
  void get(const std::string& xp, bool& r);
  template<class T> void getAttribute(const std::string& xp, const std::string& a, T& r) { std::istringstream i(attrText(xp, a)); i >> r; if (i.fail()) throw "bad attribute value: " + a; }
  template<class T> void set(const std::string& xp, const T& v) { std::ostringstream o; o.precision(17); o << v; setText(xp, o.str()); }
  int count(const std::string& xp);
  void print(std::ostream& os);
  void printRoot(std::ostream& os);
  void printChildren(std::ostream& os);
  void registerNamespace(const std::string&, const std::string&) {}
private:
  EP doc, ctx;
  std::vector<EP> find(const std::string& xp);
  EP unique(const std::string& xp);
  std::string attrText(const std::string& xp, const std::string& a);
  void setText(const std::string& xp, const std::string& v);
  template<class T> void prim(const std::string& xp, T& r) {
    std::string s; get(xp, s);
    std::istringstream i(s); T t; i >> t;
    if (i.fail()) throw "XPath query " + xp + " is not a value of the requested type";
    std::string rest; if (i >> rest) throw "XPath query " + xp + " has trailing text";
    r = t;
  }
};
}
#endif
