// Stand-in for the XML writer half of the (absent) xpath_reader library.
#ifndef SIM_XML_SIMPLEWRITER_H
#define SIM_XML_SIMPLEWRITER_H
#include <string>
#include <vector>
#include <ostream>
#include <sstream>
namespace XMLWriterAPI {
class Attribute {
public:
  template<class T> Attribute(const std::string& n, const T& v) : name(n) { std::ostringstream o; o << v; value = o.str(); }
  template<class T> Attribute(const std::string& ns, const std::string& n, const T& v) : name(ns + ":" + n) { std::ostringstream o; o << v; value = o.str(); }
  std::string name, value;
};
class AttributeList : public std::vector<Attribute> {};
std::string escape(const std::string& s);

class XMLSimpleWriter {
public:
  XMLSimpleWriter() : indent_level(0), simple(false) {}
  virtual ~XMLSimpleWriter() {}
  virtual std::ostream& getOstream() = 0;
  void openTag(const std::string& t) { AttributeList al; open(t, al, false); }
  void openTag(const std::string& ns, const std::string& t) { AttributeList al; open(ns + ":" + t, al, false); }
  void openTag(const std::string& t, AttributeList& al) { open(t, al, false); }
  void openTag(const std::string& ns, const std::string& t, AttributeList& al) { open(ns + ":" + t, al, false); }
  void emptyTag(const std::string& t) { AttributeList al; open(t, al, true); }
  void emptyTag(const std::string& ns, const std::string& t) { AttributeList al; open(ns + ":" + t, al, true); }
  void emptyTag(const std::string& t, AttributeList& al) { open(t, al, true); }
  void emptyTag(const std::string& ns, const std::string& t, AttributeList& al) { open(ns + ":" + t, al, true); }
  void closeTag();
  void write(const std::string& s) { text(escape(s)); }
  void write(const int& v) { num(v); }
  void write(const unsigned int& v) { num(v); }
  void write(const short int& v) { num(v); }
  void write(const unsigned short int& v) { num(v); }
  void write(const long int& v) { num(v); }
  void write(const unsigned long int& v) { num(v); }
  void write(const float& v) { std::ostringstream o; o.precision(9); o << v; text(o.str()); }
  void write(const double& v) { std::ostringstream o; o.precision(17); o << v; text(o.str()); }
  void write(const bool& v) { text(v ? "true" : "false"); }
  void writeXML(const std::string& s) { text(s); }
  void writePrologue(std::ostream& os) const { os << "<?xml version=\"1.0\"?>\n\n"; }
protected:
  int indent_level;
private:
  std::vector<std::string> stack;
  bool simple;
  template<class T> void num(const T& v) { std::ostringstream o; o << v; text(o.str()); }
  void text(const std::string& s) { getOstream() << s; simple = true; }
  void open(const std::string& t, AttributeList& al, bool empty);
};
}
#endif
