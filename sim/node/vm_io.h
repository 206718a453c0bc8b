#ifndef SIM_VM_IO_H
#define SIM_VM_IO_H
// One open stream object of the program under test.
struct IoH {
  int kind = 0;
  QDP::BinaryWriter* w = nullptr; QDP::BinaryReader* r = nullptr;
  QDP::TextWriter* tw = nullptr; QDP::TextReader* tr = nullptr;
  std::istringstream* in = nullptr; std::ostringstream* out = nullptr;     // behind the standard streams
  bool real = false; long mark = 0; std::string mine;                      // the real standard stream: text of this node from here on
  void* obj = nullptr;
  ~IoH();
};
#endif
