#ifndef SIM_FS_H
#define SIM_FS_H
#include <memory>
#include <string>
#include <map>
#include <set>
#include <vector>
namespace sim {
struct FsFile { std::string data; bool dir = false, readonly = false; long born = 0; };
struct FsWrite { std::string path; long pos; std::string data; long seq; int kind; };  // kind 0 write, 2 truncate
struct FsState {
  std::map<std::string, std::shared_ptr<FsFile>> files;
  std::vector<FsWrite> log;        // everything written, in order
  std::set<std::string> failed;    // paths on which some call failed
  bool full = false, crashed = false, crash_torn = false;
  long seq = 0, ops = 0;
};
FsState& fs();
}
#endif
