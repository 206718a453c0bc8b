// Glue between the parts of the simulator executable (not seen by node code).
#ifndef SIM_INTERNAL_H
#define SIM_INTERNAL_H
#include "sim.h"
#include <cerrno>
namespace sim {
extern int g_result_fd;
extern int g_host_depth;      // >0: allocations and file calls belong to the simulator
extern unsigned char g_stack_poison;
void raw_write(int fd, const void* p, size_t n);
[[noreturn]] void raw_exit(int c);
void choices_init(uint64_t seed, bool replay, const std::vector<std::pair<long, int>>& tr);
void note_sig(uint64_t v);
void*& fiber_user();
int fiber_id();
struct HostScope { HostScope() { ++g_host_depth; } ~HostScope() { --g_host_depth; } };

// memory (mem.cc)
void mem_run_begin(unsigned char poison);
void mem_check_all(const char* when);
struct MemStat { long allocs, frees, live_bytes, live_blocks; };
MemStat mem_stat(int node);
long mem_mark();                                   // serial number of the next allocation
long mem_live_since(int node, long mark, size_t* bytes);
void mem_describe_live(int node, long mark, std::string& out);
const void* mem_block_of(const void* p, size_t* size, int* node);  // block containing p
void mem_node_gone(int node);

// message layer (qmp.cc)
void qmp_reset(int nodes);
void qmp_end_of_phase(bool clean);

// files (fs.cc)
struct FsImage;
void fs_reset();
void fs_node_gone();                                // close handles at crash
std::string* fs_file(const std::string& path, bool create = false);
void fs_remove(const std::string& path);
std::vector<std::string> fs_list();
long fs_open_handles(int node);
bool fs_write_failed(const std::string& path);      // some write/open/close on path failed
long fs_ops_by(int node);

// threads (threads.cc)
void threads_reset();
void threads_end_of_phase(bool clean);
}
#endif
