// Simulated disk: POSIX calls made by node code, with faults.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "internal.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <fcntl.h>
#include <unistd.h>
#include <poll.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/syscall.h>
#include <sys/ioctl.h>
#include "fs.h"

namespace sim {
void raw_write(int fd, const void* p, size_t n) {
  const char* c = (const char*)p;
  while (n) { long r = syscall(SYS_write, fd, c, n); if (r <= 0) break; c += r; n -= r; }
}
void raw_exit(int c) { syscall(SYS_exit_group, c); for (;;) {} }

namespace {
struct Open { std::shared_ptr<FsFile> f; std::string path; long pos = 0; int flags = 0; int node = 0; bool dev = false; FILE* fp = nullptr; bool wrote = false; };
std::map<int, Open> g_open;
std::map<FILE*, int> g_fps;
int g_nextfd = 1000;
long g_total = 0;
FsState g_fs;

bool mine() { return g_cur && g_host_depth == 0; }
bool isfake(int fd) { return fd >= 1000 && g_open.count(fd); }

std::string norm(const char* p) { return std::string(p); }

void primary_only(const char* what, const std::string& path) {
  if (cur_node_id() > 0 && !g_spec->knob("anynode")) violation("io.non-primary", "node %d calls %s on %s (only the primary node may touch files)", cur_node_id(), what, path.c_str());
}
void maybe_crash(const char* where) {
  // crash of the whole machine at this system call
  if (inject("crash")) { logf("CRASH at %s", where); g_fs.crashed = true; end_current_node(NE_CRASHED, 0, std::string("crash at ") + where); }
}

int do_open(const char* path, int flags, bool nonfault = false) {
  HostScope hs;
  std::string p = norm(path);
  if (p == "/dev/null") {
    int fd = g_nextfd++; Open& o = g_open[fd]; o.path = p; o.dev = true; o.flags = flags; o.node = cur_node_id(); return fd;
  }
  primary_only("open", p);
  g_fs.ops++;
  yield_point("open");
  maybe_crash("open");

  bool wr = (flags & O_ACCMODE) != O_RDONLY;
  if (inject(wr ? "fs.open-w" : "fs.open-r")) {
    static const int es[] = {EACCES, EMFILE, EIO, ENOSPC};
    g_fs.failed.insert(p);
    errno = es[choose(4, "open-errno")];
    logf("open %s flags %x -> errno %d", path, flags, errno);
    return -1;
  }
  auto it = g_fs.files.find(p);
  if (it == g_fs.files.end()) {
    if (!(flags & O_CREAT)) { errno = ENOENT; logf("open %s -> ENOENT", path); return -1; }
    it = g_fs.files.emplace(p, std::make_shared<FsFile>()).first;
    it->second->born = g_fs.seq++;
  } else if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
  if (it->second->dir) { errno = EISDIR; return -1; }
  if (wr && it->second->readonly) { errno = EACCES; g_fs.failed.insert(p); return -1; }
  if ((flags & O_TRUNC) && wr) {
    g_fs.log.push_back({p, -1, it->second->data, g_fs.seq++, 2});
    g_total -= it->second->data.size(); it->second->data.clear();
  }
  int fd = g_nextfd++;
  Open& o = g_open[fd]; o.f = it->second; o.path = p; o.flags = flags; o.node = cur_node_id();
  logf("open %s flags %x -> %d", path, flags, fd);
  count("fs.open");
  return fd;
}
void raw_put(FsFile& f, long pos, const char* d, size_t n) {
  if ((long)f.data.size() < pos + (long)n) { g_total += pos + n - f.data.size(); f.data.resize(pos + n, '\0'); }
  memcpy(&f.data[pos], d, n);
}
long do_write(int fd, const char* b, size_t n) {
  HostScope hs;
  Open& o = g_open[fd];
  if (o.dev) return n;
  primary_only("write", o.path);
  if ((o.flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
  g_fs.ops++;
  yield_point("write");
  if (n == 0) return 0;
  if (o.flags & O_APPEND) o.pos = o.f->data.size();
  long pos = o.pos;
  if (inject("crash")) {
    // a torn prefix of this write reaches the file
    int k = choose(8, "torn"); size_t m = k == 0 ? 0 : k == 7 ? n : n * k / 8;
    if (m) { g_fs.log.push_back({o.path, pos, std::string(b, m), g_fs.seq++, 0}); raw_put(*o.f, pos, b, m); }
    logf("CRASH in write, %zu of %zu bytes", m, n);
    g_fs.crashed = true; g_fs.crash_torn = true;
    end_current_node(NE_CRASHED, 0, "crash in write");
  }
  if (choose_pct((int)g_spec->knob("fs.eintr"), "eintr")) { errno = EINTR; count("env.eintr"); return -1; }
  if (inject("fs.eio-w")) { errno = EIO; g_fs.failed.insert(o.path); logf("write EIO"); return -1; }
  size_t m = n;
  if (n > 1 && choose_pct((int)g_spec->knob("fs.short"), "short")) { m = 1 + choose((int)n - 1, "short-len"); count("env.short-write"); }
  long cap = g_spec->knob("fs.cap", -1);
  if (inject("fs.enospc")) { m = choose(4, "enospc-part") * n / 4; g_fs.full = true; if (m == 0) { errno = ENOSPC; g_fs.failed.insert(o.path); logf("write ENOSPC"); return -1; } g_fs.failed.insert(o.path); }
  else if (g_fs.full || cap >= 0) {
    long grow = pos + (long)m - (long)o.f->data.size(); if (grow < 0) grow = 0;
    long room = g_fs.full ? 0 : cap - g_total; if (room < 0) room = 0;
    if (grow > room) {
      long ok = (long)m - (grow - room);
      g_fs.failed.insert(o.path); count("fault.fs.full"); g_fault.injected++;
      if (ok <= 0) { errno = ENOSPC; logf("write ENOSPC (cap)"); return -1; }
      m = ok;
    }
  }
  g_fs.log.push_back({o.path, pos, std::string(b, m), g_fs.seq++, 0});
  raw_put(*o.f, pos, b, m);
  o.pos = pos + m; o.wrote = true;
  logf("write %d @%ld %zu/%zu", fd, pos, m, n);
  count("fs.write");
  return m;
}
long do_read(int fd, char* b, size_t n) {
  HostScope hs;
  Open& o = g_open[fd];
  if (o.dev) return 0;
  primary_only("read", o.path);
  g_fs.ops++;
  yield_point("read");
  maybe_crash("read");
  if (choose_pct((int)g_spec->knob("fs.eintr"), "eintr")) { errno = EINTR; count("env.eintr"); return -1; }
  if (inject("fs.eio-r")) { errno = EIO; g_fs.failed.insert(o.path); logf("read EIO"); return -1; }
  long sz = o.f->data.size();
  if (o.pos >= sz) return 0;
  size_t m = std::min<size_t>(n, sz - o.pos);
  if (m > 1 && choose_pct((int)g_spec->knob("fs.short"), "short")) { m = 1 + choose((int)m - 1, "short-len"); count("env.short-read"); }
  memcpy(b, &o.f->data[o.pos], m);
  o.pos += m;
  logf("read %d %zu/%zu", fd, m, n);
  count("fs.read");
  return m;
}
long do_seek(int fd, long off, int wh) {
  HostScope hs;
  Open& o = g_open[fd];
  if (o.dev) return 0;
  long base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? o.pos : (long)o.f->data.size();
  if (inject("fs.seek")) { errno = EIO; g_fs.failed.insert(o.path); return -1; }
  if (base + off < 0) { errno = EINVAL; return -1; }
  o.pos = base + off;
  return o.pos;
}
int do_close(int fd) {
  HostScope hs;
  Open o = g_open[fd];
  if (!o.dev) {
    g_fs.ops++;
    yield_point("close");
    maybe_crash("close");
  }
  g_open.erase(fd);
  if (!o.dev && o.wrote && inject("fs.close")) {
    // write-behind failure reported at close: a tail of the file may be gone
    if (choose(2, "close-loss")) {
      long lose = choose((int)std::min<size_t>(o.f->data.size(), 64) + 1, "close-loss-n");
      o.f->data.resize(o.f->data.size() - lose); g_total -= lose;
    }
    g_fs.failed.insert(o.path);
    errno = EIO; logf("close %d EIO", fd); return -1;
  }
  logf("close %d", fd);
  return 0;
}
int do_stat(const std::string& p, struct stat* st, FsFile* f) {
  memset(st, 0, sizeof *st);
  if (!f) {
    auto it = g_fs.files.find(p);
    if (it == g_fs.files.end()) { errno = ENOENT; return -1; }
    f = it->second.get();
  }
  st->st_mode = f->dir ? S_IFDIR | 0755 : S_IFREG | 0644; st->st_size = f->data.size(); st->st_nlink = 1; st->st_blksize = 4096; st->st_ino = 1 + f->born;
  return 0;
}
// C stdio on top of the simulated descriptors
ssize_t ck_read(void* c, char* b, size_t n) { return do_read((int)(long)c, b, n); }
ssize_t ck_write(void* c, const char* b, size_t n) {       // as the C library does for files: short writes are continued
  size_t k = 0; while (k < n) { long r = do_write((int)(long)c, b + k, n - k); if (r <= 0) break; k += r; } return k;
}
int ck_seek(void* c, off64_t* o, int wh) { long r = do_seek((int)(long)c, *o, wh); if (r < 0) return -1; *o = r; return 0; }
int ck_close(void* c) { return do_close((int)(long)c); }
FILE* do_fopen(const char* path, const char* mode) {
  HostScope hs;
  int fl = 0;
  bool plus = strchr(mode, '+');
  switch (mode[0]) {
    case 'r': fl = plus ? O_RDWR : O_RDONLY; break;
    case 'w': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; break;
    case 'a': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; break;
    default: errno = EINVAL; return nullptr;
  }
  int fd = do_open(path, fl);
  if (fd < 0) return nullptr;
  cookie_io_functions_t f = {ck_read, ck_write, ck_seek, ck_close};
  FILE* fp = fopencookie((void*)(long)fd, mode, f);
  g_fps[fp] = fd; g_open[fd].fp = fp;
  return fp;
}
} // namespace

FsState& fs() { return g_fs; }
void fs_reset() { g_fs = FsState(); g_open.clear(); g_total = 0; }
void fs_node_gone() { g_open.clear(); g_fps.clear(); }
std::string* fs_file(const std::string& path, bool create) {
  auto it = g_fs.files.find(path);
  if (it == g_fs.files.end()) {
    if (!create) return nullptr;
    it = g_fs.files.emplace(path, std::make_shared<FsFile>()).first;
    it->second->born = g_fs.seq++;
  }
  return &it->second->data;
}
void fs_remove(const std::string& p) { g_fs.files.erase(p); }
std::vector<std::string> fs_list() { std::vector<std::string> v; for (auto& f : g_fs.files) v.push_back(f.first); return v; }
long fs_open_handles(int node) { long n = 0; for (auto& o : g_open) if (!o.second.dev && (node < 0 || o.second.node == node)) ++n; return n; }
bool fs_write_failed(const std::string& p) { return g_fs.failed.count(p) > 0; }
} // namespace sim

using namespace sim;
#define VIS __attribute__((visibility("default")))
extern "C" {
#undef fopen64
#undef open64
#undef lseek64
#undef stat64
#undef fstat64
extern FILE* _IO_fopen(const char*, const char*);
int _IO_fclose(FILE*);

VIS FILE* fopen(const char* p, const char* m) { return mine() ? do_fopen(p, m) : _IO_fopen(p, m); }
VIS FILE* fopen64(const char* p, const char* m) { return mine() ? do_fopen(p, m) : _IO_fopen(p, m); }
VIS int fclose(FILE* f) {
  auto it = g_fps.find(f);
  if (it != g_fps.end()) { HostScope h; g_fps.erase(it); return _IO_fclose(f); }
  return _IO_fclose(f);
}
VIS int fileno(FILE* f) {
  auto it = g_fps.find(f);
  if (it != g_fps.end()) return it->second;
  return f->_fileno;
}
VIS int open(const char* p, int fl, ...) {
  va_list ap; va_start(ap, fl); int md = va_arg(ap, int); va_end(ap);
  if (mine()) return do_open(p, fl);
  long r = syscall(SYS_openat, AT_FDCWD, p, fl, md); if (r < 0) return -1; return (int)r;
}
VIS int open64(const char* p, int fl, ...) {
  va_list ap; va_start(ap, fl); int md = va_arg(ap, int); va_end(ap);
  if (mine()) return do_open(p, fl);
  long r = syscall(SYS_openat, AT_FDCWD, p, fl, md); if (r < 0) return -1; return (int)r;
}
VIS int creat(const char* p, mode_t) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, 0644); }
VIS int close(int fd) { if (isfake(fd)) return do_close(fd); return (int)syscall(SYS_close, fd); }
VIS ssize_t read(int fd, void* b, size_t n) { if (isfake(fd)) return do_read(fd, (char*)b, n); return syscall(SYS_read, fd, b, n); }
VIS ssize_t write(int fd, const void* b, size_t n) { if (isfake(fd)) return do_write(fd, (const char*)b, n); return syscall(SYS_write, fd, b, n); }
VIS ssize_t writev(int fd, const struct iovec* v, int c) {
  if (!isfake(fd)) return syscall(SYS_writev, fd, v, c);
  std::string* s; { HostScope h; s = new std::string; for (int i = 0; i < c; ++i) s->append((const char*)v[i].iov_base, v[i].iov_len); }
  ssize_t r = do_write(fd, s->data(), s->size());
  { HostScope h; int e = errno; delete s; errno = e; }
  return r;
}
VIS ssize_t readv(int fd, const struct iovec* v, int c) {
  if (!isfake(fd)) return syscall(SYS_readv, fd, v, c);
  return c ? do_read(fd, (char*)v[0].iov_base, v[0].iov_len) : 0;
}
VIS ssize_t pread(int fd, void* b, size_t n, off_t o) {
  if (!isfake(fd)) return syscall(SYS_pread64, fd, b, n, o);
  long old = do_seek(fd, 0, SEEK_CUR); do_seek(fd, o, SEEK_SET); ssize_t r = do_read(fd, (char*)b, n); do_seek(fd, old, SEEK_SET); return r;
}
VIS ssize_t pwrite(int fd, const void* b, size_t n, off_t o) {
  if (!isfake(fd)) return syscall(SYS_pwrite64, fd, b, n, o);
  long old = do_seek(fd, 0, SEEK_CUR); do_seek(fd, o, SEEK_SET); ssize_t r = do_write(fd, (const char*)b, n); do_seek(fd, old, SEEK_SET); return r;
}
VIS off_t lseek(int fd, off_t o, int w) { if (isfake(fd)) return do_seek(fd, o, w); return syscall(SYS_lseek, fd, o, w); }
VIS off_t lseek64(int fd, off_t o, int w) { if (isfake(fd)) return do_seek(fd, o, w); return syscall(SYS_lseek, fd, o, w); }
VIS int fstat(int fd, struct stat* st) {
  if (isfake(fd)) { HostScope h; auto& o = g_open[fd]; if (o.dev) { memset(st, 0, sizeof *st); st->st_mode = S_IFCHR; return 0; } return do_stat(o.path, st, o.f.get()); }
  return (int)syscall(SYS_newfstatat, fd, "", st, AT_EMPTY_PATH);
}
VIS int fstat64(int fd, struct stat64* st) { return fstat(fd, (struct stat*)st); }
VIS int stat(const char* p, struct stat* st) {
  if (mine()) { HostScope h; primary_only("stat", p); return do_stat(p, st, nullptr); }
  long r = syscall(SYS_newfstatat, AT_FDCWD, p, st, 0); if (r < 0) return -1; return 0;
}
VIS int stat64(const char* p, struct stat64* st) { return stat(p, (struct stat*)st); }
VIS int lstat(const char* p, struct stat* st) { if (mine()) return stat(p, st); return (int)syscall(SYS_newfstatat, AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); }
VIS int access(const char* p, int) {
  if (mine()) { HostScope h; primary_only("access", p); struct stat st; return do_stat(p, &st, nullptr); }
  return (int)syscall(SYS_access, p, 0);
}
VIS int unlink(const char* p) {
  if (!mine()) return (int)syscall(SYS_unlink, p);
  HostScope h; primary_only("unlink", p); yield_point("unlink"); maybe_crash("unlink");
  logf("unlink %s", p);
  if (!fs().files.erase(p)) { errno = ENOENT; return -1; }
  return 0;
}
VIS int remove(const char* p) { if (mine()) return unlink(p); return (int)syscall(SYS_unlink, p); }
VIS int rename(const char* a, const char* b) {
  if (!mine()) return (int)syscall(SYS_rename, a, b);
  HostScope h; primary_only("rename", a); yield_point("rename"); maybe_crash("rename");
  auto it = fs().files.find(a); if (it == fs().files.end()) { errno = ENOENT; return -1; }
  logf("rename %s %s", a, b);
  auto f = it->second; fs().files.erase(it); fs().files[b] = f; return 0;
}
VIS int ftruncate(int fd, off_t n) {
  if (!isfake(fd)) return (int)syscall(SYS_ftruncate, fd, n);
  HostScope h; g_open[fd].f->data.resize(n); return 0;
}
VIS int fsync(int fd) { if (!isfake(fd)) return (int)syscall(SYS_fsync, fd); HostScope h; yield_point("fsync"); maybe_crash("fsync"); return 0; }
VIS int fdatasync(int fd) { return fsync(fd); }
VIS int ioctl(int fd, unsigned long req, ...) {
  va_list ap; va_start(ap, req); void* a = va_arg(ap, void*); va_end(ap);
  if (!isfake(fd)) return (int)syscall(SYS_ioctl, fd, req, a);
  HostScope h;
  if (req == FIONREAD) { auto& o = g_open[fd]; long l = o.dev ? 0 : (long)o.f->data.size() - o.pos; *(int*)a = l > 0 ? (int)l : 0; return 0; }
  errno = ENOTTY; return -1;
}
VIS int poll(struct pollfd* p, nfds_t n, int t) {
  if (n == 1 && isfake(p[0].fd)) { p[0].revents = p[0].events; return 1; }
  return (int)syscall(SYS_poll, p, n, t);
}
}
