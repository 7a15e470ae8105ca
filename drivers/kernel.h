// A small in-memory kernel put under the real util/env_posix.cc with the linker's --wrap: files, descriptors,
// mappings, fcntl locks (dropped when any descriptor of the file closes, as POSIX demands), fault injection,
// short and interrupted transfers, and a hook run inside calls to interleave other operations.
#pragma once
#include "drv.h"
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <set>
namespace kern {
struct File { std::string data; bool dir = false; int mylocks = 0; bool otherlock = false; };
struct Fd { std::string path; size_t pos; int flags; };
struct Ev { char op; int fd; std::string path; size_t n; bool ok; int err; };   // o r w s c p l m u f(dopen) k(fcntl)
static std::recursive_mutex g_mu;
static std::map<std::string, std::shared_ptr<File>> g_files;
static std::map<int, Fd> g_fds;
static std::map<char*, size_t> g_maps;
static std::map<FILE*, int> g_fps;
static std::vector<Ev> g_ev;
static int g_next = 5000;
static int g_fault = 0;            // percent of calls that fail
static int g_intr = 0;             // percent of transfers that are interrupted
static bool g_short = false;
static std::function<void(const char*)> g_hook;
static bool g_log = true;
static std::set<std::string> g_dirs;
static unsigned long g_peak_maps = 0;
static std::string norm(const std::string& p) { return p; }
static void ev(char op, int fd, const std::string& p, size_t n, bool ok, int e = 0) { if (g_log) g_ev.push_back(Ev{op, fd, p, n, ok, e}); }
static bool fault(int* e, bool intr = false) {
  if (intr && g_intr && (int)drv::rnd(100) < g_intr) { *e = EINTR; return true; }
  if (g_fault && (int)drv::rnd(100) < g_fault) { static const int es[] = {EIO, ENOSPC, EACCES, EBADF, ENOENT, EAGAIN}; *e = es[drv::rnd(6)]; return true; }
  return false;
}
static void hook(const char* w) { if (g_hook) { int e = errno; auto h = g_hook; h(w); errno = e; } }
static int kopen(const char* path, int flags) {
  hook("open"); std::lock_guard<std::recursive_mutex> l(g_mu);
  int e; std::string p(path);
  if (fault(&e)) { ev('o', -1, p, flags, false, e); errno = e; return -1; }
  bool dir = g_dirs.count(p);
  if (!dir && !g_files.count(p)) { if (!(flags & O_CREAT) || p.empty()) { ev('o', -1, p, flags, false, ENOENT); errno = ENOENT; return -1; } g_files[p] = std::make_shared<File>(); }
  if (!dir && (flags & O_TRUNC)) g_files[p]->data.clear();
  int fd = g_next++; g_fds[fd] = Fd{p, 0, flags}; ev('o', fd, p, flags, true); return fd;
}
static bool mine(int fd) { return fd >= 5000; }
}  // namespace kern
extern "C" {
int __real_open(const char*, int, ...); int __real_close(int); ssize_t __real_read(int, void*, size_t); ssize_t __real_write(int, const void*, size_t);
int __real_munmap(void*, size_t); void* __real_mmap(void*, size_t, int, int, int, off_t); int __real_fclose(FILE*); FILE* __real_fdopen(int, const char*);
int __real_fcntl(int, int, ...); int __real_stat(const char*, struct stat*);
int __wrap_open(const char* p, int f, ...) { return kern::kopen(p, f); }
int __wrap_open64(const char* p, int f, ...) { return kern::kopen(p, f); }
int __wrap_close(int fd) {
  using namespace kern;
  if (fd >= 0 && !mine(fd)) return __real_close(fd);
  hook("close"); std::lock_guard<std::recursive_mutex> l(g_mu);
  if (fd < 0) { ev('c', fd, "", 0, false, EBADF); errno = EBADF; return -1; }
  auto it = g_fds.find(fd); CHECK(it != g_fds.end(), "close of a descriptor that is not open");
  std::string p = it->second.path; g_fds.erase(it);
  if (g_files.count(p)) g_files[p]->mylocks = 0;     // any close drops the process's locks
  int e; if (g_fault && fault(&e)) { ev('c', fd, p, 0, false, e); errno = e; return -1; }
  ev('c', fd, p, 0, true); return 0;
}
ssize_t __wrap_write(int fd, const void* b, size_t n) {
  using namespace kern; if (fd >= 0 && !mine(fd)) return __real_write(fd, b, n);
  hook("write"); std::lock_guard<std::recursive_mutex> l(g_mu); int e;
  auto it = g_fds.find(fd); if (it == g_fds.end()) { CHECK(fd == -1, "write to a closed descriptor"); ev('w', fd, "", 0, false, EBADF); errno = EBADF; return -1; }
  if (fault(&e, true)) { ev('w', fd, it->second.path, 0, false, e); errno = e; return -1; }
  size_t k = n; if (g_short && n > 1 && drv::rnd(2)) k = 1 + drv::rnd(n);
  g_files[it->second.path]->data.append((const char*)b, k); ev('w', fd, it->second.path, k, true); return k;
}
static ssize_t kread(int fd, void* b, size_t n, bool pos, off_t off) {
  using namespace kern; hook("read"); std::lock_guard<std::recursive_mutex> l(g_mu); int e;
  auto it = g_fds.find(fd); CHECK(it != g_fds.end(), "read from a descriptor that is not open");
  if (fault(&e, !pos)) { ev('r', fd, it->second.path, off, false, e); memset(b, 0xee, n < 4 ? n : 4); errno = e; return -1; }
  if (pos && off < 0) { ev('r', fd, it->second.path, off, false, EINVAL); errno = EINVAL; return -1; }
  const std::string& d = g_files[it->second.path]->data; size_t p = pos ? (size_t)off : it->second.pos;
  size_t k = p < d.size() ? d.size() - p : 0; if (k > n) k = n; if (g_short && k > 1 && drv::rnd(2)) k = 1 + drv::rnd(k);
  memcpy(b, d.data() + (k ? p : 0), k); if (!pos) it->second.pos += k; ev('r', fd, it->second.path, k, true); return k;
}
ssize_t __wrap_read(int fd, void* b, size_t n) { return kern::mine(fd) || fd < 0 ? kread(fd, b, n, false, 0) : __real_read(fd, b, n); }
ssize_t __wrap_pread(int fd, void* b, size_t n, off_t o) { return kread(fd, b, n, true, o); }
ssize_t __wrap_pread64(int fd, void* b, size_t n, off_t o) { return kread(fd, b, n, true, o); }
off_t __wrap_lseek(int fd, off_t o, int wh) {
  using namespace kern; std::lock_guard<std::recursive_mutex> l(g_mu); int e; auto it = g_fds.find(fd); CHECK(it != g_fds.end(), "seek on a closed descriptor");
  if (fault(&e)) { ev('l', fd, "", 0, false, e); errno = e; return -1; }
  off_t base = wh == SEEK_CUR ? it->second.pos : wh == SEEK_SET ? 0 : g_files[it->second.path]->data.size();
  if (base + o < 0) { ev('l', fd, "", 0, false, EINVAL); errno = EINVAL; return -1; }
  it->second.pos = base + o; ev('l', fd, "", o, true); return it->second.pos;
}
off_t __wrap_lseek64(int fd, off_t o, int wh) { return __wrap_lseek(fd, o, wh); }
static int ksync(int fd) {
  using namespace kern; hook("sync"); std::lock_guard<std::recursive_mutex> l(g_mu); int e; auto it = g_fds.find(fd);
  if (it == g_fds.end()) { CHECK(fd == -1, "sync of a closed descriptor"); ev('s', fd, "", 0, false, EBADF); errno = EBADF; return -1; }
  if (fault(&e)) { ev('s', fd, it->second.path, 0, false, e); errno = e; return -1; }
  ev('s', fd, it->second.path, 0, true); return 0;
}
int __wrap_fdatasync(int fd) { return ksync(fd); }
int __wrap_fsync(int fd) { return ksync(fd); }
void* __wrap_mmap(void* a, size_t n, int pr, int fl, int fd, off_t o) {
  using namespace kern; if (!mine(fd)) return __real_mmap(a, n, pr, fl, fd, o);
  hook("mmap"); std::lock_guard<std::recursive_mutex> l(g_mu); int e; auto it = g_fds.find(fd); CHECK(it != g_fds.end(), "mmap of a closed descriptor");
  if (fault(&e) || n == 0) { if (!n) e = EINVAL; ev('m', fd, it->second.path, n, false, e); errno = e; return MAP_FAILED; }
  std::string d = g_files[it->second.path]->data; CHECK(n <= d.size() && o == 0, "mapping within the file"); char* p = (char*)malloc(n); memcpy(p, d.data(), n);
  g_maps[p] = n; if (g_maps.size() > g_peak_maps) g_peak_maps = g_maps.size(); ev('m', fd, it->second.path, n, true); return p;
}
void* __wrap_mmap64(void* a, size_t n, int pr, int fl, int fd, off_t o) { return __wrap_mmap(a, n, pr, fl, fd, o); }
int __wrap_munmap(void* p, size_t n) {
  using namespace kern; hook("munmap"); std::lock_guard<std::recursive_mutex> l(g_mu); auto it = g_maps.find((char*)p);
  CHECK(it != g_maps.end() && it->second == n, "munmap of exactly one existing mapping"); g_maps.erase(it); free(p); ev('u', -1, "", n, true); return 0;
}
static int kstat(const char* p, struct stat* s) {
  using namespace kern; hook("stat"); std::lock_guard<std::recursive_mutex> l(g_mu); int e;
  if (fault(&e)) { errno = e; return -1; }
  if (g_dirs.count(p)) { memset(s, 0, sizeof *s); s->st_mode = S_IFDIR; return 0; }
  if (!g_files.count(p)) { errno = ENOENT; return -1; }
  memset(s, 0, sizeof *s); s->st_mode = S_IFREG; s->st_size = g_files[p]->data.size(); return 0;
}
int __wrap_stat(const char* p, struct stat* s) { return kstat(p, s); }
int __wrap_stat64(const char* p, struct stat* s) { return kstat(p, s); }
static int kfstat(int fd, struct stat* s) { auto it = kern::g_fds.find(fd); if (it == kern::g_fds.end()) { errno = EBADF; return -1; } return kstat(it->second.path.c_str(), s); }
int __wrap_fstat(int fd, struct stat* s) { return kfstat(fd, s); }
int __wrap_fstat64(int fd, struct stat* s) { return kfstat(fd, s); }
FILE* __wrap_fdopen(int fd, const char* m) {
  using namespace kern; if (!mine(fd)) return __real_fdopen(fd, m);
  hook("fdopen"); std::lock_guard<std::recursive_mutex> l(g_mu); int e; if (fault(&e)) { ev('f', fd, "", 0, false, e); errno = e; return nullptr; }
  FILE* f = fopen("/dev/null", "w"); g_fps[f] = fd; ev('f', fd, "", 0, true); return f;
}
int __wrap_fclose(FILE* f) {
  using namespace kern; auto it = g_fps.find(f); if (it == g_fps.end()) return __real_fclose(f);
  int fd = it->second; g_fps.erase(it); __real_fclose(f); return __wrap_close(fd);
}
static int kfcntl(int fd, int cmd, struct flock* fl) {
  using namespace kern; hook("fcntl"); std::lock_guard<std::recursive_mutex> l(g_mu); int e; auto it = g_fds.find(fd); CHECK(it != g_fds.end(), "fcntl on a closed descriptor");
  if (cmd != F_SETLK && cmd != F_SETLKW) { errno = EINVAL; return -1; }
  CHECK(fl->l_whence == SEEK_SET && fl->l_start == 0 && fl->l_len == 0, "the whole file is locked");
  if (fault(&e)) { ev('k', fd, it->second.path, fl->l_type, false, e); errno = e; return -1; }
  auto f = g_files[it->second.path];
  if (fl->l_type == F_UNLCK) f->mylocks = 0; else { CHECK(fl->l_type == F_WRLCK, "an exclusive lock"); if (f->otherlock) { ev('k', fd, it->second.path, fl->l_type, false, EAGAIN); errno = EAGAIN; return -1; } f->mylocks = 1; }
  ev('k', fd, it->second.path, fl->l_type, true); return 0;
}
int __wrap_fcntl(int fd, int cmd, ...) { va_list a; va_start(a, cmd); void* p = va_arg(a, void*); va_end(a); return kern::mine(fd) || fd < 0 ? kfcntl(fd, cmd, (struct flock*)p) : __real_fcntl(fd, cmd, p); }
int __wrap_fcntl64(int fd, int cmd, ...) { va_list a; va_start(a, cmd); void* p = va_arg(a, void*); va_end(a); return kern::mine(fd) || fd < 0 ? kfcntl(fd, cmd, (struct flock*)p) : __real_fcntl(fd, cmd, p); }
int __wrap_flock(int fd, int) { errno = ENOSYS; return -1; }
}
