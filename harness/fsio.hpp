// File-system calls of the code under test are routed through these wrappers (the harness defines the libc
// symbols, so every call made by ferret on a file under `fsio::dir` passes here first).
#ifndef FSIO_HPP
#define FSIO_HPP
#include "index_model.hpp"
#include <sys/stat.h>
#include <sys/syscall.h>
namespace fsio {
typedef std::map<std::string, std::string> Dir;        // file name -> bytes
// what a call is about to do; the hook may fail it (return errno) or, for writes, cut it short
struct Call { const char *name; std::string path; size_t len; bool mutates; int fd; };
static std::string dir;                                // watched directory
static std::map<int, std::string> fds;                 // open descriptors below it
static std::function<int(const Call &, size_t &partial)> hook;   // 0: go on, else errno
static bool in_hook = false, active = false;
static inline std::string below(const char *path) {
    if (!active || in_hook || dir.empty() || strncmp(path, dir.c_str(), dir.size()) || path[dir.size()] != '/') return "";
    return path + dir.size() + 1;
}
static inline int ask(const Call &c, size_t &partial) {
    if (!hook) return 0;
    in_hook = true; int e = hook(c, partial); in_hook = false;
    return e;
}
static inline int do_open(const char *path, int flags, int mode) {
    std::string n = below(path);
    size_t part = (size_t)-1;
    if (!n.empty()) { int e = ask({(flags & O_CREAT) ? "create" : "open", n, 0, (flags & (O_CREAT | O_TRUNC)) != 0, -1}, part); if (e) { errno = e; return -1; } }
    int fd = (int)syscall(SYS_openat, AT_FDCWD, path, flags, mode);
    if (fd >= 0 && !n.empty()) fds[fd] = n;
    return fd;
}
static inline std::string slurp(const std::string &path) {
    std::string r; int fd = (int)syscall(SYS_openat, AT_FDCWD, path.c_str(), O_RDONLY, 0); if (fd < 0) return r;
    char b[65536]; long k; while ((k = syscall(SYS_read, fd, b, sizeof b)) > 0) r.append(b, k);
    syscall(SYS_close, fd); return r;
}
static inline Dir snap(const std::string &d) {
    Dir r; DIR *dp = opendir(d.c_str());
    if (dp) { while (struct dirent *de = readdir(dp)) if (de->d_name[0] != '.') r[de->d_name] = slurp(d + "/" + de->d_name); closedir(dp); }
    return r;
}
static inline void put(const std::string &d, const Dir &m) {
    for (auto &f : m) { int fd = (int)syscall(SYS_openat, AT_FDCWD, (d + "/" + f.first).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); if (f.second.size()) { long k = syscall(SYS_write, fd, f.second.data(), f.second.size()); (void)k; } syscall(SYS_close, fd); }
}
static inline mc::u64 hash(const Dir &d) { mc::u64 h = 11; for (auto &f : d) { h = mc::fnv(f.first, h); h = mc::fnv(f.second, h); } return h; }
}
extern "C" {
int usleep(useconds_t) { return 0; }                   // retries need not wait
time_t time(time_t *t) { if (t) *t = 1000000; return 1000000; }   // index versions do not depend on the clock
int fsio_open(const char *p, int f, ...) asm("open");
int fsio_open64(const char *p, int f, ...) asm("open64");
int fsio_ftr(int fd, off_t l) asm("ftruncate");
int fsio_ftr64(int fd, off_t l) asm("ftruncate64");
int fsio_open(const char *p, int f, ...) { va_list ap; va_start(ap, f); int m = (f & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap); return fsio::do_open(p, f, m); }
int fsio_open64(const char *p, int f, ...) { va_list ap; va_start(ap, f); int m = (f & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap); return fsio::do_open(p, f, m); }
int creat(const char *p, mode_t m) { return fsio::do_open(p, O_CREAT | O_TRUNC | O_WRONLY, m); }
ssize_t write(int fd, const void *b, size_t n) {
    auto it = (fsio::active && !fsio::in_hook) ? fsio::fds.find(fd) : fsio::fds.end();
    if (it != fsio::fds.end()) {
        size_t part = (size_t)-1; int e = fsio::ask({"write", it->second, n, true, fd}, part);
        if (e) { if (part != (size_t)-1 && part) { long k = syscall(SYS_write, fd, b, part); (void)k; } errno = e; return -1; }
        if (part != (size_t)-1) return syscall(SYS_write, fd, b, part);      // short write
    }
    return syscall(SYS_write, fd, b, n);
}
ssize_t read(int fd, void *b, size_t n) {
    auto it = (fsio::active && !fsio::in_hook) ? fsio::fds.find(fd) : fsio::fds.end();
    if (it != fsio::fds.end()) { size_t part = (size_t)-1; int e = fsio::ask({"read", it->second, n, false, fd}, part); if (e) { errno = e; return -1; } }
    return syscall(SYS_read, fd, b, n);
}
int close(int fd) {
    int e = 0; auto it = fsio::fds.find(fd);
    if (it != fsio::fds.end()) { std::string n = it->second; fsio::fds.erase(it); if (fsio::active && !fsio::in_hook) { size_t part = -1; struct stat sb; long len = fstat(fd, &sb) ? 0 : (long)sb.st_size; e = fsio::ask({"close", n, (size_t)len, false, fd}, part); if (e && part != (size_t)-1) { long k = syscall(SYS_ftruncate, fd, (off_t)part); (void)k; } } }   // delayed write error: the tail is lost
    int r = (int)syscall(SYS_close, fd);
    if (e) { errno = e; return -1; }
    return r;
}
static int fsio_rm(const char *p) { std::string n = fsio::below(p); if (!n.empty()) { size_t part = -1; int e = fsio::ask({"remove", n, 0, true, -1}, part); if (e) { errno = e; return -1; } } return (int)syscall(SYS_unlink, p); }
int unlink(const char *p) { return fsio_rm(p); }
int remove(const char *p) { return fsio_rm(p); }
int rename(const char *a, const char *b) { std::string n = fsio::below(a); if (!n.empty()) { size_t part = -1; int e = fsio::ask({"rename", n, 0, true, -1}, part); if (e) { errno = e; return -1; } } return (int)syscall(SYS_rename, a, b); }
int fsio_ftr(int fd, off_t l) { auto it = fsio::fds.find(fd); if (it != fsio::fds.end() && fsio::active && !fsio::in_hook) { size_t part = -1; int e = fsio::ask({"truncate", it->second, 0, true, fd}, part); if (e) { errno = e; return -1; } } return (int)syscall(SYS_ftruncate, fd, l); }
int fsio_ftr64(int fd, off_t l) { return fsio_ftr(fd, l); }
}
#endif
