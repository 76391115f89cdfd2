#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "../sim/sim.h"
#include "../sim/simfs.hpp"
#include <cstring>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <map>
#include <set>
#include <stdarg.h>
#include <stdio.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
namespace simfs {
bool active = false;
unsigned short_ppm = 0;
long crashAt = -1, fullAfter = -1, failOpen = -1;
std::function<void()> onCrash;
bool hit = false;
static std::map<std::string, int> *files; // name -> memfd
static std::set<int> *fds;                // descriptors open on simulated files
static std::string norm(const char *p) {
    std::string s = p;
    while (s.rfind("./", 0) == 0) s = s.substr(2);
    return s;
}
static bool mine(const char *p) {
    if (!active || !p || !*p) return false;
    if (!files) { files = new std::map<std::string, int>; fds = new std::set<int>; }
    return p[0] != '/';
}
static bool isMine(int fd) { return active && fds && fds->count(fd); }
// every change of the disk is a step; the process may crash before it, and in the middle of a write
static bool step() {
    if (crashAt < 0) return false;
    if (crashAt-- > 0) return false;
    return true;
}
static void crash(const char *where) {
    sim_log("process crashes at disk step (%s)", where);
    sim_probe("disk-crash");
    hit = true;
    if (onCrash) onCrash();
}
static int create() { return (int) syscall(SYS_memfd_create, "simfs", 0); }
static int openFile(const char *path, int flags) {
    SimGuard g;
    const std::string n = norm(path);
    const bool wr = (flags & O_ACCMODE) != O_RDONLY;
    if (wr && failOpen >= 0 && failOpen-- == 0) { sim_log("open %s for writing fails", n.c_str()); hit = true; sim_probe("open-fails"); errno = EACCES; return -1; }
    auto it = files->find(n);
    if (it == files->end()) {
        if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
        if (step()) crash("create");
        it = files->emplace(n, create()).first;
    } else if ((flags & O_EXCL) && (flags & O_CREAT)) { errno = EEXIST; return -1; }
    else if ((flags & O_TRUNC) && wr) {
        if (step()) crash("truncate");
        (void) !ftruncate(it->second, 0);
    }
    char b[64];
    snprintf(b, sizeof b, "/proc/self/fd/%d", it->second);
    int fd = (int) syscall(SYS_openat, AT_FDCWD, b, flags & (O_ACCMODE | O_APPEND | O_CLOEXEC), 0);
    if (fd >= 0) fds->insert(fd);
    return fd;
}
static ssize_t doWrite(int fd, const void *p, size_t n) {
    SimGuard g;
    if (step()) {
        size_t k = n ? sim_choice("torn-write", n + 1) : 0;
        if (k) syscall(SYS_write, fd, p, k);
        crash("write");
    }
    if (fullAfter >= 0) {
        if (fullAfter == 0 && n) { hit = true; sim_probe("disk-full"); errno = ENOSPC; return -1; }
        if ((long) n > fullAfter) n = (size_t) fullAfter;
        fullAfter -= (long) n;
    } else if (n > 1 && short_ppm && sim_fault("short-write", short_ppm)) n = 1 + sim_choice("short-len", n - 1);
    return syscall(SYS_write, fd, p, n);
}
void reset() {
    SimGuard g;
    active = true;
    delete files;
    delete fds;
    files = new std::map<std::string, int>;
    fds = new std::set<int>;
    short_ppm = 0;
    crashAt = fullAfter = failOpen = -1;
    onCrash = nullptr;
    hit = false;
}
bool exists(const std::string &p) { SimGuard g; return files && files->count(norm(p.c_str())); }
std::vector<unsigned char> content(const std::string &p) {
    SimGuard g;
    std::vector<unsigned char> r;
    if (!exists(p)) return r;
    int fd = files->at(norm(p.c_str()));
    struct stat st;
    syscall(SYS_fstat, fd, &st);
    r.resize((size_t) st.st_size);
    if (!r.empty()) (void) !syscall(SYS_pread64, fd, r.data(), r.size(), 0);
    return r;
}
void put(const std::string &p, const std::vector<unsigned char> &d) {
    SimGuard g;
    (void) mine(p.c_str());
    auto [it, ins] = files->emplace(norm(p.c_str()), -1);
    it->second = create();
    if (!d.empty()) (void) !syscall(SYS_write, it->second, d.data(), d.size());
}
std::vector<std::string> list() {
    SimGuard g;
    std::vector<std::string> r;
    if (files) for (auto &f : *files) r.push_back(f.first);
    return r;
}
} // namespace simfs
using namespace simfs;
template<typename F> static F next(const char *n, F) { return (F) dlsym(RTLD_NEXT, n); }
#define NEXT(f) ([]() { static auto p = next(#f, &::f); return p; }())
static int flagsOf(const char *m) {
    int f = strchr(m, '+') ? O_RDWR : *m == 'r' ? O_RDONLY : O_WRONLY;
    if (*m == 'w') f |= O_CREAT | O_TRUNC;
    if (*m == 'a') f |= O_CREAT | O_APPEND;
    if (strchr(m, 'x')) f |= O_EXCL;
    return f;
}
extern "C" {
FILE *fopen(const char *path, const char *mode) {
    if (!mine(path)) return NEXT(fopen)(path, mode);
    int fd = openFile(path, flagsOf(mode));
    return fd < 0 ? nullptr : fdopen(fd, mode);
}
FILE *fopen64(const char *path, const char *mode) {
    if (!mine(path)) return NEXT(fopen64)(path, mode);
    int fd = openFile(path, flagsOf(mode));
    return fd < 0 ? nullptr : fdopen(fd, mode);
}
int open(const char *path, int flags, ...) {
    va_list a; va_start(a, flags); mode_t m = (flags & O_CREAT) ? va_arg(a, mode_t) : 0; va_end(a);
    if (!mine(path)) return (int) syscall(SYS_openat, AT_FDCWD, path, flags, m);
    return openFile(path, flags);
}
int open64(const char *path, int flags, ...) {
    va_list a; va_start(a, flags); mode_t m = (flags & O_CREAT) ? va_arg(a, mode_t) : 0; va_end(a);
    if (!mine(path)) return (int) syscall(SYS_openat, AT_FDCWD, path, flags, m);
    return openFile(path, flags);
}
ssize_t write(int fd, const void *p, size_t n) {
    if (!isMine(fd)) return syscall(SYS_write, fd, p, n);
    return doWrite(fd, p, n);
}
ssize_t writev(int fd, const struct iovec *v, int n) {
    if (!isMine(fd)) return syscall(SYS_writev, fd, v, n);
    ssize_t t = 0;
    for (int i = 0; i < n; i++) {
        if (!v[i].iov_len) continue;
        ssize_t k = doWrite(fd, v[i].iov_base, v[i].iov_len);
        if (k < 0) return t ? t : -1;
        t += k;
        if ((size_t) k < v[i].iov_len) break;
    }
    return t;
}
int close(int fd) {
    if (isMine(fd)) { SimGuard g; fds->erase(fd); }
    return (int) syscall(SYS_close, fd);
}
int fclose(FILE *f) {
    int fd = fileno(f);
    if (isMine(fd)) { SimGuard g; fds->erase(fd); }
    return NEXT(fclose)(f);
}
int ftruncate(int fd, off_t n) {
    if (isMine(fd)) { SimGuard g; if (step()) crash("truncate"); }
    return (int) syscall(SYS_ftruncate, fd, n);
}
int rename(const char *a, const char *b) {
    if (!mine(a) || !mine(b)) return NEXT(rename)(a, b);
    SimGuard g;
    auto it = files->find(norm(a));
    if (it == files->end()) { errno = ENOENT; return -1; }
    if (step()) crash("rename");
    (*files)[norm(b)] = it->second;
    files->erase(norm(a));
    return 0;
}
static int unlinkFile(const char *p) {
    SimGuard g;
    if (!files->count(norm(p))) { errno = ENOENT; return -1; }
    if (step()) crash("unlink");
    files->erase(norm(p));
    return 0;
}
int unlink(const char *p) { return mine(p) ? unlinkFile(p) : (int) syscall(SYS_unlink, p); }
int remove(const char *p) { return mine(p) ? unlinkFile(p) : NEXT(remove)(p); }
static int statFile(const char *p, struct stat *st) {
    SimGuard g;
    auto it = files->find(norm(p));
    if (it == files->end()) {
        if (norm(p) == "." || norm(p) == "") return (int) syscall(SYS_newfstatat, AT_FDCWD, "/", st, 0);
        errno = ENOENT;
        return -1;
    }
    return (int) syscall(SYS_fstat, it->second, st);
}
int stat(const char *p, struct stat *st) { return mine(p) ? statFile(p, st) : (int) syscall(SYS_newfstatat, AT_FDCWD, p, st, 0); }
int lstat(const char *p, struct stat *st) { return mine(p) ? statFile(p, st) : (int) syscall(SYS_newfstatat, AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); }
int stat64(const char *p, struct stat64 *st) { return mine(p) ? statFile(p, (struct stat *) st) : (int) syscall(SYS_newfstatat, AT_FDCWD, p, st, 0); }
int lstat64(const char *p, struct stat64 *st) { return mine(p) ? statFile(p, (struct stat *) st) : (int) syscall(SYS_newfstatat, AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); }
int access(const char *p, int m) {
    if (!mine(p)) return (int) syscall(SYS_faccessat, AT_FDCWD, p, m);
    struct stat st;
    return statFile(p, &st);
}
}
