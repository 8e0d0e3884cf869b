/* LD_PRELOAD seam for the install step: every operation that changes a regular file is numbered across all
 * processes of the install (a shared counter file), and the one with the chosen number is made to fail, to be cut
 * short, or to be the last thing that happens (the whole process group is killed). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
struct st { volatile int n, at, kind, persist, fired, nlog; char log[1 << 16]; };
static struct st* S;
enum { K_NONE, K_CRASH, K_TORN, K_NOSPC, K_EIO, K_SHORT, K_EINTR };
__attribute__((constructor)) static void init(void) {
  const char* p = getenv("VF_SHIM"); if (!p || S) return; int fd = syscall(SYS_openat, AT_FDCWD, p, O_RDWR | O_CLOEXEC); if (fd < 0) return;
  void* m = mmap(0, sizeof(struct st), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); syscall(SYS_close, fd); if (m != MAP_FAILED) S = m;
}
static void die(void) { __sync_fetch_and_add(&S->fired, 1); syscall(SYS_kill, 0, SIGKILL); for (;;) pause(); }
static int regular(int fd) { struct stat s; return syscall(SYS_fstat, fd, &s) == 0 && S_ISREG(s.st_mode); }
static void note(const char* op, const char* a) {
  char b[300]; const char* base = a ? strrchr(a, '/') : 0; base = base ? base + 1 : a ? a : ""; int k = snprintf(b, sizeof b, "%s %s\n", op, base); int o = __sync_fetch_and_add(&S->nlog, k); if (o + k < (int)sizeof S->log) memcpy(S->log + o, b, k);
}
/* number of this operation's fault, 0 if it proceeds normally */
static int hit(const char* op, const char* a) {
  if (!S) init(); if (!S) return 0; int i = __sync_fetch_and_add(&S->n, 1); note(op, a);
  int k = S->kind; if (!k || S->at < 0) return 0; if (i == S->at || (S->persist && i > S->at && (k == K_NOSPC || k == K_EIO))) { if (k == K_CRASH) die(); return k; } return 0;
}
static int fail(int k) { __sync_fetch_and_add(&S->fired, 1); errno = k == K_EIO ? EIO : k == K_EINTR ? EINTR : ENOSPC; return -1; }
#define SOFT(k) ((k) == K_NOSPC || (k) == K_EIO)
static int fdname(int fd, char* b, int n) { char p[40]; snprintf(p, sizeof p, "/proc/self/fd/%d", fd); int k = readlink(p, b, n - 1); b[k < 0 ? 0 : k] = 0; return k; }
static ssize_t wr(int fd, const void* p, size_t n, const char* nm) {
  if (!regular(fd)) return syscall(SYS_write, fd, p, n);
  char b[300]; fdname(fd, b, sizeof b); int k = hit(nm, b);
  if (SOFT(k) || k == K_EINTR) { if (k == K_NOSPC && n > 1 && S->persist == 2) { __sync_fetch_and_add(&S->fired, 1); ssize_t r = syscall(SYS_write, fd, p, n / 2); S->persist = 1; return r; } return fail(k); }
  if (k == K_SHORT || k == K_TORN) { ssize_t r = syscall(SYS_write, fd, p, n > 1 ? n / 2 : n); if (k == K_TORN) die(); __sync_fetch_and_add(&S->fired, 1); return r; }
  return syscall(SYS_write, fd, p, n);
}
ssize_t write(int fd, const void* p, size_t n) { return wr(fd, p, n, "write"); }
ssize_t writev(int fd, const struct iovec* v, int c) { if (!regular(fd)) return syscall(SYS_writev, fd, v, c); ssize_t t = 0; for (int i = 0; i < c; i++) { ssize_t r = v[i].iov_len ? wr(fd, v[i].iov_base, v[i].iov_len, "writev") : 0; if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; } return t; }
ssize_t pwrite(int fd, const void* p, size_t n, off_t o) { if (regular(fd)) { int k = hit("pwrite", 0); if (SOFT(k)) return fail(k); if (k == K_TORN || k == K_SHORT) { ssize_t r = syscall(SYS_pwrite64, fd, p, n / 2, o); if (k == K_TORN) die(); S->fired++; return r; } } return syscall(SYS_pwrite64, fd, p, n, o); }
ssize_t pwrite64(int fd, const void* p, size_t n, off_t o) { return pwrite(fd, p, n, o); }
static int op_path(const char* nm, const char* a) { int k = hit(nm, a); if (SOFT(k)) return fail(k); return k; }
#define AFTER(k, r) do { if ((k) == K_TORN) die(); } while (0)
static int do_open(int d, const char* f, int fl, int mode) {
  int mut = (fl & O_ACCMODE) != O_RDONLY && strncmp(f, "/dev/", 5) && strncmp(f, "/proc/", 6); int k = 0; if (mut) { k = op_path("open", f); if (k < 0) return -1; }
  int r = syscall(SYS_openat, d, f, fl, mode); if (mut) AFTER(k, r); return r;
}
#define MODE int m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); }
int open(const char* f, int fl, ...) { MODE return do_open(AT_FDCWD, f, fl, m); }
int open64(const char* f, int fl, ...) { MODE return do_open(AT_FDCWD, f, fl, m); }
int openat(int d, const char* f, int fl, ...) { MODE return do_open(d, f, fl, m); }
int openat64(int d, const char* f, int fl, ...) { MODE return do_open(d, f, fl, m); }
int creat(const char* f, mode_t m) { return do_open(AT_FDCWD, f, O_CREAT | O_WRONLY | O_TRUNC, m); }
int renameat2(int a, const char* x, int b, const char* y, unsigned fl) { int k = op_path("rename", y); if (k < 0) return -1; int r = syscall(SYS_renameat2, a, x, b, y, fl); AFTER(k, r); return r; }
int rename(const char* x, const char* y) { return renameat2(AT_FDCWD, x, AT_FDCWD, y, 0); }
int renameat(int a, const char* x, int b, const char* y) { return renameat2(a, x, b, y, 0); }
int unlinkat(int d, const char* f, int fl) { int k = op_path("unlink", f); if (k < 0) return -1; int r = syscall(SYS_unlinkat, d, f, fl); AFTER(k, r); return r; }
int unlink(const char* f) { return unlinkat(AT_FDCWD, f, 0); }
int remove(const char* f) { int r = unlinkat(AT_FDCWD, f, 0); return r && errno == EISDIR ? unlinkat(AT_FDCWD, f, AT_REMOVEDIR) : r; }
int ftruncate(int fd, off_t n) { int k = op_path("ftruncate", 0); if (k < 0) return -1; int r = syscall(SYS_ftruncate, fd, n); AFTER(k, r); return r; }
int ftruncate64(int fd, off_t n) { return ftruncate(fd, n); }
int truncate(const char* f, off_t n) { int k = op_path("truncate", f); if (k < 0) return -1; int r = syscall(SYS_truncate, f, n); AFTER(k, r); return r; }
int linkat(int a, const char* x, int b, const char* y, int fl) { int k = op_path("link", y); if (k < 0) return -1; int r = syscall(SYS_linkat, a, x, b, y, fl); AFTER(k, r); return r; }
int link(const char* x, const char* y) { return linkat(AT_FDCWD, x, AT_FDCWD, y, 0); }
int symlink(const char* x, const char* y) { int k = op_path("symlink", y); if (k < 0) return -1; int r = syscall(SYS_symlinkat, x, AT_FDCWD, y); AFTER(k, r); return r; }
int mkdir(const char* f, mode_t m) { int k = op_path("mkdir", f); if (k < 0) return -1; int r = syscall(SYS_mkdirat, AT_FDCWD, f, m); AFTER(k, r); return r; }
int fsync(int fd) { int k = op_path("fsync", 0); if (k < 0) return -1; int r = syscall(SYS_fsync, fd); AFTER(k, r); return r; }
int fdatasync(int fd) { int k = op_path("fdatasync", 0); if (k < 0) return -1; int r = syscall(SYS_fdatasync, fd); AFTER(k, r); return r; }
ssize_t copy_file_range(int a, off_t* x, int b, off_t* y, size_t n, unsigned f) { int k = op_path("copy_file_range", 0); if (k < 0) return -1; if (k == K_SHORT || k == K_TORN) { if (n > 4096) n = 4096; } ssize_t r = syscall(SYS_copy_file_range, a, x, b, y, n, f); AFTER(k, r); return r; }
ssize_t sendfile(int o, int i, off_t* off, size_t n) { int k = op_path("sendfile", 0); if (k < 0) return -1; ssize_t r = syscall(SYS_sendfile, o, i, off, n); AFTER(k, r); return r; }
/* the wall clock of an install: VF_CLOCK seconds, advancing a millisecond with every reading */
static int vclock(long long* us) { static long long t = -1; static volatile long long n; const char* e = getenv("VF_CLOCK"); if (!e) return 0; if (t < 0) t = atoll(e); *us = t * 1000000 + 1000 * __sync_add_and_fetch(&n, 1); return 1; }
int clock_gettime(clockid_t c, struct timespec* t) { long long u; if ((c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI) && vclock(&u)) { t->tv_sec = u / 1000000; t->tv_nsec = u % 1000000 * 1000; return 0; } return syscall(SYS_clock_gettime, c, t); }
int gettimeofday(struct timeval* restrict t, void* restrict z) { long long u; (void)z; if (vclock(&u)) { t->tv_sec = u / 1000000; t->tv_usec = u % 1000000; return 0; } return syscall(SYS_gettimeofday, t, z); }
time_t time(time_t* p) { long long u; time_t r; if (vclock(&u)) r = u / 1000000; else { struct timespec t; syscall(SYS_clock_gettime, CLOCK_REALTIME, &t); r = t.tv_sec; } if (p) *p = r; return r; }
