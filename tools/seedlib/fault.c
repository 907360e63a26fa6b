// LD_PRELOAD stand-in for a failing or slow disk, and for a crash at a given system call.
// FAULT="op:path-substring:n:action[;...]", n = which matching call (1-based, 0 = every one),
// action = a number (fail with this errno), "kill" (the process dies right there), "s<ms>" (sleep first), "s<ms>,<errno>" (both)
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static int counts[16];
static int fault(const char *op, const char *path) {
  const char *f = getenv("FAULT");
  char buf[1024]; int i = 0, res = 0; char *save = 0;
  if (!f) return 0;
  strncpy(buf, f, sizeof buf - 1); buf[sizeof buf - 1] = 0;
  for (char *e = strtok_r(buf, ";", &save); e; e = strtok_r(0, ";", &save), i++) {
    char o[32], s[256], n[16], a[32];
    if (sscanf(e, "%31[^:]:%255[^:]:%15[^:]:%31s", o, s, n, a) != 4) continue;
    if (strcmp(o, op) || !strstr(path, s)) continue;
    pthread_mutex_lock(&mu); int c = ++counts[i]; pthread_mutex_unlock(&mu);
    if (atoi(n) && c != atoi(n)) continue;
    if (!strcmp(a, "kill")) _exit(99);
    if (a[0] == 's') { int ms = atoi(a + 1); struct timespec t = {ms / 1000, (ms % 1000) * 1000000L}; nanosleep(&t, 0); if (strchr(a, ',')) res = atoi(strchr(a, ',') + 1); }
    else res = atoi(a);
  }
  return res;
}
static void fdpath(int fd, char *out, size_t n) {
  char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
  ssize_t k = readlink(l, out, n - 1); out[k < 0 ? 0 : k] = 0;
}
#define REAL(t, name, ...) static t (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, name)
#define FD(op, fd) char p[4096]; fdpath(fd, p, sizeof p); int er = fault(op, p); if (er) { errno = er; return -1; }
#define PATH(op, p) int er = fault(op, p); if (er) { errno = er; return -1; }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { REAL(ssize_t, "pwrite64", int, const void *, size_t, off64_t); FD("pwrite", fd) return real(fd, b, n, o); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { REAL(ssize_t, "pread64", int, void *, size_t, off64_t); FD("pread", fd) return real(fd, b, n, o); }
int fdatasync(int fd) { REAL(int, "fdatasync", int); FD("sync", fd) return real(fd); }
int fsync(int fd) { REAL(int, "fsync", int); FD("sync", fd) return real(fd); }
int ftruncate64(int fd, off64_t n) { REAL(int, "ftruncate64", int, off64_t); FD("setlen", fd) return real(fd, n); }
int rename(const char *a, const char *b) { REAL(int, "rename", const char *, const char *); PATH("rename", a) return real(a, b); }
int unlink(const char *a) { REAL(int, "unlink", const char *); PATH("unlink", a) return real(a); }
int open64(const char *a, int fl, ...) { REAL(int, "open64", const char *, int, ...); va_list v; va_start(v, fl); int m = va_arg(v, int); va_end(v); PATH("open", a) return real(a, fl, m); }
