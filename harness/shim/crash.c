/* Interposes on the calls that change files below CRASH_DIR and ends the process (or fails the call) at the CRASH_AT-th
   of them. CRASH_MODE: exit (before the call), torn (after half of a write), after (after the call), fail (the call and
   all later ones report a full disk), once (only that call). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <unistd.h>

static atomic_int count;
static int at = -1;
static char mode;
static const char *dir;

__attribute__((constructor)) static void setup(void) {
  const char *s = getenv("CRASH_AT"), *m = getenv("CRASH_MODE");
  dir = getenv("CRASH_DIR");
  at = s ? atoi(s) : -1;
  mode = m ? m[0] : 'e';
}


static int ours_path(const char *p) { return dir && strncmp(p, dir, strlen(dir)) == 0; }
static int ours(int fd) {
  char link[64], path[4096];
  snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
  ssize_t n = readlink(link, path, sizeof path - 1);
  if (n <= 0) return 0;
  path[n] = 0;
  return ours_path(path);
}
/* 0: go on; 1: this is the call */
static int hit(void) {
  int k = ++count;
  if (at <= 0 || k < at || (mode != 'f' && k > at)) return 0;
  const char *mark = getenv("CRASH_MARK");
  if (mark) close(open(mark, O_CREAT | O_WRONLY, 0600));
  return 1;
}
#define REAL(name) static __typeof__(&name) real; if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

ssize_t write(int fd, const void *b, size_t n) {
  REAL(write);
  if (!ours(fd) || !hit()) return real(fd, b, n);
  if (mode == 'f' || mode == 'o') { errno = ENOSPC; return -1; }
  if (mode == 't') real(fd, b, n / 2);
  if (mode == 'a') real(fd, b, n);
  _exit(99);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
  REAL(pwrite);
  if (!ours(fd) || !hit()) return real(fd, b, n, o);
  if (mode == 'f' || mode == 'o') { errno = ENOSPC; return -1; }
  if (mode == 't') real(fd, b, n / 2, o);
  if (mode == 'a') real(fd, b, n, o);
  _exit(99);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
  REAL(pwrite64);
  if (!ours(fd) || !hit()) return real(fd, b, n, o);
  if (mode == 'f' || mode == 'o') { errno = ENOSPC; return -1; }
  if (mode == 't') real(fd, b, n / 2, o);
  if (mode == 'a') real(fd, b, n, o);
  _exit(99);
}
int ftruncate(int fd, off_t n) {
  REAL(ftruncate);
  if (!ours(fd) || !hit()) return real(fd, n);
  if (mode == 'f' || mode == 'o') { errno = EIO; return -1; }
  if (mode == 'a') real(fd, n);
  _exit(99);
}
int ftruncate64(int fd, off64_t n) {
  REAL(ftruncate64);
  if (!ours(fd) || !hit()) return real(fd, n);
  if (mode == 'f' || mode == 'o') { errno = EIO; return -1; }
  if (mode == 'a') real(fd, n);
  _exit(99);
}
int fsync(int fd) {
  REAL(fsync);
  if (!ours(fd) || !hit()) return 0;
  if (mode == 'f' || mode == 'o') { errno = EIO; return -1; }
  _exit(99);
}
int fdatasync(int fd) {
  REAL(fdatasync);
  if (!ours(fd) || !hit()) return 0;
  if (mode == 'f' || mode == 'o') { errno = EIO; return -1; }
  _exit(99);
}
int unlink(const char *p) {
  REAL(unlink);
  if (!ours_path(p) || !hit()) return real(p);
  if (mode == 'f' || mode == 'o') { errno = EIO; return -1; }
  if (mode == 'a') real(p);
  _exit(99);
}
