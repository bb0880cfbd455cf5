/* LD_PRELOAD shim: random delays around file system calls and a log of directory creations (for the result-folder check). */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>

static unsigned state;
static long maxdelay;
static int logfd = -1, ready;

static void init(void) {
  const char *s;
  if (ready)
    return;
  ready = 1;
  s = getenv("SHIM_SEED");
  state = (unsigned)(s ? atoi(s) : 1) * 2654435761u + (unsigned)getpid();
  s = getenv("SHIM_DELAY");
  maxdelay = s ? atol(s) : 0;
  s = getenv("SHIM_LOG");
  if (s)
    logfd = open(s, O_WRONLY | O_CREAT | O_APPEND, 0600);
}

static void pause_some(void) {
  int e = errno;
  init();
  state = state * 1664525u + 1013904223u;
  if (maxdelay > 0 && (state >> 16) % 3 != 0)
    usleep((useconds_t)((state >> 8) % (unsigned long)maxdelay));
  errno = e;
}

static void note(const char *what, const char *path, int rc) {
  char b[1400];
  int n, e = errno;
  if (logfd < 0)
    return;
  n = snprintf(b, sizeof(b), "%d\t%s\t%d\t%s\n", (int)getpid(), what, rc == 0 ? 0 : e, path);
  if (n > 0 && write(logfd, b, n < (int)sizeof(b) ? (size_t)n : sizeof(b)) < 0) {
  }
  errno = e;
}

#define REAL(ret, name, ...)                                                                                           \
  static ret (*real)(__VA_ARGS__);                                                                                     \
  if (!real)                                                                                                           \
    real = (ret(*)(__VA_ARGS__))dlsym(RTLD_NEXT, name);

int mkdir(const char *path, mode_t mode) {
  int rc;
  REAL(int, "mkdir", const char *, mode_t)
  pause_some();
  rc = real(path, mode);
  note("mkdir", path, rc);
  pause_some();
  return rc;
}

int access(const char *path, int mode) {
  int rc;
  REAL(int, "access", const char *, int)
  rc = real(path, mode);
  pause_some();
  return rc;
}

int stat(const char *path, struct stat *b) {
  int rc;
  REAL(int, "stat", const char *, struct stat *)
  rc = real(path, b);
  pause_some();
  return rc;
}

int lstat(const char *path, struct stat *b) {
  int rc;
  REAL(int, "lstat", const char *, struct stat *)
  rc = real(path, b);
  pause_some();
  return rc;
}

DIR *opendir(const char *path) {
  DIR *d;
  REAL(DIR *, "opendir", const char *)
  d = real(path);
  pause_some();
  return d;
}

FILE *fopen(const char *path, const char *mode) {
  FILE *f;
  REAL(FILE *, "fopen", const char *, const char *)
  pause_some();
  f = real(path, mode);
  return f;
}
