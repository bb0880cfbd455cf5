/* LD_PRELOAD shim: kills the process at its n-th output or file system call (crash-point enumeration); with KILL_COUNT, counts them. */
#define _GNU_SOURCE
#undef _FORTIFY_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <unistd.h>

static long calls, limit = -2;

static void report(void) {
  const char *s = getenv("KILL_COUNT");
  char b[32];
  int fd, n = snprintf(b, sizeof(b), "%ld", calls);
  if (s && (fd = open(s, O_WRONLY | O_CREAT | O_TRUNC, 0600)) >= 0) {
    if (write(fd, b, (size_t)n) < 0) {
    }
    close(fd);
  }
}

static void tick(void) {
  if (limit == -2) {
    const char *s = getenv("KILL_AT");
    limit = s ? atol(s) : -1;
    if (getenv("KILL_COUNT"))
      atexit(report);
  }
  if (calls++ == limit)
    kill(getpid(), SIGKILL);
}

#define REAL(ret, name, ...)                                                                                           \
  static ret (*real)(__VA_ARGS__);                                                                                     \
  if (!real)                                                                                                           \
    real = (ret(*)(__VA_ARGS__))dlsym(RTLD_NEXT, name);

int fprintf(FILE *f, const char *fmt, ...) {
  int r;
  va_list a;
  tick();
  va_start(a, fmt);
  r = vfprintf(f, fmt, a);
  va_end(a);
  return r;
}
int __fprintf_chk(FILE *f, int flag, const char *fmt, ...) {
  int r;
  va_list a;
  tick();
  va_start(a, fmt);
  r = vfprintf(f, fmt, a);
  va_end(a);
  return r;
}
int fputs(const char *s, FILE *f) {
  REAL(int, "fputs", const char *, FILE *)
  tick();
  return real(s, f);
}
int fputc(int c, FILE *f) {
  REAL(int, "fputc", int, FILE *)
  tick();
  return real(c, f);
}
size_t fwrite(const void *p, size_t a, size_t b, FILE *f) {
  REAL(size_t, "fwrite", const void *, size_t, size_t, FILE *)
  tick();
  return real(p, a, b, f);
}
int fflush(FILE *f) {
  REAL(int, "fflush", FILE *)
  tick();
  return real(f);
}
int fclose(FILE *f) {
  REAL(int, "fclose", FILE *)
  tick();
  return real(f);
}
FILE *fopen(const char *p, const char *m) {
  REAL(FILE *, "fopen", const char *, const char *)
  tick();
  return real(p, m);
}
int mkdir(const char *p, mode_t m) {
  REAL(int, "mkdir", const char *, mode_t)
  tick();
  return real(p, m);
}
