// LD_PRELOAD seam for C18: system calls on files below a scratch directory (and on standard output)
// follow a fault plan; everything else passes through.  Driven from Python through ctypes.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OPEN, READ, WRITE, CLOSE, SYNC, RENAME, NOPS };
struct fault { int op, nth, kind, arg; };          // kind 0: fail once with errno arg; 1: from then on; 2: transfer at most arg bytes; 3: torn: arg bytes, then errno ENOSPC for good; 4: the process dies, after arg bytes of a write
static struct fault plan[16]; static int nplan, armed, count[NOPS], fired[16], sticky[NOPS];
static long left = -1;                              // bytes until the disk is full, -1: plenty
static int full_fired, opened, hard, dying; static long written[4096];   // bytes written per descriptor
static char prefix[512], also[512]; static char tracked[4096]; static int out_fd = -1, out_closed;

#define REAL(name) static __typeof__(name) *real; if (!real) real = (__typeof__(name) *)dlsym(RTLD_NEXT, #name)

void iof_arm(const char *pre, int fd) { strncpy(prefix, pre, sizeof prefix - 1); memset(count, 0, sizeof count); memset(fired, 0, sizeof fired); memset(sticky, 0, sizeof sticky);
  memset(tracked, 0, sizeof tracked); memset(written, 0, sizeof written); nplan = 0; left = -1; full_fired = opened = hard = out_closed = 0; out_fd = fd; armed = 1; }
void iof_fault(int op, int nth, int kind, int arg) { if (nplan < 16) plan[nplan++] = (struct fault){op, nth, kind, arg}; }
void iof_also(const char *p) { strncpy(also, p, sizeof also - 1); }     // one more file whose reading is under the plan
void iof_full(long bytes) { left = bytes; }
void iof_disarm(void) { armed = 0; }
int iof_open_files(void) { int n = 0; for (int i = 0; i < 4096; i++) n += tracked[i]; return n; }
int iof_opened(void) { return opened; }
int iof_hard(void) { return hard; }
int iof_fired(int i) { return i < 16 ? fired[i] : 0; }
int iof_full_fired(void) { return full_fired; }
int iof_count(int op) { return count[op]; }
int iof_stdout_closed(void) { return out_closed; }

static int ours(int fd) { return armed && fd >= 0 && ((fd < 4096 && tracked[fd]) || fd == out_fd); }
// Returns 0: proceed (possibly with *len reduced), -1: fail with errno set.
static int step(int op, size_t *len) {
  int n = count[op]++;
  if (sticky[op]) { hard++; errno = sticky[op]; return -1; }
  for (int i = 0; i < nplan; i++) if (plan[i].op == op && plan[i].nth == n) {
    fired[i]++;
    switch (plan[i].kind) {
      case 0: if (plan[i].arg != EINTR) hard++; errno = plan[i].arg; return -1;
      case 1: sticky[op] = plan[i].arg; hard++; errno = plan[i].arg; return -1;
      case 2: if (len && *len > (size_t)plan[i].arg && plan[i].arg > 0) *len = plan[i].arg; break;
      case 3: left = plan[i].arg; break;
      case 4: if (!len || plan[i].arg <= 0) _exit(137); if (*len > (size_t)plan[i].arg) *len = plan[i].arg; dying = 1; break;
    }
  }
  if (op == WRITE && left >= 0 && len) {
    if (*len > (size_t)left) { full_fired++; if (left == 0) { hard++; errno = ENOSPC; return -1; } *len = left; }
    left -= *len;
  }
  return 0;
}
static int under(const char *p) { return armed && p && (!strncmp(p, prefix, strlen(prefix)) || (*also && !strcmp(p, also))); }
static int note(int fd) { if (fd >= 0 && fd < 4096) { tracked[fd] = 1; written[fd] = 0; opened++; } return fd; }

#define OPEN_BODY(call) if (!under(path)) return call; if (step(OPEN, 0)) return -1; return note(call);
#define MODE int mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
int open(const char *path, int flags, ...) { REAL(open); MODE OPEN_BODY(real(path, flags, mode)) }
int open64(const char *path, int flags, ...) { REAL(open64); MODE OPEN_BODY(real(path, flags, mode)) }
int openat(int d, const char *path, int flags, ...) { REAL(openat); MODE OPEN_BODY(real(d, path, flags, mode)) }
int openat64(int d, const char *path, int flags, ...) { REAL(openat64); MODE OPEN_BODY(real(d, path, flags, mode)) }
ssize_t read(int fd, void *b, size_t n) { REAL(read); if (ours(fd) && fd != out_fd && step(READ, &n)) return -1; return real(fd, b, n); }
ssize_t write(int fd, const void *b, size_t n) { REAL(write); if (!ours(fd)) return real(fd, b, n); if (step(WRITE, &n)) return -1; ssize_t r = real(fd, b, n); if (dying) _exit(137); if (r > 0 && fd < 4096) written[fd] += r; return r; }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { REAL(pwrite64); if (ours(fd) && step(WRITE, &n)) return -1; return real(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) { REAL(writev); if (ours(fd)) { size_t z = 0; if (c > 0) { z = v[0].iov_len; if (step(WRITE, &z)) return -1; return write(fd, v[0].iov_base, z); } } return real(fd, v, c); }
int fsync(int fd) { REAL(fsync); if (ours(fd) && step(SYNC, 0)) return -1; return real(fd); }
int fdatasync(int fd) { REAL(fdatasync); if (ours(fd) && step(SYNC, 0)) return -1; return real(fd); }
int close(int fd) { REAL(close);
  if (armed && fd == out_fd) { out_closed++; }
  if (ours(fd) && fd != out_fd) { tracked[fd] = 0; if (step(CLOSE, 0)) { int e = errno;
      // Delayed allocation or write-back failed: what was still in the cache is gone.
      if (fd < 4096 && written[fd] > 0) { off_t z = lseek(fd, 0, SEEK_END); if (z > 0) ftruncate(fd, z - (written[fd] < z ? (written[fd] + 1) / 2 : z)); }
      real(fd); errno = e; return -1; } }
  return real(fd); }
int rename(const char *a, const char *b) { REAL(rename); if ((under(a) || under(b)) && step(RENAME, 0)) return -1; return real(a, b); }
int renameat(int x, const char *a, int y, const char *b) { REAL(renameat); if ((under(a) || under(b)) && step(RENAME, 0)) return -1; return real(x, a, y, b); }
