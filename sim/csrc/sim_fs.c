// Simulated storage layer: interposes the libc file calls for paths below one scratch directory.
// The bytes live in a real scratch directory; what is simulated is the behaviour of the calls:
// short reads and writes, EINTR, hard errors, a full disk, and a crash inside a call. Every
// mutating call is logged, so that the images a power loss could leave behind can be rebuilt.
// Built into the Rust harness, and (with -DSIM_PRELOAD) as an LD_PRELOAD library for Python.
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OP_OPEN_R = 1, OP_OPEN_W, OP_READ, OP_WRITE, OP_CLOSE, OP_FSYNC, OP_TRUNC, OP_RENAME, OP_UNLINK, OP_NKIND };
enum { ACT_ERR = 1, ACT_SHORT, ACT_CRASH, ACT_EINTR, ACT_STICKY_ERR, ACT_ZERO };
#define MAXFD 1024
#define MAXPLAN 160
#define MAXLOG 65536

static inline long rsys(long n, long a, long b, long c, long d, long e, long f) {
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  long ret;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return ret;
}
static long fin(long r) {
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}

struct fdinfo { int on; int64_t off; int append; int writable; char path[512]; };
struct plan { int op; uint64_t nth; int act; int64_t arg; int done; };
struct flog { int op; int64_t off; int64_t len; char path[512]; char path2[512]; unsigned char *data; };

static char root[512];
static size_t root_len;
static struct fdinfo F[MAXFD];
static struct plan PL[MAXPLAN];
static int npl;
static uint64_t cnt[OP_NKIND], mut_cnt;
static uint64_t st_short_r, st_short_w, st_eintr, st_err, st_enospc, st_crash, st_ops, st_zero;
static uint64_t rng, p_short, p_eintr;
static int64_t quota = -1;
static int sticky_err;
static struct flog *L;
static int nlog, log_on;
static uint64_t fs_hash;

#ifndef SIM_PRELOAD
extern void sim_note(uint64_t v);
extern void sim_point(void);
#else
static void sim_note(uint64_t v) { (void)v; }
static void sim_point(void) {}
// hash keys of the Rust code: seeded per simulated process
static uint64_t ent_state, ent_on, ent_bytes;
static void ent_init(void) {
  const char *e = getenv("SIM_ENTROPY");
  ent_on = 1;
  if (e) { ent_state = strtoull(e, NULL, 10); ent_on = 2; }
}
uint64_t sim_fs_entropy_bytes(void) { return ent_bytes; }
ssize_t getrandom(void *buf, size_t n, unsigned int flags) {
  if (!ent_on) ent_init();
  if (ent_on == 1) return fin(rsys(SYS_getrandom, (long)buf, n, flags, 0, 0, 0));
  unsigned char *b = buf;
  for (size_t i = 0; i < n; i++) {
    ent_state = ent_state * 6364136223846793005ull + 1442695040888963407ull;
    b[i] = (unsigned char)(ent_state >> 33);
  }
  ent_bytes += n;
  return (ssize_t)n;
}
#endif

static uint64_t r64(void) {
  uint64_t z = (rng += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
static void note(uint64_t a, uint64_t b) {
  fs_hash = (fs_hash ^ (a * 0x100000001b3ull)) * 0xff51afd7ed558ccdull ^ b;
  sim_note(a * 1000003 + b);
}

void sim_fs_root(const char *p) {
  if (!p) { root_len = 0; root[0] = 0; return; }
  strncpy(root, p, sizeof root - 1);
  root_len = strlen(root);
}
void sim_fs_clear(void) {
  npl = 0;
  memset(cnt, 0, sizeof cnt);
  mut_cnt = 0;
  p_short = p_eintr = 0;
  quota = -1;
  sticky_err = 0;
}
// op 0 = the nth mutating call of any kind
void sim_fs_plan(int op, uint64_t nth, int act, int64_t arg) {
  if (npl < MAXPLAN) PL[npl++] = (struct plan){op, nth, act, arg, 0};
}
void sim_fs_transient(uint64_t seed, uint64_t ps, uint64_t pe) {
  rng = seed;
  p_short = ps;
  p_eintr = pe;
}
void sim_fs_quota(int64_t b) { quota = b; }
void sim_fs_log(int on) {
  if (!L) L = calloc(MAXLOG, sizeof *L);
  if (on) {
    for (int i = 0; i < nlog; i++) free(L[i].data);
    nlog = 0;
  }
  log_on = on;
}
int sim_fs_log_n(void) { return nlog; }
struct flog *sim_fs_log_get(int i) { return &L[i]; }
uint64_t sim_fs_stat(int k) {
  switch (k) {
    case 0: return st_ops;
    case 1: return st_short_r;
    case 2: return st_short_w;
    case 3: return st_eintr;
    case 4: return st_err;
    case 5: return st_enospc;
    case 6: return st_crash;
    case 7: return fs_hash;
    case 8: return mut_cnt;
    case 9: return st_zero;
    default: return 0;
  }
}

static void logop(int op, const char *p, const char *p2, int64_t off, int64_t len, const void *data) {
  if (!log_on || nlog >= MAXLOG) return;
  struct flog *e = &L[nlog++];
  memset(e, 0, sizeof *e);
  e->op = op;
  e->off = off;
  e->len = len;
  if (p) strncpy(e->path, p, sizeof e->path - 1);
  if (p2) strncpy(e->path2, p2, sizeof e->path2 - 1);
  if (data && len > 0) {
    e->data = malloc(len);
    memcpy(e->data, data, len);
  }
}
// the absolute form of a path, so that a file is the same file however it is named
static int canon(int dfd, const char *p, char *out, size_t n) {
  if (!p) return 0;
  if (p[0] == '/') return snprintf(out, n, "%s", p) < (int)n;
  long k;
  if (dfd == AT_FDCWD) {
    k = rsys(SYS_getcwd, (long)out, n, 0, 0, 0, 0);
    if (k <= 0) return 0;
    k--;
  } else {
    char l[40];
    snprintf(l, sizeof l, "/proc/self/fd/%d", dfd);
    k = rsys(SYS_readlinkat, AT_FDCWD, (long)l, (long)out, n - 1, 0, 0);
    if (k <= 0) return 0;
    out[k] = 0;
  }
  while (p[0] == '.' && p[1] == '/') p += 2;
  return k + 2 + strlen(p) < n && sprintf(out + k, "/%s", p) > 0;
}
static int ours_at(int dfd, const char *p, char *c, size_t n) { return root_len && canon(dfd, p, c, n) && strncmp(c, root, root_len) == 0; }
static int is_mut(int op) { return op == OP_OPEN_W || op == OP_WRITE || op == OP_FSYNC || op == OP_TRUNC || op == OP_RENAME || op == OP_UNLINK; }

static void crash_now(void) {
  st_crash++;
  rsys(SYS_exit_group, 91, 0, 0, 0, 0, 0);
}
// Decides what happens to a call. Returns 0 to go ahead, -1 with errno set to fail, or for
// transfers a positive number: the maximum number of bytes to move now. crash_after is set
// when the process must die after moving that many bytes.
static long gate(int op, int64_t len, int *crash_after) {
  sim_point();
  st_ops++;
  cnt[op]++;
  int m = is_mut(op);
  if (m) mut_cnt++;
  note(op, (uint64_t)len);
  if (sticky_err && m) { errno = sticky_err; st_err++; return -1; }
  for (int i = 0; i < npl; i++) {
    struct plan *p = &PL[i];
    if (p->done) continue;
    if (!((p->op == op && p->nth == cnt[op]) || (p->op == 0 && m && p->nth == mut_cnt))) continue;
    p->done = 1;
    note(100 + p->act, p->arg);
    switch (p->act) {
      case ACT_ERR: st_err++; errno = (int)p->arg; return -1;
      case ACT_STICKY_ERR: st_err++; sticky_err = (int)p->arg; errno = sticky_err; return -1;
      case ACT_EINTR: st_eintr++; errno = EINTR; return -1;
      case ACT_SHORT:
        if (len > 0 && p->arg < len) { (op == OP_READ) ? st_short_r++ : st_short_w++; return p->arg > 0 ? p->arg : 1; }
        break;
      case ACT_ZERO:
        st_zero++;
        return -2;
      case ACT_CRASH:
        if (len <= 0 || p->arg <= 0) crash_now();
        *crash_after = 1;
        return p->arg < len ? p->arg : len;
    }
  }
  if ((op == OP_READ || op == OP_WRITE) && len > 0) {
    if (p_eintr && r64() % 1000000 < p_eintr) { st_eintr++; note(7, 7); errno = EINTR; return -1; }
    if (p_short && len > 1 && r64() % 1000000 < p_short) {
      int64_t n = 1 + (int64_t)(r64() % (uint64_t)(len - 1));
      if (r64() % 3 == 0) n = 1 + (int64_t)(r64() % 16);
      if (n > len) n = len;
      (op == OP_READ) ? st_short_r++ : st_short_w++;
      note(8, n);
      return n;
    }
  }
  return 0;
}

static int do_open(int dfd, const char *path, int flags, int mode) {
  char c[512];
  if (!ours_at(dfd, path, c, sizeof c)) return (int)fin(rsys(SYS_openat, dfd, (long)path, flags, mode, 0, 0));
  int w = (flags & O_ACCMODE) != O_RDONLY;
  int ca = 0;
  if (gate(w ? OP_OPEN_W : OP_OPEN_R, 0, &ca) < 0) return -1;
  if (w && (flags & O_CREAT) && quota == 0) {
    // a full disk: creating a new file may still work, data will not
  }
  int fd = (int)fin(rsys(SYS_openat, dfd, (long)path, flags, mode, 0, 0));
  if (fd >= 0 && fd < MAXFD) {
    memset(&F[fd], 0, sizeof F[fd]);
    F[fd].on = 1;
    F[fd].writable = w;
    F[fd].append = !!(flags & O_APPEND);
    strncpy(F[fd].path, c, sizeof F[fd].path - 1);
    if (w && (flags & O_TRUNC)) logop(OP_OPEN_W, c, NULL, 0, 0, NULL);
    else if (w && (flags & O_CREAT)) logop(OP_OPEN_W, c, NULL, -1, 0, NULL);
  }
  return fd;
}
#define OPENARGS                          \
  int mode = 0;                           \
  if (flags & (O_CREAT | O_TMPFILE)) {    \
    va_list ap;                           \
    va_start(ap, flags);                  \
    mode = va_arg(ap, int);               \
    va_end(ap);                           \
  }
int open(const char *p, int flags, ...) { OPENARGS return do_open(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { OPENARGS return do_open(AT_FDCWD, p, flags | O_LARGEFILE, mode); }
int openat(int d, const char *p, int flags, ...) { OPENARGS return do_open(d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { OPENARGS return do_open(d, p, flags | O_LARGEFILE, mode); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_WRONLY | O_CREAT | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_WRONLY | O_CREAT | O_TRUNC, m); }

static inline int tracked(int fd) { return root_len && fd >= 0 && fd < MAXFD && F[fd].on; }

ssize_t read(int fd, void *buf, size_t n) {
  if (!tracked(fd)) return fin(rsys(SYS_read, fd, (long)buf, n, 0, 0, 0));
  int ca = 0;
  long g = gate(OP_READ, n, &ca);
  if (g < 0) return -1;
  if (g > 0) n = g;
  return fin(rsys(SYS_read, fd, (long)buf, n, 0, 0, 0));
}
static ssize_t pread_(int fd, void *buf, size_t n, off_t off) {
  if (tracked(fd)) {
    int ca = 0;
    long g = gate(OP_READ, n, &ca);
    if (g < 0) return -1;
    if (g > 0) n = g;
  }
  return fin(rsys(SYS_pread64, fd, (long)buf, n, off, 0, 0));
}
ssize_t pread(int fd, void *buf, size_t n, off_t off) { return pread_(fd, buf, n, off); }
ssize_t pread64(int fd, void *buf, size_t n, off_t off) { return pread_(fd, buf, n, off); }
ssize_t readv(int fd, const struct iovec *iov, int c) {
  if (!tracked(fd)) return fin(rsys(SYS_readv, fd, (long)iov, c, 0, 0, 0));
  for (int i = 0; i < c; i++)
    if (iov[i].iov_len) return read(fd, iov[i].iov_base, iov[i].iov_len);
  return 0;
}
static ssize_t write_(int fd, const void *buf, size_t n, int64_t at) {
  int ca = 0;
  long g = gate(OP_WRITE, n, &ca);
  if (g == -2) return 0;
  if (g < 0) return -1;
  if (g > 0) n = g;
  if (quota >= 0 && n > 0) {
    if (quota == 0) { st_enospc++; errno = ENOSPC; return -1; }
    if ((int64_t)n > quota) n = quota;
    quota -= n;
  }
  int64_t off = at;
  if (at < 0) off = F[fd].append ? (int64_t)rsys(SYS_lseek, fd, 0, SEEK_END, 0, 0, 0) : (int64_t)rsys(SYS_lseek, fd, 0, SEEK_CUR, 0, 0, 0);
  ssize_t r = at < 0 ? fin(rsys(SYS_write, fd, (long)buf, n, 0, 0, 0)) : fin(rsys(SYS_pwrite64, fd, (long)buf, n, at, 0, 0));
  if (r > 0) logop(OP_WRITE, F[fd].path, NULL, off, r, buf);
  if (ca) crash_now();
  return r;
}
ssize_t write(int fd, const void *buf, size_t n) {
  if (!tracked(fd)) return fin(rsys(SYS_write, fd, (long)buf, n, 0, 0, 0));
  return write_(fd, buf, n, -1);
}
ssize_t pwrite(int fd, const void *buf, size_t n, off_t off) {
  if (!tracked(fd)) return fin(rsys(SYS_pwrite64, fd, (long)buf, n, off, 0, 0));
  return write_(fd, buf, n, off);
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off_t off) { return pwrite(fd, buf, n, off); }
ssize_t writev(int fd, const struct iovec *iov, int c) {
  if (!tracked(fd)) return fin(rsys(SYS_writev, fd, (long)iov, c, 0, 0, 0));
  for (int i = 0; i < c; i++)
    if (iov[i].iov_len) return write_(fd, iov[i].iov_base, iov[i].iov_len, -1);
  return 0;
}
int close(int fd) {
  if (tracked(fd)) {
    F[fd].on = 0;
    sim_point();
  }
  return (int)fin(rsys(SYS_close, fd, 0, 0, 0, 0, 0));
}
static int fsync_(int fd, long nr) {
  if (tracked(fd)) {
    int ca = 0;
    if (gate(OP_FSYNC, 0, &ca) < 0) return -1;
    logop(OP_FSYNC, F[fd].path, NULL, 0, 0, NULL);
    return 0;  // durability is decided by the simulated disk, not the host's
  }
  return (int)fin(rsys(nr, fd, 0, 0, 0, 0, 0));
}
int fsync(int fd) { return fsync_(fd, SYS_fsync); }
int fdatasync(int fd) { return fsync_(fd, SYS_fdatasync); }
int ftruncate(int fd, off_t len) {
  if (tracked(fd)) {
    int ca = 0;
    if (gate(OP_TRUNC, 0, &ca) < 0) return -1;
    logop(OP_TRUNC, F[fd].path, NULL, 0, len, NULL);
  }
  return (int)fin(rsys(SYS_ftruncate, fd, len, 0, 0, 0, 0));
}
int ftruncate64(int fd, off_t len) { return ftruncate(fd, len); }
static int rename_(int da, const char *a, int db, const char *b, unsigned fl) {
  char ca_[512], cb_[512];
  int oa = ours_at(da, a, ca_, sizeof ca_), ob = ours_at(db, b, cb_, sizeof cb_), ca = 0;
  if ((oa || ob) && gate(OP_RENAME, 0, &ca) < 0) return -1;
  long r = fin(rsys(SYS_renameat2, da, (long)a, db, (long)b, fl, 0));
  if (r == 0 && (oa || ob)) logop(OP_RENAME, ca_, cb_, 0, 0, NULL);
  return (int)r;
}
int rename(const char *a, const char *b) { return rename_(AT_FDCWD, a, AT_FDCWD, b, 0); }
int renameat(int da, const char *a, int db, const char *b) { return rename_(da, a, db, b, 0); }
int renameat2(int da, const char *a, int db, const char *b, unsigned fl) { return rename_(da, a, db, b, fl); }
static int unlink_(int d, const char *a, int fl) {
  char c[512];
  int ca = 0, o = ours_at(d, a, c, sizeof c);
  if (o && !(fl & AT_REMOVEDIR) && gate(OP_UNLINK, 0, &ca) < 0) return -1;
  long r = fin(rsys(SYS_unlinkat, d, (long)a, fl, 0, 0, 0));
  if (r == 0 && o && !(fl & AT_REMOVEDIR)) logop(OP_UNLINK, c, NULL, 0, 0, NULL);
  return (int)r;
}
int unlink(const char *a) { return unlink_(AT_FDCWD, a, 0); }
int unlinkat(int d, const char *a, int fl) { return unlink_(d, a, fl); }
int chdir(const char *p) {
  sim_point();
  return (int)fin(rsys(SYS_chdir, (long)p, 0, 0, 0, 0, 0));
}
// std::fs::copy fast paths: refuse, so that the copy goes through read and write
ssize_t copy_file_range(int i, off_t *oi, int o, off_t *oo, size_t n, unsigned f) {
  if (tracked(i) || tracked(o)) { errno = ENOSYS; return -1; }
  return fin(rsys(SYS_copy_file_range, i, (long)oi, o, (long)oo, n, f));
}
ssize_t sendfile64(int o, int i, off_t *off, size_t n) {
  if (tracked(i) || tracked(o)) { errno = EINVAL; return -1; }
  return fin(rsys(SYS_sendfile, o, i, (long)off, n, 0, 0));
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) { return sendfile64(o, i, off, n); }
ssize_t splice(int i, off_t *oi, int o, off_t *oo, size_t n, unsigned f) {
  if (tracked(i) || tracked(o)) { errno = EINVAL; return -1; }
  return fin(rsys(SYS_splice, i, (long)oi, o, (long)oo, n, f));
}
