// simos: a simulated operating system for one dinero process.
//
// Preloaded into the real `dinero` executable, it replaces every libc entry
// point through which the program meets the outside world -- files and
// directories, clocks, randomness (the hash keys of std's maps), terminal,
// stdout/stderr, the allocator -- by an in-memory world described in the file
// named by SIMOS_WORLD.  Nothing of the real file system is visible to the
// program.  What happens at each call (chunk sizes, faults, steps of
// concurrent writers, clock jumps) is fixed by the world file alone, so one
// world file is one exactly repeatable execution.  Everything observable is
// recorded in the shared-memory log named by SIMOS_LOG.
#define _GNU_SOURCE
#undef _FORTIFY_SOURCE
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pwd.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/utsname.h>
#include <time.h>
#include <unistd.h>

#define EXPORT __attribute__((visibility("default")))

// ---------------------------------------------------------------- raw calls
static long raw(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall"
                   : "=a"(r)
                   : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return r;
}
static void die(const char *m) {
  raw(SYS_write, 2, (long)m, (long)strlen(m), 0, 0, 0);
  raw(SYS_exit_group, 250, 0, 0, 0, 0, 0);
  __builtin_unreachable();
}

// ---------------------------------------------------------------- the log
// header: u32 magic, u32 done, u32 steps, u32 ev_len, u32 out_len, u32 err_len,
//         u32 flags, u32 nalloc, u32 faults_fired, u32 clock_reads, i64 clock_end,
//         u32 acts_fired, u32 trunc
#define LOG_SIZE (8u << 20)
#define EV_OFF 4096u
#define EV_CAP (2u << 20)
#define OUT_OFF (EV_OFF + EV_CAP)
#define OUT_CAP (4u << 20)
#define ERR_OFF (OUT_OFF + OUT_CAP)
#define ERR_CAP (1u << 20)
struct hdr {
  uint32_t magic, started, steps, ev_len, out_len, err_len, flags, nalloc, faults_fired,
      clock_reads;
  int64_t clock_end;
  uint32_t acts_fired, truncated, mutations, exited;
};
static struct hdr *H;
static char *L;
#define FLAG_STEPLIMIT 1u
#define FLAG_OUTLIMIT 2u

static void ev_raw(const char *s, size_t n) {
  if (H->ev_len + n + 1 > EV_CAP) {
    H->truncated = 1;
    return;
  }
  memcpy(L + EV_OFF + H->ev_len, s, n);
  H->ev_len += n;
}
static void ev(const char *fmt, ...) {
  char b[6000];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  if (n < 0) return;
  if (n > (int)sizeof b - 1) n = sizeof b - 1;
  ev_raw(b, (size_t)n);
}

// ---------------------------------------------------------------- the world
enum { T_FREE = 0, T_FILE, T_DIR, T_LINK, T_FIFO };
struct inode {
  int type;
  unsigned mode;
  char *data;
  size_t len;
  char *target;
};
struct dent {
  char *path; // canonical absolute path
  int ino;
};
#define MAXN 4096
static struct inode inodes[MAXN];
static int ninodes;
static struct dent dents[MAXN];
static int ndents;

struct fault {
  uint32_t step;
  int sticky; // 0 one shot, 1: every later call of the same op class, 2: every later call on the path
  char kind;  // E errno, S short transfer, Z zero-length (early EOF), B bad byte
  int arg;
  int armed; // becomes 1 once it fired (for sticky)
  char op[12];
  char path[1024];
};
#define MAXF 64
static struct fault faults[MAXF];
static int nfaults;

struct act {
  uint32_t step;
  char kind; // R replace, W in-place write, T truncate, U unlink, C create, M rename, D mkdir, K clock set, L symlink
  char *path, *path2, *data;
  size_t len;
  int64_t n;
  int done;
};
#define MAXA 256
static struct act acts[MAXA];
static int nacts;

static char cwd[PATH_MAX] = "/";
static uint64_t rnd_state = 1, dir_state = 1;
static int64_t clock_ns = 0, clock_step = 1000;
static int tty_mask = 0, tty_cols = 80, tty_rows = 24;
static uint32_t chunks_r[64], chunks_w[64];
static int nchunks_r, nchunks_w;
static uint32_t ichunk_r, ichunk_w;
static uint32_t eintr_every_r, eintr_every_w, dtype_unknown;
static uint32_t step_limit = 2000000;
static uint32_t alloc_fail_at, alloc_fail_sticky;
static uint32_t cpu_limit = 8;
static int ready = 0;
static uint64_t ident = 0;      // 0 plain; else who and where we are: pid, user, inode numbers, times, owners
static uint64_t heap_state = 0; // 0 plain; else blocks of the heap come in seeded order

static uint64_t splitmix(uint64_t *s) {
  uint64_t z = (*s += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

// an arena of our own: the simulated allocator must not serve the simulator
static char *ar_p, *ar_end;
static uint64_t mix(uint64_t a) {
  uint64_t s = ident ^ (a * 0x9e3779b97f4a7c15ull);
  return splitmix(&s);
}
// Numbers of inodes are distinct on one device only; files may lie on up to three devices.
static ino_t ino_nr(int ino) {
  if (!ident) return (ino_t)ino + 2;
  uint32_t x = (uint32_t)(mix(5) & 1 ? ino / 3 : ino);
  return (ino_t)((x + 2) * ((uint32_t)mix(1) | 1) ^ (uint32_t)mix(2)) + 1;
}
static void *ar(size_t n) {
  n = (n + 15) & ~(size_t)15;
  if (!ar_p || ar_p + n > ar_end) {
    size_t sz = n > (1u << 20) ? n : (1u << 20);
    long m = raw(SYS_mmap, 0, (long)sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (m < 0 && m > -4096) die("simos: mmap\n");
    ar_p = (char *)m;
    ar_end = ar_p + sz;
  }
  void *r = ar_p;
  ar_p += n;
  return r;
}
static char *ar_dup(const char *s, size_t n) {
  char *p = ar(n + 1);
  memcpy(p, s, n);
  p[n] = 0;
  return p;
}

static int find(const char *p) {
  for (int i = 0; i < ndents; i++)
    if (dents[i].path && strcmp(dents[i].path, p) == 0) return i;
  return -1;
}
static int new_inode(int type, unsigned mode, const char *data, size_t len) {
  if (ninodes >= MAXN) die("simos: too many inodes\n");
  int i = ninodes++;
  inodes[i].type = type;
  inodes[i].mode = mode;
  inodes[i].data = len ? ar_dup(data, len) : NULL;
  inodes[i].len = len;
  inodes[i].target = NULL;
  return i;
}
static void set_dent(const char *path, int ino) {
  int d = find(path);
  if (d < 0) {
    for (d = 0; d < ndents; d++)
      if (!dents[d].path) break;
    if (d == ndents) {
      if (ndents >= MAXN) die("simos: too many entries\n");
      ndents++;
    }
    dents[d].path = ar_dup(path, strlen(path));
  }
  dents[d].ino = ino;
}
static void del_dent(const char *path) {
  int d = find(path);
  if (d >= 0) dents[d].path = NULL;
}

// Resolve to a canonical path. Returns 0 or an errno. If `last_missing_ok`,
// a missing last component is fine (*ino = -1).
static int resolve_at(const char *base, const char *p, int follow, int last_missing_ok, char *out,
                      int *ino, int depth) {
  if (depth > 40) return ELOOP;
  size_t pl = strlen(p);
  if (pl == 0) return ENOENT;
  if (pl >= PATH_MAX) return ENAMETOOLONG;
  char cur[PATH_MAX * 2];
  if (p[0] == '/')
    strcpy(cur, "/");
  else
    strcpy(cur, base);
  int d = find(cur);
  if (d < 0) return ENOENT;
  const char *s = p;
  while (*s) {
    while (*s == '/') s++;
    if (!*s) {
      // trailing slash: must be a directory
      int k = find(cur);
      if (k >= 0 && inodes[dents[k].ino].type != T_DIR) return ENOTDIR;
      break;
    }
    const char *e = s;
    while (*e && *e != '/') e++;
    size_t n = (size_t)(e - s);
    if (n > 255) return ENAMETOOLONG;
    int k = find(cur);
    if (k < 0) return ENOENT;
    struct inode *in = &inodes[dents[k].ino];
    if (in->type != T_DIR) return ENOTDIR;
    if (!(in->mode & 0111)) return EACCES;
    if (n == 1 && s[0] == '.') {
      s = e;
      continue;
    }
    if (n == 2 && s[0] == '.' && s[1] == '.') {
      char *q = strrchr(cur, '/');
      if (q == cur)
        cur[1] = 0;
      else
        *q = 0;
      s = e;
      continue;
    }
    char nxt[PATH_MAX * 2];
    size_t cl = strlen(cur);
    if (cl + n + 2 >= PATH_MAX) return ENAMETOOLONG;
    memcpy(nxt, cur, cl);
    if (cl > 1) nxt[cl++] = '/';
    memcpy(nxt + cl, s, n);
    nxt[cl + n] = 0;
    const char *rest = e;
    while (*rest == '/') rest++;
    int last = !*rest;
    int j = find(nxt);
    if (j < 0) {
      if (last && last_missing_ok) {
        strcpy(out, nxt);
        *ino = -1;
        return 0;
      }
      return ENOENT;
    }
    struct inode *jn = &inodes[dents[j].ino];
    if (jn->type == T_LINK && (!last || follow || *e == '/')) {
      char res[PATH_MAX * 2];
      int ri;
      int r = resolve_at(cur, jn->target, 1, 0, res, &ri, depth + 1);
      if (r) return r;
      strcpy(cur, res);
    } else
      strcpy(cur, nxt);
    s = e;
  }
  int k = find(cur);
  if (k < 0) return ENOENT;
  strcpy(out, cur);
  *ino = dents[k].ino;
  return 0;
}
static int resolve(const char *p, int follow, int missing_ok, char *out, int *ino) {
  return resolve_at(cwd, p, follow, missing_ok, out, ino, 0);
}

// ---------------------------------------------------------------- fds
#define FD0 700000
#define MAXFD 256
struct vfd {
  int used, ino, isdir, wr;
  size_t off;
  char path[1024];
};
static struct vfd fds[MAXFD];
static struct vfd *vf(int fd) {
  if (fd < FD0 || fd >= FD0 + MAXFD || !fds[fd - FD0].used) return NULL;
  return &fds[fd - FD0];
}
static int new_fd(int ino, int isdir, const char *path) {
  for (int i = 0; i < MAXFD; i++)
    if (!fds[i].used) {
      fds[i].used = 1;
      fds[i].ino = ino;
      fds[i].isdir = isdir;
      fds[i].off = 0;
      fds[i].wr = 0;
      strncpy(fds[i].path, path, sizeof fds[i].path - 1);
      fds[i].path[sizeof fds[i].path - 1] = 0;
      return FD0 + i;
    }
  errno = EMFILE;
  return -1;
}

// ---------------------------------------------------------------- steps
static void run_acts(void) {
  for (int i = 0; i < nacts; i++) {
    struct act *a = &acts[i];
    if (a->done || a->step > H->steps) continue;
    a->done = 1;
    H->acts_fired++;
    char b[PATH_MAX * 2];
    int ino;
    switch (a->kind) {
    case 'R': // atomic replace: the name now denotes a new inode
    case 'C':
      set_dent(a->path, new_inode(T_FILE, 0644, a->data, a->len));
      break;
    case 'W': // in-place overwrite of the whole content (non-atomic editors)
      if (!resolve(a->path, 1, 0, b, &ino) && inodes[ino].type == T_FILE) {
        inodes[ino].data = a->len ? ar_dup(a->data, a->len) : NULL;
        inodes[ino].len = a->len;
      }
      break;
    case 'T':
      if (!resolve(a->path, 1, 0, b, &ino) && inodes[ino].type == T_FILE &&
          inodes[ino].len > (size_t)a->n)
        inodes[ino].len = (size_t)a->n;
      break;
    case 'U':
      del_dent(a->path);
      break;
    case 'M': {
      int d = find(a->path);
      if (d >= 0) {
        int in = dents[d].ino;
        dents[d].path = NULL;
        set_dent(a->path2, in);
      }
      break;
    }
    case 'D':
      set_dent(a->path, new_inode(T_DIR, 0755, NULL, 0));
      break;
    case 'K':
      clock_ns = a->n;
      break;
    }
    ev("A %u %c %s\n", H->steps, a->kind, a->path ? a->path : "-");
  }
}

static uint32_t delivered; // writes that got some of the report out; the size of the report bounds them

// Begin one intercepted operation. Returns the fault that applies, or NULL.
static struct fault *begin(const char *op, const char *path) {
  H->steps++;
  clock_ns += clock_step;
  H->clock_end = clock_ns;
  if (H->steps - delivered > step_limit) {
    H->flags |= FLAG_STEPLIMIT;
    raw(SYS_exit_group, 251, 0, 0, 0, 0, 0);
  }
  run_acts();
  for (int i = 0; i < nfaults; i++) {
    struct fault *f = &faults[i];
    if (f->armed) {
      if (f->sticky == 1 && strcmp(f->op, op) == 0) {
        H->faults_fired++;
        return f;
      }
      if (f->sticky == 2 && path && strcmp(f->path, path) == 0) {
        H->faults_fired++;
        return f;
      }
    } else if (f->step == H->steps) {
      f->armed = 1;
      strncpy(f->op, op, sizeof f->op - 1);
      strncpy(f->path, path ? path : "", sizeof f->path - 1);
      H->faults_fired++;
      return f;
    }
  }
  return NULL;
}
static int ferr(struct fault *f) { return f && f->kind == 'E' ? f->arg : 0; }

// log line: step op path result
static long fin(const char *op, const char *path, long ret, int err) {
  ev("%u %s %s %ld%s%d\n", H->steps, op, path ? path : "-", ret, err ? " e" : " ", err);
  if (err) {
    errno = err;
    return -1;
  }
  return ret;
}
static void mutation(const char *op, const char *path) {
  H->mutations++;
  ev("! %u %s %s\n", H->steps, op, path ? path : "-");
}

// ---------------------------------------------------------------- world file
static const char *W, *WE;
static void parse_world(void);
static const char *word(char *buf, size_t cap) {
  while (W < WE && (*W == ' ')) W++;
  size_t n = 0;
  while (W < WE && *W != ' ' && *W != '\n') {
    if (n + 1 < cap) buf[n++] = *W;
    W++;
  }
  buf[n] = 0;
  return buf;
}
static const char *pword(char *buf, size_t cap) { // a path: %XX decodes to a byte
  word(buf, cap);
  char *o = buf;
  for (char *p = buf; *p; p++) {
    if (*p == '%' && p[1] && p[2]) {
      char h[3] = {p[1], p[2], 0};
      *o++ = (char)strtol(h, NULL, 16);
      p += 2;
    } else
      *o++ = *p;
  }
  *o = 0;
  return buf;
}
static int64_t num(void) {
  char b[64];
  word(b, sizeof b);
  return strtoll(b, NULL, 10);
}
static void nl(void) {
  while (W < WE && *W != '\n') W++;
  if (W < WE) W++;
}
static char *blob(size_t *len) { // "<n>" then after newline n bytes then newline
  size_t n = (size_t)num();
  nl();
  if (W + n > WE) die("simos: world truncated\n");
  char *p = ar_dup(W, n);
  W += n;
  nl();
  if (len) *len = n;
  return p;
}
static void parse_world(void) {
  char t[32], p[4096];
  set_dent("/", new_inode(T_DIR, 0755, NULL, 0));
  while (W < WE) {
    word(t, sizeof t);
    if (!strcmp(t, "seed")) {
      char b[64];
      word(b, sizeof b);
      rnd_state = strtoull(b, NULL, 10);
      nl();
    } else if (!strcmp(t, "dirseed")) {
      char b[64];
      word(b, sizeof b);
      dir_state = strtoull(b, NULL, 10);
      nl();
    } else if (!strcmp(t, "ident")) {
      char b[64];
      word(b, sizeof b);
      ident = strtoull(b, NULL, 10);
      nl();
    } else if (!strcmp(t, "heap")) {
      char b[64];
      word(b, sizeof b);
      heap_state = strtoull(b, NULL, 10);
      nl();
    } else if (!strcmp(t, "clock")) {
      clock_ns = num();
      clock_step = num();
      nl();
    } else if (!strcmp(t, "tty")) {
      tty_mask = (int)num();
      tty_cols = (int)num();
      tty_rows = (int)num();
      nl();
    } else if (!strcmp(t, "cwd")) {
      pword(cwd, sizeof cwd);
      nl();
    } else if (!strcmp(t, "chunkr")) {
      nchunks_r = (int)num();
      for (int i = 0; i < nchunks_r && i < 64; i++) chunks_r[i] = (uint32_t)num();
      nl();
    } else if (!strcmp(t, "chunkw")) {
      nchunks_w = (int)num();
      for (int i = 0; i < nchunks_w && i < 64; i++) chunks_w[i] = (uint32_t)num();
      nl();
    } else if (!strcmp(t, "eintr")) {
      eintr_every_r = (uint32_t)num();
      eintr_every_w = (uint32_t)num();
      nl();
    } else if (!strcmp(t, "dtunknown")) {
      dtype_unknown = (uint32_t)num();
      nl();
    } else if (!strcmp(t, "limit")) {
      step_limit = (uint32_t)num();
      cpu_limit = (uint32_t)num();
      nl();
    } else if (!strcmp(t, "alloc")) {
      alloc_fail_at = (uint32_t)num();
      alloc_fail_sticky = (uint32_t)num();
      nl();
    } else if (!strcmp(t, "dir")) {
      unsigned mode = (unsigned)num();
      pword(p, sizeof p);
      nl();
      set_dent(p, new_inode(T_DIR, mode, NULL, 0));
    } else if (!strcmp(t, "file")) {
      unsigned mode = (unsigned)num();
      pword(p, sizeof p);
      size_t n;
      char *d = blob(&n);
      set_dent(p, new_inode(T_FILE, mode, d, n));
    } else if (!strcmp(t, "link")) {
      pword(p, sizeof p);
      char q[4096];
      pword(q, sizeof q);
      nl();
      int i = new_inode(T_LINK, 0777, NULL, 0);
      inodes[i].target = ar_dup(q, strlen(q));
      set_dent(p, i);
    } else if (!strcmp(t, "fault")) {
      if (nfaults >= MAXF) die("simos: faults\n");
      struct fault *f = &faults[nfaults++];
      f->step = (uint32_t)num();
      f->sticky = (int)num();
      word(p, sizeof p);
      f->kind = p[0];
      f->arg = (int)num();
      nl();
    } else if (!strcmp(t, "act")) {
      if (nacts >= MAXA) die("simos: acts\n");
      struct act *a = &acts[nacts++];
      a->step = (uint32_t)num();
      word(p, sizeof p);
      a->kind = p[0];
      pword(p, sizeof p);
      a->path = ar_dup(p, strlen(p));
      if (a->kind == 'R' || a->kind == 'C' || a->kind == 'W')
        a->data = blob(&a->len);
      else if (a->kind == 'M') {
        pword(p, sizeof p);
        a->path2 = ar_dup(p, strlen(p));
        nl();
      } else if (a->kind == 'T' || a->kind == 'K') {
        a->n = num();
        nl();
      } else
        nl();
    } else if (t[0] == 0) {
      nl();
    } else
      die("simos: bad world\n");
  }
}

static void init(void) {
  if (ready) return;
  ready = 1;
  char *wp = NULL, *lp = NULL;
  for (char **e = environ; e && *e; e++) {
    if (!strncmp(*e, "SIMOS_WORLD=", 12)) wp = *e + 12;
    if (!strncmp(*e, "SIMOS_LOG=", 10)) lp = *e + 10;
  }
  if (!wp || !lp) die("simos: no world\n");
  long fd = raw(SYS_openat, AT_FDCWD, (long)lp, O_RDWR | O_CREAT | O_CLOEXEC, 0600, 0, 0);
  if (fd < 0) die("simos: log\n");
  raw(SYS_ftruncate, fd, LOG_SIZE, 0, 0, 0, 0);
  long m = raw(SYS_mmap, 0, LOG_SIZE, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  if (m < 0 && m > -4096) die("simos: map log\n");
  raw(SYS_close, fd, 0, 0, 0, 0, 0);
  L = (char *)m;
  H = (struct hdr *)L;
  memset(H, 0, sizeof *H);
  H->magic = 0x53494d31;
  fd = raw(SYS_openat, AT_FDCWD, (long)wp, O_RDONLY | O_CLOEXEC, 0, 0, 0);
  if (fd < 0) die("simos: world open\n");
  long sz = raw(SYS_lseek, fd, 0, SEEK_END, 0, 0, 0);
  char *buf = ar((size_t)sz + 1);
  raw(SYS_lseek, fd, 0, SEEK_SET, 0, 0, 0);
  long got = 0;
  while (got < sz) {
    long r = raw(SYS_read, fd, (long)(buf + got), sz - got, 0, 0, 0);
    if (r <= 0) die("simos: world read\n");
    got += r;
  }
  raw(SYS_close, fd, 0, 0, 0, 0, 0);
  W = buf;
  WE = buf + sz;
  parse_world();
  H->clock_end = clock_ns;
  struct rlimit rl = {0, 0};
  raw(SYS_setrlimit, RLIMIT_CORE, (long)&rl, 0, 0, 0, 0);
  rl.rlim_cur = cpu_limit;
  rl.rlim_max = cpu_limit + 1;
  raw(SYS_setrlimit, RLIMIT_CPU, (long)&rl, 0, 0, 0, 0);
  rl.rlim_cur = rl.rlim_max = 3ul << 30;
  raw(SYS_setrlimit, RLIMIT_AS, (long)&rl, 0, 0, 0, 0);
  raw(SYS_alarm, cpu_limit * 10, 0, 0, 0, 0, 0);
  // the program sees neither the simulator's variables nor the preload
  char **o = environ;
  for (char **e = environ; e && *e; e++)
    if (strncmp(*e, "SIMOS_", 6) && strncmp(*e, "LD_PRELOAD=", 11)) *o++ = *e;
  if (o) *o = NULL;
  H->started = 1;
}
__attribute__((constructor(101))) static void ctor(void) { init(); }

// ---------------------------------------------------------------- allocator
// A heap of our own at a fixed address, so that addresses are the same in every run of a world
// and, with a heap seed, come in another order and on other places of the page.
struct blk {
  uint32_t cls, magic;
  uint64_t size;
};
#define BLK_MAGIC 0xb10c51d0u
#define NCLS 160
#define HEAP_BASE 0x300000000000ul
static char *hp_cur, *hp_end;
static struct fre {
  struct fre *next;
} *hp_free[NCLS];
static uint64_t cls_size(uint32_t c) { // 16, 32, 48 ... 1024, then four steps per doubling
  if (c < 64) return (uint64_t)(c + 1) * 16;
  uint32_t d = (c - 64) / 4, q = (c - 64) % 4;
  return (1024ull << d) + (256ull << d) * (q + 1);
}
static uint32_t cls_of(uint64_t n) {
  if (n <= 1024) return n ? (uint32_t)((n - 1) / 16) : 0;
  uint32_t c = 64;
  uint32_t top = 63u - (uint32_t)__builtin_clzll((n - 1) | 1024);
  c = 64 + (top - 10) * 4;
  while (cls_size(c) < n) c++;
  return c;
}
static int hp_lock;
static void *carve(uint64_t n) { // n is a multiple of 16
  if (!hp_cur || n > (uint64_t)(hp_end - hp_cur)) {
    uint64_t want = n + 4096 > (8ull << 20) ? ((n + 4096 + 4095) & ~4095ull) : (8ull << 20);
    char *at = hp_end ? hp_end : (char *)HEAP_BASE;
    long m = raw(SYS_mmap, (long)at, (long)want, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
    if (m < 0 && m > -4096) return NULL;
    if (!hp_end) hp_cur = at;
    hp_end = at + want;
  }
  void *r = hp_cur;
  hp_cur += n;
  return r;
}
static void *take(uint32_t c) {
  struct fre *f = hp_free[c];
  if (f) {
    hp_free[c] = f->next;
    return f;
  }
  struct blk *b = carve(sizeof *b + cls_size(c));
  if (!b) return NULL;
  b->cls = c;
  b->magic = BLK_MAGIC;
  return b + 1;
}
static void give(uint32_t c, void *p) {
  struct fre *f = p;
  f->next = hp_free[c];
  hp_free[c] = f;
}
static void lock(void) { while (__atomic_exchange_n(&hp_lock, 1, __ATOMIC_ACQUIRE)) ; }
static void unlock(void) { __atomic_store_n(&hp_lock, 0, __ATOMIC_RELEASE); }
static void *sim_malloc(size_t n) {
  if (n > (1ull << 40)) {
    errno = ENOMEM;
    return NULL;
  }
  uint32_t c = cls_of(n);
  lock();
  if (heap_state && c < 64) { // lay out up to three blocks, keep one of them
    uint64_t r = splitmix(&heap_state);
    void *x[3];
    int k = (int)(r % 3);
    for (int i = 0; i < k; i++) x[i] = take(c);
    void *p = take(c);
    for (int i = 0; i < k; i++)
      if (x[i]) give(c, x[i]);
    if (p) {
      memset(p, (int)(r >> 8 & 0xff), cls_size(c));
      ((struct blk *)p - 1)->size = n;
    }
    unlock();
    if (!p) errno = ENOMEM;
    return p;
  }
  void *p = take(c);
  if (p) ((struct blk *)p - 1)->size = n;
  unlock();
  if (!p) errno = ENOMEM;
  return p;
}
static struct blk *blk_of(void *p) {
  struct blk *b = (struct blk *)p - 1;
  if (b->magic != BLK_MAGIC) die("simos: bad free\n");
  return b;
}
EXPORT void free(void *p) {
  if (!p) return;
  struct blk *b = blk_of(p);
  lock();
  uint32_t c = b->cls;
  if (c == NCLS) { // an aligned block: its real block is noted in front of it
    p = (void *)b->size;
    b->magic = 0;
    c = ((struct blk *)p - 1)->cls;
  }
  give(c, p);
  unlock();
}
static void *sim_calloc(size_t a, size_t n) {
  if (n && a > (size_t)-1 / n) {
    errno = ENOMEM;
    return NULL;
  }
  void *p = sim_malloc(a * n);
  if (p) memset(p, 0, a * n);
  return p;
}
static size_t room(void *p) {
  struct blk *b = blk_of(p);
  if (b->cls < NCLS) return cls_size(b->cls);
  char *q = (char *)b->size;
  return cls_size(((struct blk *)q - 1)->cls) - (size_t)((char *)p - q);
}
static void *sim_realloc(void *p, size_t n) {
  if (!p) return sim_malloc(n);
  size_t old = room(p);
  if (n <= old && (n >= old / 2 || n <= 64) && !heap_state) return p;
  void *q = sim_malloc(n);
  if (!q) return NULL;
  memcpy(q, p, n < old ? n : old);
  free(p);
  return q;
}
static void *sim_memalign(size_t a, size_t n) {
  if (a <= 16) return sim_malloc(n);
  char *p = sim_malloc(n + a + 32);
  if (!p) return NULL;
  char *q = (char *)(((uint64_t)p + 32 + a - 1) & ~(uint64_t)(a - 1));
  struct blk *b = (struct blk *)q - 1;
  b->cls = NCLS;
  b->magic = BLK_MAGIC;
  b->size = (uint64_t)p;
  return q;
}
static int alloc_fails(void) {
  if (!H || !H->started) return 0;
  uint32_t n = ++H->nalloc;
  if (!alloc_fail_at) return 0;
  if (n == alloc_fail_at || (alloc_fail_sticky && n > alloc_fail_at)) {
    H->faults_fired++;
    errno = ENOMEM;
    return 1;
  }
  return 0;
}
EXPORT void *malloc(size_t n) { return alloc_fails() ? NULL : sim_malloc(n); }
EXPORT void *calloc(size_t a, size_t b) { return alloc_fails() ? NULL : sim_calloc(a, b); }
EXPORT void *realloc(void *p, size_t n) { return alloc_fails() ? NULL : sim_realloc(p, n); }
EXPORT int posix_memalign(void **p, size_t a, size_t n) {
  if (alloc_fails()) return ENOMEM;
  *p = sim_memalign(a, n);
  return *p ? 0 : ENOMEM;
}
EXPORT void *memalign(size_t a, size_t n) { return alloc_fails() ? NULL : sim_memalign(a, n); }
EXPORT void *aligned_alloc(size_t a, size_t n) { return alloc_fails() ? NULL : sim_memalign(a, n); }
EXPORT void *valloc(size_t n) { return alloc_fails() ? NULL : sim_memalign(4096, n); }
EXPORT void *pvalloc(size_t n) { return valloc((n + 4095) & ~(size_t)4095); }
EXPORT size_t malloc_usable_size(void *p) { return p ? room(p) : 0; }

// ---------------------------------------------------------------- files
static int do_open(const char *path, int flags, unsigned mode) {
  init();
  struct fault *f = begin("open", path);
  int acc = flags & O_ACCMODE;
  int mut = (acc != O_RDONLY) || (flags & (O_CREAT | O_TRUNC));
  if (mut) mutation("open-for-write", path);
  if (ferr(f)) return (int)fin("open", path, -1, ferr(f));
  char c[PATH_MAX * 2];
  int ino;
  int r = resolve(path, !(flags & O_NOFOLLOW), (flags & O_CREAT) != 0, c, &ino);
  if (r) return (int)fin("open", path, -1, r);
  if (ino < 0) {
    ino = new_inode(T_FILE, mode & 0777, NULL, 0);
    set_dent(c, ino);
  } else if ((flags & O_CREAT) && (flags & O_EXCL))
    return (int)fin("open", path, -1, EEXIST);
  struct inode *in = &inodes[ino];
  if (in->type == T_LINK) return (int)fin("open", path, -1, ELOOP);
  if (in->type == T_DIR && acc != O_RDONLY) return (int)fin("open", path, -1, EISDIR);
  if (in->type != T_DIR && (flags & O_DIRECTORY)) return (int)fin("open", path, -1, ENOTDIR);
  if (acc != O_WRONLY && !(in->mode & 0444)) return (int)fin("open", path, -1, EACCES);
  if ((flags & O_TRUNC) && in->type == T_FILE) in->len = 0;
  int fd = new_fd(ino, in->type == T_DIR, path);
  if (fd < 0) return (int)fin("open", path, -1, EMFILE);
  vf(fd)->wr = acc != O_RDONLY;
  if (flags & O_APPEND) vf(fd)->off = in->len;
  return (int)fin("open", path, fd, 0);
}
#define OPENBODY                                                                                   \
  unsigned mode = 0;                                                                               \
  if (flags & (O_CREAT | __O_TMPFILE)) {                                                           \
    va_list ap;                                                                                    \
    va_start(ap, flags);                                                                           \
    mode = va_arg(ap, unsigned);                                                                   \
    va_end(ap);                                                                                    \
  }
EXPORT int open(const char *p, int flags, ...) { OPENBODY return do_open(p, flags, mode); }
EXPORT int open64(const char *p, int flags, ...) { OPENBODY return do_open(p, flags, mode); }
static void at_path(int dfd, const char *p, char *out) {
  struct vfd *v = vf(dfd);
  if (p[0] != '/' && v)
    snprintf(out, PATH_MAX * 2, "%s/%s", v->path, p);
  else
    snprintf(out, PATH_MAX * 2, "%s", p);
}
EXPORT int openat(int d, const char *p, int flags, ...) {
  OPENBODY char b[PATH_MAX * 2];
  at_path(d, p, b);
  return do_open(b, flags, mode);
}
EXPORT int openat64(int d, const char *p, int flags, ...) {
  OPENBODY char b[PATH_MAX * 2];
  at_path(d, p, b);
  return do_open(b, flags, mode);
}
EXPORT int creat(const char *p, mode_t m) { return do_open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
EXPORT int creat64(const char *p, mode_t m) { return do_open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }

static long do_read(struct vfd *v, void *buf, size_t n, off_t *at) {
  struct fault *f = begin("read", v->path);
  if (ferr(f)) return fin("read", v->path, -1, ferr(f));
  if (v->isdir) return fin("read", v->path, -1, EISDIR);
  if (eintr_every_r && (splitmix(&dir_state) % eintr_every_r) == 0)
    return fin("read", v->path, -1, EINTR);
  struct inode *in = &inodes[v->ino];
  size_t off = at ? (size_t)*at : v->off;
  size_t av = off < in->len ? in->len - off : 0;
  if (av > n) av = n;
  if (nchunks_r && av) {
    uint32_t c = chunks_r[ichunk_r++ % (uint32_t)nchunks_r];
    if (c && av > c) av = c;
  }
  if (f && f->kind == 'S' && av > (size_t)f->arg) av = (size_t)f->arg;
  if (f && f->kind == 'Z') av = 0;
  memcpy(buf, in->data + off, av);
  if (f && f->kind == 'B' && av) ((unsigned char *)buf)[(size_t)f->arg % av] = 0xff;
  if (!at) v->off += av;
  return fin("read", v->path, (long)av, 0);
}
EXPORT ssize_t read(int fd, void *buf, size_t n) {
  init();
  struct vfd *v = vf(fd);
  if (v) return do_read(v, buf, n, NULL);
  begin("read", "<fd>");
  if (fd == 0) return fin("read", "<stdin>", 0, 0); // stdin is always at end of file
  return fin("read", "<fd>", -1, EBADF);
}
EXPORT ssize_t pread64(int fd, void *buf, size_t n, off64_t o) {
  struct vfd *v = vf(fd);
  if (v) return do_read(v, buf, n, &o);
  begin("read", "<fd>");
  return fin("read", "<fd>", -1, EBADF);
}
EXPORT ssize_t pread(int fd, void *buf, size_t n, off_t o) { return pread64(fd, buf, n, o); }
EXPORT ssize_t readv(int fd, const struct iovec *iov, int cnt) {
  for (int i = 0; i < cnt; i++)
    if (iov[i].iov_len) return read(fd, iov[i].iov_base, iov[i].iov_len);
  return 0;
}
EXPORT off64_t lseek64(int fd, off64_t o, int wh) {
  struct vfd *v = vf(fd);
  begin("lseek", v ? v->path : "<fd>");
  if (!v) return fin("lseek", "<fd>", -1, ESPIPE);
  long base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (long)v->off : (long)inodes[v->ino].len;
  if (base + o < 0) return fin("lseek", v->path, -1, EINVAL);
  v->off = (size_t)(base + o);
  return fin("lseek", v->path, (long)v->off, 0);
}
EXPORT off_t lseek(int fd, off_t o, int wh) { return lseek64(fd, o, wh); }
EXPORT int close(int fd) {
  init();
  struct vfd *v = vf(fd);
  if (!v) {
    if (fd >= FD0) {
      errno = EBADF;
      return -1;
    }
    return (int)0; // stdio fds stay open in the simulation
  }
  begin("close", v->path);
  v->used = 0;
  return (int)fin("close", v->path, 0, 0);
}

// stdout / stderr and virtual files opened for writing
static long emit(int fd, const char *buf, size_t n, size_t total) {
  const char *nm = fd == 1 ? "<stdout>" : "<stderr>";
  struct fault *f = begin(fd == 1 ? "write1" : "write2", nm);
  if (ferr(f)) return fin(fd == 1 ? "write1" : "write2", nm, -1, ferr(f));
  if (eintr_every_w && (splitmix(&dir_state) % eintr_every_w) == 0)
    return fin(fd == 1 ? "write1" : "write2", nm, -1, EINTR);
  if (nchunks_w && n) {
    uint32_t c = chunks_w[ichunk_w++ % (uint32_t)nchunks_w];
    if (c && n > c) n = c;
  }
  if (f && f->kind == 'S' && n > (size_t)f->arg) n = (size_t)f->arg;
  if (f && f->kind == 'Z') n = 0;
  uint32_t *len = fd == 1 ? &H->out_len : &H->err_len;
  uint32_t off = fd == 1 ? OUT_OFF : ERR_OFF, cap = fd == 1 ? OUT_CAP : ERR_CAP;
  if (*len + n > cap) {
    if (fd == 2) { // diagnostics beyond the cap are dropped, not an error
      return fin("write2", nm, (long)n, 0);
    }
    H->flags |= FLAG_OUTLIMIT;
    raw(SYS_exit_group, 251, 0, 0, 0, 0, 0);
  }
  memcpy(L + off + *len, buf, n);
  *len += n;
  if (fd == 1 && n) delivered++;
  (void)total;
  return fin(fd == 1 ? "write1" : "write2", nm, (long)n, 0);
}
EXPORT ssize_t write(int fd, const void *buf, size_t n) {
  init();
  if (fd == 1 || fd == 2) return emit(fd, buf, n, n);
  struct vfd *v = vf(fd);
  begin("write", v ? v->path : "<fd>");
  mutation("write", v ? v->path : "<fd>");
  if (!v) return fin("write", "<fd>", -1, EBADF);
  struct inode *in = &inodes[v->ino];
  size_t need = v->off + n;
  if (need > in->len) {
    char *d = ar(need);
    memset(d, 0, need);
    if (in->len) memcpy(d, in->data, in->len);
    in->data = d;
    in->len = need;
  }
  memcpy(in->data + v->off, buf, n);
  v->off += n;
  return fin("write", v->path, (long)n, 0);
}
EXPORT ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
  struct vfd *v = vf(fd);
  if (v) v->off = (size_t)o;
  return write(fd, b, n);
}
EXPORT ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
EXPORT ssize_t writev(int fd, const struct iovec *iov, int cnt) {
  char b[1 << 16];
  size_t n = 0;
  for (int i = 0; i < cnt; i++) {
    size_t k = iov[i].iov_len;
    if (n + k > sizeof b) k = sizeof b - n;
    memcpy(b + n, iov[i].iov_base, k);
    n += k;
    if (n == sizeof b) break;
  }
  return write(fd, b, n);
}
EXPORT int fsync(int fd) {
  (void)fd;
  begin("fsync", "-");
  return 0;
}
EXPORT int fdatasync(int fd) { return fsync(fd); }

// ---------------------------------------------------------------- stat
static unsigned tmode(struct inode *in) {
  return (in->type == T_DIR ? S_IFDIR : in->type == T_LINK ? S_IFLNK : S_IFREG) | in->mode;
}
static int do_stat(const char *path, int follow, struct inode **out, int *ino) {
  struct fault *f = begin("stat", path);
  if (ferr(f)) return (int)fin("stat", path, -1, ferr(f));
  char c[PATH_MAX * 2];
  int r = resolve(path, follow, 0, c, ino);
  if (r) return (int)fin("stat", path, -1, r);
  *out = &inodes[*ino];
  return (int)fin("stat", path, 0, 0);
}
static int do_fstat(int fd, struct inode **out, int *ino) {
  struct vfd *v = vf(fd);
  struct fault *f = begin("fstat", v ? v->path : "<fd>");
  if (ferr(f)) return (int)fin("fstat", v ? v->path : "<fd>", -1, ferr(f));
  if (!v) {
    *out = NULL;
    return fd >= 0 && fd <= 2 ? 0 : (int)fin("fstat", "<fd>", -1, EBADF);
  }
  *ino = v->ino;
  *out = &inodes[v->ino];
  return (int)fin("fstat", v->path, 0, 0);
}
static void fill(struct stat64 *s, struct inode *in, int ino) {
  memset(s, 0, sizeof *s);
  if (!in) {
    s->st_mode = S_IFCHR | 0620;
    return;
  }
  s->st_dev = 1;
  s->st_ino = ino_nr(ino);
  if (ident) {
    uint64_t r = mix((uint64_t)ino + 100), q = mix((uint64_t)ino + 5000);
    s->st_dev = 1 + mix(3) % 64 + (mix(5) & 1 ? (uint64_t)ino % 3 : 0);
    s->st_uid = r % 3 ? 1000 : (uid_t)(r >> 8 & 0xffff);
    s->st_gid = r % 5 ? 1000 : (gid_t)(r >> 24 & 0xffff);
    s->st_mtim.tv_sec = (time_t)(q % 4 == 0 ? 0 : q % 4 == 1 ? 2000000000 + (q >> 40) : 1500000000 + (q >> 37));
    s->st_mtim.tv_nsec = (long)(r >> 34) % 1000000000;
    s->st_atim.tv_sec = s->st_mtim.tv_sec + (time_t)(r >> 44);
    s->st_ctim.tv_sec = s->st_mtim.tv_sec + (time_t)(q >> 50);
  }
  s->st_mode = tmode(in);
  s->st_nlink = 1;
  s->st_size = (off_t)(in->type == T_LINK ? strlen(in->target) : in->len);
  s->st_blksize = ident ? 512 << mix(4) % 9 : 4096;
  s->st_blocks = (s->st_size + 511) / 512;
}
EXPORT int stat64(const char *p, struct stat64 *s) {
  struct inode *in;
  int ino;
  int r = do_stat(p, 1, &in, &ino);
  if (!r) fill(s, in, ino);
  return r;
}
EXPORT int stat(const char *p, struct stat *s) { return stat64(p, (struct stat64 *)s); }
EXPORT int lstat64(const char *p, struct stat64 *s) {
  struct inode *in;
  int ino;
  int r = do_stat(p, 0, &in, &ino);
  if (!r) fill(s, in, ino);
  return r;
}
EXPORT int lstat(const char *p, struct stat *s) { return lstat64(p, (struct stat64 *)s); }
EXPORT int fstat64(int fd, struct stat64 *s) {
  struct inode *in;
  int ino = 0;
  int r = do_fstat(fd, &in, &ino);
  if (!r) fill(s, in, ino);
  return r;
}
EXPORT int fstat(int fd, struct stat *s) { return fstat64(fd, (struct stat64 *)s); }
EXPORT int fstatat64(int d, const char *p, struct stat64 *s, int fl) {
  if ((fl & AT_EMPTY_PATH) && !*p) return fstat64(d, s);
  char b[PATH_MAX * 2];
  at_path(d, p, b);
  return (fl & AT_SYMLINK_NOFOLLOW) ? lstat64(b, s) : stat64(b, s);
}
EXPORT int fstatat(int d, const char *p, struct stat *s, int fl) {
  return fstatat64(d, p, (struct stat64 *)s, fl);
}
EXPORT int statx(int d, const char *restrict p, int fl, unsigned mask, struct statx *restrict sx) {
  init();
  (void)mask;
  const void *volatile vp = p, *volatile vx = sx; // the prototype says nonnull; std probes with NULL
  if (!vp || !vx) {
    errno = EFAULT;
    return -1;
  }
  struct stat64 s;
  int r = fstatat64(d, p, &s, fl);
  if (r) return r;
  memset(sx, 0, sizeof *sx);
  sx->stx_mask = STATX_BASIC_STATS;
  sx->stx_blksize = (uint32_t)s.st_blksize;
  sx->stx_nlink = 1;
  sx->stx_uid = s.st_uid;
  sx->stx_gid = s.st_gid;
  sx->stx_mtime.tv_sec = s.st_mtim.tv_sec;
  sx->stx_mtime.tv_nsec = (uint32_t)s.st_mtim.tv_nsec;
  sx->stx_atime.tv_sec = s.st_atim.tv_sec;
  sx->stx_ctime.tv_sec = s.st_ctim.tv_sec;
  if (ident) {
    sx->stx_mask |= STATX_BTIME;
    sx->stx_btime.tv_sec = s.st_mtim.tv_sec - 5;
  }
  sx->stx_mode = (uint16_t)s.st_mode;
  sx->stx_ino = s.st_ino;
  sx->stx_size = (uint64_t)s.st_size;
  sx->stx_blocks = (uint64_t)s.st_blocks;
  sx->stx_dev_major = (uint32_t)s.st_dev;
  return 0;
}
EXPORT int access(const char *p, int m) {
  struct inode *in;
  int ino;
  (void)m;
  return do_stat(p, 1, &in, &ino);
}
EXPORT int faccessat(int d, const char *p, int m, int fl) {
  (void)fl;
  char b[PATH_MAX * 2];
  at_path(d, p, b);
  return access(b, m);
}
EXPORT ssize_t readlink(const char *restrict p, char *restrict buf, size_t n) {
  init();
  struct fault *f = begin("readlink", p);
  if (ferr(f)) return fin("readlink", p, -1, ferr(f));
  char c[PATH_MAX * 2];
  int ino;
  int r = resolve(p, 0, 0, c, &ino);
  if (r) return fin("readlink", p, -1, r);
  if (inodes[ino].type != T_LINK) return fin("readlink", p, -1, EINVAL);
  size_t k = strlen(inodes[ino].target);
  if (k > n) k = n;
  memcpy(buf, inodes[ino].target, k);
  return fin("readlink", p, (long)k, 0);
}
EXPORT char *realpath(const char *restrict p, char *restrict out) {
  init();
  struct fault *f = begin("realpath", p);
  char c[PATH_MAX * 2];
  int ino;
  int r = ferr(f) ? ferr(f) : resolve(p, 1, 0, c, &ino);
  fin("realpath", p, r ? -1 : 0, r);
  if (r) {
    errno = r;
    return NULL;
  }
  if (!out) {
    out = sim_malloc(strlen(c) + 1);
    if (!out) return NULL;
  }
  strcpy(out, c);
  return out;
}
EXPORT char *canonicalize_file_name(const char *p) { return realpath(p, NULL); }
EXPORT char *getcwd(char *buf, size_t n) {
  init();
  struct fault *f = begin("getcwd", "-");
  if (ferr(f)) {
    fin("getcwd", "-", -1, ferr(f));
    return NULL;
  }
  size_t k = strlen(cwd) + 1;
  if (!buf) buf = sim_malloc(n ? n : k);
  else if (n < k) {
    errno = ERANGE;
    return NULL;
  }
  memcpy(buf, cwd, k);
  fin("getcwd", cwd, 0, 0);
  return buf;
}

// ---------------------------------------------------------------- directories
struct vdir {
  int n, i, fd;
  char path[1024];
  struct dirent64 ent;
  char **names;
  unsigned char *types;
  ino_t *inos;
};
static DIR *mkdirp(const char *path, const char *canon, int fd) {
  struct vdir *d = ar(sizeof *d);
  memset(d, 0, sizeof *d);
  strncpy(d->path, path, sizeof d->path - 1);
  d->fd = fd;
  d->names = ar(sizeof(char *) * (size_t)(ndents + 2));
  d->types = ar((size_t)ndents + 2);
  d->inos = ar(sizeof(ino_t) * (size_t)(ndents + 2));
  d->inos[0] = d->inos[1] = ino_nr(find(canon) >= 0 ? dents[find(canon)].ino : 0);
  size_t cl = strlen(canon);
  if (cl == 1) cl = 0;
  d->names[d->n] = ".";
  d->types[d->n++] = DT_DIR;
  d->names[d->n] = "..";
  d->types[d->n++] = DT_DIR;
  for (int i = 0; i < ndents; i++) {
    if (!dents[i].path || dents[i].path[1] == 0) continue;
    const char *p = dents[i].path;
    if (strncmp(p, canon, cl) || p[cl] != '/' || strchr(p + cl + 1, '/')) continue;
    d->names[d->n] = dents[i].path + cl + 1;
    int t = inodes[dents[i].ino].type;
    d->inos[d->n] = ino_nr(dents[i].ino);
    d->types[d->n++] = dtype_unknown ? DT_UNKNOWN : t == T_DIR ? DT_DIR : t == T_LINK ? DT_LNK : DT_REG;
  }
  for (int i = d->n - 1; i > 0; i--) { // the listing order is the simulator's choice
    int j = (int)(splitmix(&dir_state) % (uint64_t)(i + 1));
    char *t = d->names[i];
    unsigned char u = d->types[i];
    ino_t w = d->inos[i];
    d->names[i] = d->names[j];
    d->types[i] = d->types[j];
    d->inos[i] = d->inos[j];
    d->inos[j] = w;
    d->names[j] = t;
    d->types[j] = u;
  }
  return (DIR *)d;
}
EXPORT DIR *opendir(const char *path) {
  init();
  struct fault *f = begin("opendir", path);
  char c[PATH_MAX * 2];
  int ino = 0;
  int r = ferr(f) ? ferr(f) : resolve(path, 1, 0, c, &ino);
  if (!r && inodes[ino].type != T_DIR) r = ENOTDIR;
  if (!r && !(inodes[ino].mode & 0444)) r = EACCES;
  int fd = -1;
  if (!r) {
    fd = new_fd(ino, 1, path);
    if (fd < 0) r = EMFILE;
  }
  fin("opendir", path, r ? -1 : 0, r);
  if (r) {
    errno = r;
    return NULL;
  }
  return mkdirp(path, c, fd);
}
EXPORT DIR *fdopendir(int fd) {
  struct vfd *v = vf(fd);
  char c[PATH_MAX * 2];
  int ino;
  if (!v || resolve(v->path, 1, 0, c, &ino)) {
    errno = EBADF;
    return NULL;
  }
  return mkdirp(v->path, c, fd);
}
EXPORT struct dirent64 *readdir64(DIR *dd) {
  struct vdir *d = (struct vdir *)dd;
  struct fault *f = begin("readdir", d->path);
  if (ferr(f)) {
    fin("readdir", d->path, -1, ferr(f));
    return NULL;
  }
  if (f && f->kind == 'Z') d->i = d->n;
  if (d->i >= d->n) {
    fin("readdir", d->path, 0, 0);
    return NULL;
  }
  memset(&d->ent, 0, sizeof d->ent);
  d->ent.d_ino = d->inos[d->i];
  d->ent.d_type = d->types[d->i];
  d->ent.d_reclen = sizeof d->ent;
  snprintf(d->ent.d_name, sizeof d->ent.d_name, "%s", d->names[d->i]);
  d->i++;
  ev("%u readdir %s +%s\n", H->steps, d->path, d->ent.d_name);
  return &d->ent;
}
EXPORT struct dirent *readdir(DIR *dd) { return (struct dirent *)readdir64(dd); }
EXPORT int closedir(DIR *dd) {
  struct vdir *d = (struct vdir *)dd;
  begin("closedir", d->path);
  if (vf(d->fd)) vf(d->fd)->used = 0;
  return (int)fin("closedir", d->path, 0, 0);
}
EXPORT int dirfd(DIR *dd) { return ((struct vdir *)dd)->fd; }
EXPORT void rewinddir(DIR *dd) { ((struct vdir *)dd)->i = 0; }

// ---------------------------------------------------------------- mutations
// Recorded and applied to the simulated world only.
static int mut1(const char *op, const char *p) {
  init();
  begin(op, p);
  mutation(op, p);
  return 0;
}
EXPORT int unlink(const char *p) {
  mut1("unlink", p);
  char c[PATH_MAX * 2];
  int ino;
  int r = resolve(p, 0, 0, c, &ino);
  if (r) return (int)fin("unlink", p, -1, r);
  del_dent(c);
  return 0;
}
EXPORT int unlinkat(int d, const char *p, int fl) {
  (void)fl;
  char b[PATH_MAX * 2];
  at_path(d, p, b);
  return unlink(b);
}
EXPORT int remove(const char *p) { return unlink(p); }
EXPORT int rmdir(const char *p) { return unlink(p); }
EXPORT int rename(const char *a, const char *b) {
  mut1("rename", a);
  char c[PATH_MAX * 2], e[PATH_MAX * 2];
  int i, j;
  int r = resolve(a, 0, 0, c, &i);
  if (!r) r = resolve(b, 0, 1, e, &j);
  if (r) return (int)fin("rename", a, -1, r);
  del_dent(c);
  set_dent(e, i);
  return 0;
}
EXPORT int renameat(int d, const char *a, int e, const char *b) {
  char x[PATH_MAX * 2], y[PATH_MAX * 2];
  at_path(d, a, x);
  at_path(e, b, y);
  return rename(x, y);
}
EXPORT int renameat2(int d, const char *a, int e, const char *b, unsigned fl) {
  (void)fl;
  return renameat(d, a, e, b);
}
EXPORT int mkdir(const char *p, mode_t m) {
  mut1("mkdir", p);
  char c[PATH_MAX * 2];
  int ino;
  int r = resolve(p, 0, 1, c, &ino);
  if (!r && ino >= 0) r = EEXIST;
  if (r) return (int)fin("mkdir", p, -1, r);
  set_dent(c, new_inode(T_DIR, m & 0777, NULL, 0));
  return 0;
}
EXPORT int mkdirat(int d, const char *p, mode_t m) {
  char b[PATH_MAX * 2];
  at_path(d, p, b);
  return mkdir(b, m);
}
EXPORT int chmod(const char *p, mode_t m) { (void)m; return mut1("chmod", p); }
EXPORT int fchmod(int fd, mode_t m) { (void)m; return mut1("fchmod", vf(fd) ? vf(fd)->path : "<fd>"); }
EXPORT int fchmodat(int d, const char *p, mode_t m, int f) { (void)d; (void)m; (void)f; return mut1("fchmodat", p); }
EXPORT int chown(const char *p, uid_t u, gid_t g) { (void)u; (void)g; return mut1("chown", p); }
EXPORT int lchown(const char *p, uid_t u, gid_t g) { (void)u; (void)g; return mut1("lchown", p); }
EXPORT int fchown(int fd, uid_t u, gid_t g) { (void)fd; (void)u; (void)g; return mut1("fchown", "<fd>"); }
EXPORT int truncate64(const char *p, off64_t n) { (void)n; return mut1("truncate", p); }
EXPORT int truncate(const char *p, off_t n) { (void)n; return mut1("truncate", p); }
EXPORT int ftruncate64(int fd, off64_t n) {
  struct vfd *v = vf(fd);
  mut1("ftruncate", v ? v->path : "<fd>");
  if (v && inodes[v->ino].len > (size_t)n) inodes[v->ino].len = (size_t)n;
  return 0;
}
EXPORT int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
EXPORT int link(const char *a, const char *b) { (void)a; return mut1("link", b); }
EXPORT int linkat(int d, const char *a, int e, const char *b, int f) { (void)d; (void)a; (void)e; (void)f; return mut1("linkat", b); }
EXPORT int symlink(const char *a, const char *b) { (void)a; return mut1("symlink", b); }
EXPORT int symlinkat(const char *a, int d, const char *b) { (void)a; (void)d; return mut1("symlinkat", b); }
EXPORT int mknod(const char *p, mode_t m, dev_t d) { (void)m; (void)d; return mut1("mknod", p); }
EXPORT int mkfifo(const char *p, mode_t m) { (void)m; return mut1("mkfifo", p); }
EXPORT int utimensat(int d, const char *p, const struct timespec t[2], int f) { (void)d; (void)t; (void)f; return mut1("utimensat", "<path>"); }
EXPORT int futimens(int fd, const struct timespec t[2]) { (void)t; return mut1("futimens", vf(fd) ? vf(fd)->path : "<fd>"); }
EXPORT int utimes(const char *p, const struct timeval t[2]) { (void)t; return mut1("utimes", p); }
EXPORT int setxattr(const char *p, const char *n, const void *v, size_t s, int f) { (void)n; (void)v; (void)s; (void)f; return mut1("setxattr", p); }
EXPORT int flock(int fd, int op) { (void)op; return mut1("flock", vf(fd) ? vf(fd)->path : "<fd>"); }
EXPORT ssize_t copy_file_range(int a, off64_t *b, int c, off64_t *d, size_t n, unsigned f) {
  (void)a; (void)b; (void)c; (void)d; (void)n; (void)f;
  mut1("copy_file_range", "<fd>");
  errno = EXDEV;
  return -1;
}
EXPORT ssize_t sendfile64(int a, int b, off64_t *c, size_t n) {
  (void)a; (void)b; (void)c; (void)n;
  mut1("sendfile", "<fd>");
  errno = EINVAL;
  return -1;
}
static int outside(const char *op) {
  init();
  begin(op, "-");
  mutation(op, "-");
  errno = EPERM;
  return -1;
}
EXPORT int chdir(const char *p) { return mut1("chdir", p); }
EXPORT pid_t fork(void) { return outside("fork"); }
EXPORT pid_t vfork(void) { return outside("fork"); }
EXPORT int execve(const char *p, char *const a[], char *const e[]) { (void)p; (void)a; (void)e; return outside("execve"); }
EXPORT int execvp(const char *p, char *const a[]) { (void)p; (void)a; return outside("execvp"); }
EXPORT int posix_spawn(pid_t *p, const char *x, const void *fa, const void *at, char *const a[], char *const e[]) {
  (void)p; (void)x; (void)fa; (void)at; (void)a; (void)e;
  outside("posix_spawn");
  return EPERM;
}
EXPORT int posix_spawnp(pid_t *p, const char *x, const void *fa, const void *at, char *const a[], char *const e[]) {
  (void)p; (void)x; (void)fa; (void)at; (void)a; (void)e;
  outside("posix_spawn");
  return EPERM;
}
EXPORT int system(const char *c) { (void)c; return outside("system"); }
EXPORT int socket(int a, int b, int c) { (void)a; (void)b; (void)c; return outside("socket"); }
EXPORT int socketpair(int a, int b, int c, int d[2]) { (void)a; (void)b; (void)c; (void)d; return outside("socketpair"); }
EXPORT int connect(int a, const struct sockaddr *b, socklen_t c) { (void)a; (void)b; (void)c; return outside("connect"); }
EXPORT int kill(pid_t p, int s) { (void)p; (void)s; return outside("kill"); }
EXPORT int pipe2(int p[2], int f) { (void)p; (void)f; return outside("pipe2"); }

// ---------------------------------------------------------------- misc fds
EXPORT int fcntl(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  long arg = va_arg(ap, long);
  va_end(ap);
  if (fd >= FD0) return vf(fd) ? 0 : (errno = EBADF, -1);
  long r = raw(SYS_fcntl, fd, cmd, arg, 0, 0, 0);
  if (r < 0) {
    errno = (int)-r;
    return -1;
  }
  return (int)r;
}
EXPORT int fcntl64(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  long arg = va_arg(ap, long);
  va_end(ap);
  return fcntl(fd, cmd, arg);
}
EXPORT int isatty(int fd) {
  init();
  if (fd >= 0 && fd <= 2 && (tty_mask >> fd) & 1) return 1;
  errno = ENOTTY;
  return 0;
}
EXPORT int ioctl(int fd, unsigned long req, ...) {
  va_list ap;
  va_start(ap, req);
  void *arg = va_arg(ap, void *);
  va_end(ap);
  init();
  if (!isatty(fd)) {
    errno = ENOTTY;
    return -1;
  }
  if (req == TIOCGWINSZ) {
    struct winsize *w = arg;
    memset(w, 0, sizeof *w);
    w->ws_col = (unsigned short)tty_cols;
    w->ws_row = (unsigned short)tty_rows;
    return 0;
  }
  errno = EINVAL;
  return -1;
}
EXPORT int getpwuid_r(uid_t u, struct passwd *p, char *b, size_t n, struct passwd **r) {
  (void)u; (void)p; (void)b; (void)n;
  *r = NULL;
  return 0;
}

// ---------------------------------------------------------------- time, randomness
EXPORT int clock_gettime(clockid_t id, struct timespec *t) {
  init();
  begin("clock", "-");
  H->clock_reads++;
  int64_t v = clock_ns;
  if (id != CLOCK_REALTIME && id != CLOCK_REALTIME_COARSE && id != CLOCK_TAI) v -= 1000000000000000000ll;
  if (v < 0 && id != CLOCK_REALTIME) v = 0;
  t->tv_sec = v / 1000000000;
  t->tv_nsec = v % 1000000000;
  if (t->tv_nsec < 0) {
    t->tv_nsec += 1000000000;
    t->tv_sec--;
  }
  ev("%u clock %d %ld\n", H->steps, (int)id, (long)t->tv_sec);
  return 0;
}
EXPORT int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
  (void)tz;
  struct timespec t;
  clock_gettime(CLOCK_REALTIME, &t);
  tv->tv_sec = t.tv_sec;
  tv->tv_usec = t.tv_nsec / 1000;
  return 0;
}
EXPORT time_t time(time_t *p) {
  struct timespec t;
  clock_gettime(CLOCK_REALTIME, &t);
  if (p) *p = t.tv_sec;
  return t.tv_sec;
}
EXPORT int nanosleep(const struct timespec *a, struct timespec *b) {
  (void)b;
  begin("sleep", "-");
  clock_ns += a->tv_sec * 1000000000ll + a->tv_nsec;
  return 0;
}
EXPORT int clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b) {
  (void)c; (void)f;
  return nanosleep(a, b);
}
EXPORT int usleep(useconds_t u) {
  begin("sleep", "-");
  clock_ns += (int64_t)u * 1000;
  return 0;
}
EXPORT ssize_t getrandom(void *buf, size_t n, unsigned fl) {
  init();
  begin("getrandom", "-");
  (void)fl;
  unsigned char *p = buf;
  for (size_t i = 0; i < n; i += 8) {
    uint64_t r = splitmix(&rnd_state);
    size_t k = n - i < 8 ? n - i : 8;
    memcpy(p + i, &r, k);
  }
  ev("%u getrandom %zu\n", H->steps, n);
  return (ssize_t)n;
}
EXPORT int getentropy(void *buf, size_t n) {
  getrandom(buf, n, 0);
  return 0;
}
EXPORT pid_t getpid(void) { return ident ? (pid_t)(1 + mix(10) % 99999) : 4242; }
EXPORT pid_t getppid(void) { return ident ? (pid_t)(1 + mix(11) % 99999) : 4241; }
EXPORT uid_t getuid(void) { return ident ? (uid_t)(1 + (mix(12) >> 40)) : 1000; }
EXPORT uid_t geteuid(void) { return getuid(); }
EXPORT gid_t getgid(void) { return ident ? (gid_t)(mix(13) >> 40) : 1000; }
EXPORT gid_t getegid(void) { return getgid(); }
EXPORT int gethostname(char *b, size_t n) {
  snprintf(b, n, "host%u", ident ? (unsigned)(mix(14) % 1000) : 0u);
  return 0;
}
EXPORT int uname(struct utsname *u) {
  memset(u, 0, sizeof *u);
  strcpy(u->sysname, "Linux");
  strcpy(u->machine, "x86_64");
  snprintf(u->nodename, sizeof u->nodename, "host%u", ident ? (unsigned)(mix(14) % 1000) : 0u);
  snprintf(u->release, sizeof u->release, "%u.1.0", ident ? (unsigned)(3 + mix(15) % 5) : 6u);
  return 0;
}
EXPORT int sched_getaffinity(pid_t p, size_t n, cpu_set_t *m) { // number of processors
  (void)p;
  memset(m, 0, n);
  int k = ident ? (int)(1 + mix(16) % 60) : 4;
  for (int i = 0; i < k && (size_t)i < n * 8; i++) ((unsigned char *)m)[i / 8] |= (unsigned char)(1 << i % 8);
  return 0;
}
EXPORT int getloadavg(double l[], int n) {
  for (int i = 0; i < n; i++) l[i] = ident ? (double)(mix(17) % 64) : 0;
  return n;
}

extern long syscall(long, ...);
EXPORT long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long),
       e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  switch (n) {
  case SYS_getrandom:
    return getrandom((void *)a, (size_t)b, (unsigned)c);
  case SYS_statx:
    return statx((int)a, (const char *)b, (int)c, (unsigned)d, (struct statx *)e);
  case SYS_clock_gettime:
    return clock_gettime((clockid_t)a, (struct timespec *)b);
  case SYS_openat:
    return openat((int)a, (const char *)b, (int)c, (unsigned)d);
  case SYS_read:
    return read((int)a, (void *)b, (size_t)c);
  case SYS_write:
    return write((int)a, (const void *)b, (size_t)c);
  case SYS_futex:
  case SYS_gettid: {
    long r = raw(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) {
      errno = (int)-r;
      return -1;
    }
    return r;
  }
  default: {
    char nm[32];
    snprintf(nm, sizeof nm, "syscall-%ld", n);
    return outside(nm);
  }
  }
}
