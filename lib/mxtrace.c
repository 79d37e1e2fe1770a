/* Controlled execution of one or more programs under ptrace.
 *
 *   mxtrace [options] -- prog args... [-- prog args...]
 *
 * An "event" is a system call that touches a path under a watched prefix (by path, by descriptor or by mapping).
 * Processes run one at a time, from event to event; at every event a scheduling choice is made.
 *
 *  -w PREFIX      watched prefix (repeatable)
 *  -L             light: only events that can change or open something (no read/lseek/stat-by-fd/close/getdents)
 *  -f FILE        report a hash of FILE whenever it changes
 *  -n HASH        hash FILE is allowed to end up with; any content other than the initial one and this one is torn:
 *                 report T and kill the process on the spot
 *  -s c,c,c       schedule: process to run at each scheduling point (then: keep going / lowest number)
 *  -k P,N  -K P,N SIGKILL process P before / after its event N
 *  -e P,N,ERRNO   event N of P fails with ERRNO without being executed (ERRNO "short": transfers 1 byte only)
 *  -E P,N,ERRNO   the same, and all later events on that path or below it fail likewise (but close, munmap)
 *  -g P,N,SIG,W   signal P before (W=B) or after (W=A) its event N
 *  -m             the first use of a file mapping is an event of its own ("mapped", right after the mmap)
 *  -o BASE        stdout/stderr of process i go to BASE.i.out and BASE.i.err
 *  -t SEC         time limit (default 20)
 *
 * Output: E p n call ret path | C point chosen current enabled... | H hash | T p n steps | X p status | Z timeout
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <limits.h>
#include <sys/ptrace.h>
#include <sys/wait.h>
#include <sys/user.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>

#define MAXP 4
struct proc {
  pid_t pid;
  char **argv;
  int alive, ready, nev, status;
  char name[24], path[PATH_MAX * 2 + 8];
  int stepping, mapped;
} P[MAXP];
static int np;
static char *prefix[8];
static int nprefix, light, maps;
static char *mon;
static uint64_t h_init, h_new;
static int have_new, torn;
static char *outbase;
static int sched[4096], nsched;
static int kp = -1, kn, kafter;
static int ep = -1, en, eerr, esticky;
static char epath[PATH_MAX];
static int gp = -1, gn, gsig, gafter;

static void die(const char *s) { perror(s); exit(3); }

static uint64_t hash_file(const char *f)
{
  uint64_t h = 1469598103934665603ULL;
  unsigned char buf[65536];
  ssize_t r;
  int fd = open(f, O_RDONLY);
  if (fd < 0) return 0;
  while ((r = read(fd, buf, sizeof buf)) > 0) {
    ssize_t i;
    for (i = 0; i < r; i++) { h ^= buf[i]; h *= 1099511628211ULL; }
  }
  close(fd);
  return h;
}

static uint64_t last_h;
static void check_mon(int p, long steps)
{
  uint64_t h;
  if (!mon) return;
  h = hash_file(mon);
  if (h == last_h) return;
  last_h = h;
  printf("H %016llx\n", (unsigned long long) h);
  if (have_new && h != h_init && h != h_new && !torn) {
    torn = 1;
    printf("T %d %d %ld\n", p, P[p].nev, steps);
    kill(P[p].pid, SIGKILL);
  }
}

static int rdstr(pid_t pid, unsigned long a, char *out, int n)
{
  int i = 0;
  while (i < n - 1) {
    long w;
    int j;
    errno = 0;
    w = ptrace(PTRACE_PEEKDATA, pid, a + i, 0);
    if (errno) break;
    for (j = 0; j < 8 && i < n - 1; j++, i++) {
      out[i] = ((char *) &w)[j];
      if (!out[i]) return i;
    }
  }
  out[i] = 0;
  return i;
}

static void fdpath(pid_t pid, int fd, char *out)
{
  char l[64];
  ssize_t r;
  if (fd == AT_FDCWD) sprintf(l, "/proc/%d/cwd", pid);
  else sprintf(l, "/proc/%d/fd/%d", pid, fd);
  r = readlink(l, out, PATH_MAX - 1);
  if (r < 0) r = 0;
  out[r] = 0;
}

static void atpath(pid_t pid, int dfd, unsigned long a, char *out)
{
  char s[PATH_MAX], d[PATH_MAX];
  rdstr(pid, a, s, sizeof s);
  if (s[0] == '/') { strcpy(out, s); return; }
  fdpath(pid, dfd, d);
  snprintf(out, PATH_MAX, "%s/%s", d, s);
}

static int watched(const char *p)
{
  int i;
  for (i = 0; i < nprefix; i++) if (!strncmp(p, prefix[i], strlen(prefix[i]))) return 1;
  return 0;
}

static int mappath(pid_t pid, unsigned long addr, char *out)
{
  char f[64], line[PATH_MAX + 200];
  FILE *m;
  int found = 0;
  sprintf(f, "/proc/%d/maps", pid);
  m = fopen(f, "r");
  if (!m) return 0;
  while (fgets(line, sizeof line, m)) {
    unsigned long a, b;
    char pr[8], pa[PATH_MAX];
    pa[0] = 0;
    if (sscanf(line, "%lx-%lx %7s %*s %*s %*s %4000[^\n]", &a, &b, pr, pa) >= 3 && addr >= a && addr < b) {
      strcpy(out, pa);
      found = pa[0] == '/';
      break;
    }
  }
  fclose(m);
  return found;
}

/* is this system call an event?  fills name and path */
static int classify(struct proc *p, struct user_regs_struct *r)
{
  long nr = r->orig_rax;
  char a[PATH_MAX], b[PATH_MAX];
  const char *n = NULL;
  int kind = 0; /* 1: path in rdi; 2: at(rdi, rsi); 3: two paths; 4: two at paths; 5: fd rdi; 6: mmap; 7: addr rdi;
                   8: symlink target,new */
  int heavy = 0;
  switch (nr) {
    case SYS_open: n = "open"; kind = 1; break;
    case SYS_creat: n = "creat"; kind = 1; break;
    case SYS_openat: n = "open"; kind = 2; break;
    case SYS_stat: n = "stat"; kind = 1; heavy = 1; break;
    case SYS_lstat: n = "lstat"; kind = 1; heavy = 1; break;
    case SYS_newfstatat: n = "stat"; kind = 2; heavy = 1; break;
    case SYS_statx: n = "stat"; kind = 2; heavy = 1; break;
    case SYS_access: n = "access"; kind = 1; heavy = 1; break;
    case SYS_faccessat: case SYS_faccessat2: n = "access"; kind = 2; heavy = 1; break;
    case SYS_unlink: n = "unlink"; kind = 1; break;
    case SYS_unlinkat: n = "unlink"; kind = 2; break;
    case SYS_mkdir: n = "mkdir"; kind = 1; break;
    case SYS_mkdirat: n = "mkdir"; kind = 2; break;
    case SYS_rmdir: n = "rmdir"; kind = 1; break;
    case SYS_truncate: n = "truncate"; kind = 1; break;
    case SYS_chmod: n = "chmod"; kind = 1; break;
    case SYS_fchmodat: n = "chmod"; kind = 2; break;
    case SYS_chown: case SYS_lchown: n = "chown"; kind = 1; break;
    case SYS_utimensat: n = "utime"; kind = 2; break;
    case SYS_readlink: n = "readlink"; kind = 1; heavy = 1; break;
    case SYS_readlinkat: n = "readlink"; kind = 2; heavy = 1; break;
    case SYS_rename: n = "rename"; kind = 3; break;
    case SYS_link: n = "link"; kind = 3; break;
    case SYS_symlink: n = "symlink"; kind = 8; break;
    case SYS_symlinkat: n = "symlink"; kind = 9; break;
    case SYS_renameat: case SYS_renameat2: n = "rename"; kind = 4; break;
    case SYS_linkat: n = "link"; kind = 4; break;
    case SYS_read: n = "read"; kind = 5; heavy = 1; break;
    case SYS_pread64: n = "pread"; kind = 5; heavy = 1; break;
    case SYS_write: n = "write"; kind = 5; break;
    case SYS_pwrite64: n = "pwrite"; kind = 5; break;
    case SYS_writev: n = "writev"; kind = 5; break;
    case SYS_lseek: n = "lseek"; kind = 5; heavy = 1; break;
    case SYS_fstat: n = "fstat"; kind = 5; heavy = 1; break;
    case SYS_ftruncate: n = "ftruncate"; kind = 5; break;
    case SYS_fallocate: n = "fallocate"; kind = 5; break;
    case SYS_fsync: n = "fsync"; kind = 5; heavy = 1; break;
    case SYS_fdatasync: n = "fdatasync"; kind = 5; heavy = 1; break;
    case SYS_fchmod: n = "fchmod"; kind = 5; break;
    case SYS_fchown: n = "fchown"; kind = 5; break;
    case SYS_flock: n = "flock"; kind = 5; break;
    case SYS_fcntl: n = "fcntl"; kind = 5; break;
    case SYS_getdents64: n = "getdents"; kind = 5; heavy = 1; break;
    case SYS_close: n = "close"; kind = 5; heavy = 1; break;
    case SYS_mmap: n = "mmap"; kind = 6; break;
    case SYS_munmap: n = "munmap"; kind = 7; heavy = 1; break;
    case SYS_msync: n = "msync"; kind = 7; break;
    default: return 0;
  }
  if (light && heavy) return 0;
  a[0] = b[0] = 0;
  switch (kind) {
    case 1: atpath(p->pid, AT_FDCWD, r->rdi, a); break;
    case 2:
      atpath(p->pid, (int) r->rdi, r->rsi, a);
      if (nr == SYS_newfstatat && a[0] && a[strlen(a) - 1] == '/') { a[strlen(a) - 1] = 0; n = "fstat"; }
      break;
    case 3: atpath(p->pid, AT_FDCWD, r->rdi, a); atpath(p->pid, AT_FDCWD, r->rsi, b); break;
    case 4: atpath(p->pid, (int) r->rdi, r->rsi, a); atpath(p->pid, (int) r->rdx, r->r10, b); break;
    case 8: atpath(p->pid, AT_FDCWD, r->rsi, a); break;
    case 9: atpath(p->pid, (int) r->rsi, r->rdx, a); break;
    case 5: fdpath(p->pid, (int) r->rdi, a); break;
    case 6: if (r->r10 & MAP_ANONYMOUS || (int) r->r8 < 0) return 0; fdpath(p->pid, (int) r->r8, a); break;
    case 7: if (!mappath(p->pid, r->rdi, a)) return 0; break;
  }
  if (!watched(a) && !watched(b)) return 0;
  if (nr == SYS_open && (r->rsi & (O_WRONLY | O_RDWR | O_CREAT))) n = "openw";
  if (nr == SYS_openat && (r->rdx & (O_WRONLY | O_RDWR | O_CREAT))) n = "openw";
  if (nr == SYS_mmap && (r->rdx & PROT_WRITE) && (r->r10 & MAP_SHARED)) n = "mmapw";
  strcpy(p->name, n);
  if (b[0]) sprintf(p->path, "%s %s", a, b); else strcpy(p->path, a);
  return 1;
}

static void finished(int i, int st)
{
  P[i].alive = P[i].ready = 0;
  P[i].status = st;
  printf("X %d %d\n", i, st);
}

static int waitp(int i)
{
  int st;
  pid_t r;
  do r = waitpid(P[i].pid, &st, __WALL); while (r < 0 && errno == EINTR);
  if (r < 0) die("waitpid");
  return st;
}

static int mon_mapped_w(pid_t pid)
{
  char f[64], line[PATH_MAX + 200];
  FILE *m;
  struct stat sb;
  int found = 0;
  if (stat(mon, &sb) < 0) return 0;
  sprintf(f, "/proc/%d/maps", pid);
  m = fopen(f, "r");
  if (!m) return 0;
  while (fgets(line, sizeof line, m)) {
    unsigned long ino;
    char pr[8];
    if (sscanf(line, "%*s %7s %*s %*s %lu", pr, &ino) == 2 && ino == sb.st_ino && pr[1] == 'w' && pr[3] == 's') { found = 1; break; }
  }
  fclose(m);
  return found;
}

/* single step user code up to the next syscall instruction, watching FILE */
static int step_user(int i)
{
  long steps = 0;
  for (;;) {
    struct user_regs_struct r;
    long w;
    int st;
    ptrace(PTRACE_GETREGS, P[i].pid, 0, &r);
    errno = 0;
    w = ptrace(PTRACE_PEEKTEXT, P[i].pid, r.rip, 0);
    if ((w & 0xffff) == 0x050f) return 0;
    if (ptrace(PTRACE_SINGLESTEP, P[i].pid, 0, 0) < 0) return 0;
    st = waitp(i);
    if (WIFEXITED(st) || WIFSIGNALED(st)) { finished(i, st); return 1; }
    if (WIFSTOPPED(st) && WSTOPSIG(st) != SIGTRAP) { ptrace(PTRACE_SINGLESTEP, P[i].pid, 0, WSTOPSIG(st)); continue; }
    steps++;
    if (steps > 20000000) return 0;
    check_mon(i, steps);
  }
}

/* run process i (stopped after a syscall exit or at start) up to its next event entry or its end */
static void run_to_event(int i)
{
  int sig = 0, in_call = 0;
  P[i].ready = 0;
  for (;;) {
    int st;
    if (!in_call && mon && have_new && P[i].stepping) if (step_user(i)) return;
    if (ptrace(PTRACE_SYSCALL, P[i].pid, 0, sig) < 0 && errno != ESRCH) die("PTRACE_SYSCALL");
    sig = 0;
    st = waitp(i);
    if (WIFEXITED(st) || WIFSIGNALED(st)) { check_mon(i, 0); finished(i, st); return; }
    if (!WIFSTOPPED(st)) continue;
    if (WSTOPSIG(st) == (SIGTRAP | 0x80)) {
      struct user_regs_struct r;
      if (!in_call) {
        in_call = 1;
        ptrace(PTRACE_GETREGS, P[i].pid, 0, &r);
        if (classify(&P[i], &r)) { P[i].ready = 1; return; }
      } else in_call = 0;
    } else if (WSTOPSIG(st) == SIGTRAP && (st >> 16)) {
      /* exec or other ptrace event */
    } else {
      sig = WSTOPSIG(st);
    }
  }
}

/* execute the pending event of i; returns 0 if the process ended */
static int do_event(int i)
{
  struct user_regs_struct r, o;
  int st, n = P[i].nev, inject = 0, before = 0;
  long ret;
  if (P[i].mapped) {
    P[i].mapped = 0;
    printf("E %d %d mapped 0 %s\n", i, n, P[i].path);
    P[i].nev++;
    return 1;
  }
  if (kp == i && kn == n && !kafter) {
    printf("K %d %d %s %s\n", i, n, P[i].name, P[i].path);
    kill(P[i].pid, SIGKILL);
    for (;;) { st = waitp(i); if (WIFEXITED(st) || WIFSIGNALED(st)) break; }
    finished(i, st);
    return 0;
  }
  ptrace(PTRACE_GETREGS, P[i].pid, 0, &r);
  o = r;
  if (ep == i && (en == n || (esticky && epath[0] && !strncmp(P[i].path, epath, strlen(epath)) &&
                             (!P[i].path[strlen(epath)] || P[i].path[strlen(epath)] == '/') &&
                             strcmp(P[i].name, "close") && strcmp(P[i].name, "munmap")))) {
    if (esticky && en == n) strcpy(epath, P[i].path);
    inject = 1;
    if (eerr == -1) { /* short transfer */
      if ((!strcmp(P[i].name, "write") || !strcmp(P[i].name, "read")) && r.rdx > 1) { r.rdx = 1; ptrace(PTRACE_SETREGS, P[i].pid, 0, &r); }
      inject = 0;
    } else {
      r.orig_rax = -1;
      ptrace(PTRACE_SETREGS, P[i].pid, 0, &r);
    }
  }
  if (gp == i && gn == n && !gafter) {
    before = 1;
    r.orig_rax = -1;
    ptrace(PTRACE_SETREGS, P[i].pid, 0, &r);
  }
  ptrace(PTRACE_SYSCALL, P[i].pid, 0, 0);
  st = waitp(i);
  if (WIFEXITED(st) || WIFSIGNALED(st)) { finished(i, st); return 0; }
  if (WIFSTOPPED(st) && WSTOPSIG(st) != (SIGTRAP | 0x80)) {
    fprintf(stderr, "unexpected stop %x\n", st);
    exit(3);
  }
  ptrace(PTRACE_GETREGS, P[i].pid, 0, &r);
  if (before) {
    r.rax = o.orig_rax;
    r.rip -= 2;
    r.rdi = o.rdi; r.rsi = o.rsi; r.rdx = o.rdx; r.r10 = o.r10; r.r8 = o.r8; r.r9 = o.r9;
    ptrace(PTRACE_SETREGS, P[i].pid, 0, &r);
    printf("G %d %d B %s %s\n", i, n, P[i].name, P[i].path);
    gp = -1;
    kill(P[i].pid, gsig);
    return 1; /* the call itself is made again, as event n */
  }
  if (inject) { r.rax = -eerr; ptrace(PTRACE_SETREGS, P[i].pid, 0, &r); }
  ret = (long) r.rax;
  if (ret > 4096 || ret < -4095) ret = 1;
  printf("E %d %d %s %ld %s\n", i, n, P[i].name, ret, P[i].path);
  P[i].nev++;
  if (mon && have_new && !P[i].stepping && !strcmp(P[i].name, "mmapw")) P[i].stepping = mon_mapped_w(P[i].pid);
  else if (P[i].stepping && !strcmp(P[i].name, "munmap")) P[i].stepping = mon_mapped_w(P[i].pid);
  check_mon(i, 0);
  if (kp == i && kn == n && kafter) {
    printf("K %d %d %s %s\n", i, n, P[i].name, P[i].path);
    kill(P[i].pid, SIGKILL);
    for (;;) { st = waitp(i); if (WIFEXITED(st) || WIFSIGNALED(st)) break; }
    finished(i, st);
    return 0;
  }
  if (gp == i && gn == n && gafter) {
    printf("G %d %d A %s %s\n", i, n, P[i].name, P[i].path);
    gp = -1;
    kill(P[i].pid, gsig);
  }
  return 1;
}

static void on_alarm(int s)
{
  int i;
  (void) s;
  printf("Z\n");
  fflush(stdout);
  for (i = 0; i < np; i++) if (P[i].pid) kill(P[i].pid, SIGKILL);
  _exit(4);
}

int main(int argc, char **argv)
{
  int c, i, tl = 20, point = 0, cur = -1;
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  while ((c = getopt(argc, argv, "+w:Lmf:n:s:k:K:e:E:g:o:t:")) != -1) {
    switch (c) {
      case 'w': prefix[nprefix++] = optarg; break;
      case 'L': light = 1; break;
      case 'm': maps = 1; break;
      case 'f': mon = optarg; break;
      case 'n': h_new = strtoull(optarg, NULL, 16); have_new = 1; break;
      case 's': { char *t = strtok(optarg, ","); while (t) { sched[nsched++] = atoi(t); t = strtok(NULL, ","); } } break;
      case 'k': sscanf(optarg, "%d,%d", &kp, &kn); break;
      case 'K': sscanf(optarg, "%d,%d", &kp, &kn); kafter = 1; break;
      case 'E': esticky = 1; /* fall through */
      case 'e': { char e[32]; sscanf(optarg, "%d,%d,%31s", &ep, &en, e); eerr = !strcmp(e, "short") ? -1 : atoi(e); } break;
      case 'g': { char w; sscanf(optarg, "%d,%d,%d,%c", &gp, &gn, &gsig, &w); gafter = w == 'A'; } break;
      case 'o': outbase = optarg; break;
      case 't': tl = atoi(optarg); break;
      default: exit(3);
    }
  }
  /* split commands at "--" */
  {
    int j = optind;
    while (j < argc && np < MAXP) {
      P[np++].argv = argv + j;
      while (j < argc && strcmp(argv[j], "--")) j++;
      if (j < argc) argv[j++] = NULL;
    }
  }
  setvbuf(stdout, NULL, _IOFBF, 1 << 20);
  signal(SIGALRM, on_alarm);
  alarm(tl);
  if (mon) { h_init = last_h = hash_file(mon); printf("H %016llx\n", (unsigned long long) h_init); }
  fflush(stdout);
  for (i = 0; i < np; i++) {
    pid_t pid = fork();
    if (pid < 0) die("fork");
    if (pid == 0) {
      char n[PATH_MAX];
      int fd;
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      fd = open("/dev/null", O_RDONLY); dup2(fd, 0); close(fd);
      snprintf(n, sizeof n, "%s.%d.out", outbase ? outbase : "/dev/null", i);
      fd = open(outbase ? n : "/dev/null", O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(fd, 1); close(fd);
      snprintf(n, sizeof n, "%s.%d.err", outbase ? outbase : "/dev/null", i);
      fd = open(outbase ? n : "/dev/null", O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(fd, 2); close(fd);
      signal(SIGALRM, SIG_DFL);
      ptrace(PTRACE_TRACEME, 0, 0, 0);
      raise(SIGSTOP);
      execv(P[i].argv[0], P[i].argv);
      _exit(127);
    }
    P[i].pid = pid;
    P[i].alive = 1;
    waitp(i);
    ptrace(PTRACE_SETOPTIONS, pid, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL | PTRACE_O_TRACEEXEC);
    run_to_event(i);
  }
  for (;;) {
    int en_[MAXP], ne = 0, ch = -1, j;
    for (i = 0; i < np; i++) if (P[i].alive && P[i].ready) en_[ne++] = i;
    if (!ne) break;
    if (point < nsched) {
      for (j = 0; j < ne; j++) if (en_[j] == sched[point]) ch = en_[j];
      if (ch < 0) { printf("D %d\n", point); fflush(stdout); exit(5); }
    } else {
      for (j = 0; j < ne; j++) if (en_[j] == cur) ch = cur;
      if (ch < 0) ch = en_[0];
    }
    if (np > 1) {
      printf("C %d %d %d", point, ch, cur);
      for (j = 0; j < ne; j++) printf(" %d", en_[j]);
      printf("\n");
    }
    point++;
    cur = ch;
    if (do_event(ch)) {
      if (maps && P[ch].ready && !P[ch].mapped && !strcmp(P[ch].name, "mmap")) { P[ch].mapped = 1; strcpy(P[ch].name, "mapped"); }
      else run_to_event(ch);
    }
  }
  fflush(stdout);
  return 0;
}
