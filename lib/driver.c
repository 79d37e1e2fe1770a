/* Fork-server around the real mairix main(): one fork per requested run.
 *
 * Request  (stdin) : u32 length, then NUL separated strings
 *                    cwd, timeout_ms, fake_time(or "-"), memlimit_mb(or "0"), n_env, env..., argv[0], argv[1], ...
 * Response (stdout): u32 wait_status, u32 timed_out, u32 out_len, u32 err_len, out, err
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <poll.h>
#include <stdint.h>
#include <sys/mman.h>
#include <sys/types.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/prctl.h>

extern int mairix_main(int argc, char **argv);

static int use_fake = 0;
static long fake_now = 0;

time_t time(time_t *t)
{
  time_t r;
  if (use_fake) r = fake_now;
  else {
    struct timespec ts;
    syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
    r = ts.tv_sec;
  }
  if (t) *t = r;
  return r;
}

int gettimeofday(struct timeval *tv, void *tz)
{
  struct timespec ts;
  (void) tz;
  if (!tv) return 0;
  if (use_fake) { tv->tv_sec = fake_now; tv->tv_usec = 0; return 0; }
  syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}

#ifdef ASAN_VARIANT
/* Read-only file mappings become heap copies of exactly the mapped length, so that the sanitizer sees reads past
 * their end (which are a fault when the file ends at a page boundary). */
#undef mmap
#undef munmap
extern void *mmap(void *, size_t, int, int, int, off_t);
extern int munmap(void *, size_t);
#define MAXMAP 64
static struct { void *p; size_t len; } maps[MAXMAP];
void *mx_mmap(void *addr, size_t len, int prot, int flags, int fd, off_t off)
{
  int i;
  if (prot == PROT_READ && fd >= 0) {
    for (i = 0; i < MAXMAP; i++) {
      if (!maps[i].p) {
        char *b = malloc(len);
        size_t got = 0;
        ssize_t r = 1;
        if (!b) break;
        while (got < len && (r = pread(fd, b + got, len - got, off + got)) > 0) got += r;
        if (got < len) { free(b); break; }
        maps[i].p = b;
        maps[i].len = len;
        return b;
      }
    }
  }
  return mmap(addr, len, prot, flags, fd, off);
}
int mx_munmap(void *p, size_t len)
{
  int i;
  for (i = 0; i < MAXMAP; i++) {
    if (maps[i].p && maps[i].p == p) {

      free(p);
      maps[i].p = 0;
      return 0;
    }
  }
  return munmap(p, len);
}
const char *__asan_default_options(void);
const char *__asan_default_options(void)
{
  return "detect_leaks=0:exitcode=99:allocator_may_return_null=1:abort_on_error=0:"
         "handle_segv=1:detect_odr_violation=0:strict_string_checks=0:"
         "malloc_context_size=2:symbolize=0:print_legend=0:print_summary=1:"
         "max_malloc_fill_size=4096:malloc_fill_byte=190";
}
const char *__ubsan_default_options(void);
const char *__ubsan_default_options(void) { return "print_stacktrace=0:halt_on_error=1:exitcode=98"; }
#endif

static void rd(void *p, size_t n)
{
  char *c = p;
  while (n) {
    ssize_t r = read(0, c, n);
    if (r <= 0) _exit(0);
    c += r; n -= r;
  }
}

static void wr(const void *p, size_t n)
{
  const char *c = p;
  while (n) {
    ssize_t r = write(1, c, n);
    if (r <= 0) _exit(0);
    c += r; n -= r;
  }
}

static char *slurp(int fd, uint32_t *len)
{
  off_t n = lseek(fd, 0, SEEK_END);
  char *b;
  if (n > (4 << 20)) n = 4 << 20;
  b = malloc(n + 1);
  n = pread(fd, b, n, 0);
  if (n < 0) n = 0;
  *len = n;
  return b;
}

static long long mono_ms(void)
{
  struct timespec ts;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
  return ts.tv_sec * 1000LL + ts.tv_nsec / 1000000;
}

int main(int argc, char **argv)
{
  int ofd, efd, lfd0 = -1;
  sigset_t ss;
  (void) argc; (void) argv; (void) lfd0;
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  ofd = memfd_create("o", 0);
  efd = memfd_create("e", 0);
  sigemptyset(&ss); sigaddset(&ss, SIGCHLD);
  sigprocmask(SIG_BLOCK, &ss, NULL);
  for (;;) {
    uint32_t len, nf = 0, i;
    char *buf, **f;
    uint32_t hdr[4];
    char *ob, *eb;
    int status = 0, timed_out = 0, timeout_ms, nenv;
    pid_t pid;
    rd(&len, 4);
    buf = malloc(len + 1);
    rd(buf, len);
    buf[len] = 0;
    for (i = 0; i < len; i++) if (!buf[i]) nf++;
    f = calloc(nf + 2, sizeof(char *));
    {
      char *p = buf;
      for (i = 0; i < nf; i++) { f[i] = p; p += strlen(p) + 1; }
    }
    timeout_ms = atoi(f[1]);
    nenv = atoi(f[4]);
    if (ftruncate(ofd, 0) || ftruncate(efd, 0)) _exit(3);
    lseek(ofd, 0, SEEK_SET); lseek(efd, 0, SEEK_SET);
    pid = fork();
    if (pid == 0) {
      int n;
      char **av = f + 5 + nenv;
      int ac = nf - 5 - nenv;
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      setpgid(0, 0);
      sigprocmask(SIG_UNBLOCK, &ss, NULL);
      if (f[0][0] && chdir(f[0])) _exit(120);
      if (strcmp(f[2], "-")) { use_fake = 1; fake_now = atol(f[2]); }
      for (n = 0; n < nenv; n++) {
        char *e = strdup(f[5 + n]);
        if (strchr(e, '=')) putenv(e); else unsetenv(e);
      }
#ifndef ASAN_VARIANT
      if (atoi(f[3])) {
        struct rlimit rl;
        rl.rlim_cur = rl.rlim_max = (rlim_t) atoi(f[3]) << 20;
        setrlimit(RLIMIT_AS, &rl);
      }
#endif
      {
        struct rlimit rl = {0, 0};
        setrlimit(RLIMIT_CORE, &rl);
      }
      n = open("/dev/null", O_RDONLY);
      dup2(n, 0); if (n > 2) close(n);
      dup2(ofd, 1); dup2(efd, 2);
      close(ofd); close(efd);
      av[ac] = NULL;
      exit(mairix_main(ac, av));
    }
    {
      long long end = mono_ms() + timeout_ms;
      /* fast path: short blocking waits via sigtimedwait on SIGCHLD */
      for (;;) {
        pid_t r = waitpid(pid, &status, WNOHANG);
        long long left;
        struct timespec ts;
        if (r == pid) break;
        left = end - mono_ms();
        if (left <= 0) {
          timed_out = 1;
          kill(-pid, SIGKILL); kill(pid, SIGKILL);
          waitpid(pid, &status, 0);
          break;
        }
        ts.tv_sec = left / 1000; ts.tv_nsec = (left % 1000) * 1000000;
        sigtimedwait(&ss, NULL, &ts);
      }
      kill(-pid, SIGKILL);
      while (waitpid(-1, NULL, WNOHANG) > 0) ;
    }
    hdr[0] = status; hdr[1] = timed_out;
    ob = slurp(ofd, &hdr[2]);
    eb = slurp(efd, &hdr[3]);
    wr(hdr, sizeof hdr);
    wr(ob, hdr[2]);
    wr(eb, hdr[3]);
    free(ob); free(eb); free(f); free(buf);
  }
}
