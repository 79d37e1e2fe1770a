/* Preloaded into mairix: the MF_N'th allocation fails (with MF_LIB: that libraries make from when the database is locked, else: that the program itself makes,
 * counted from the start of main); with MF_STICKY all later ones too.  The number of allocations is written to file
 * descriptor MF_FD at exit. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <link.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
static long n, at = -1;
static int sticky, armed, fd = -1, lib;
static char *lo, *hi;
static int prog(struct dl_phdr_info *i, size_t s, void *d)
{
  int k;
  for (k = 0; k < i->dlpi_phnum; k++) {
    char *a = (char *) i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
    if (i->dlpi_phdr[k].p_type != PT_LOAD) continue;
    if (!lo || a < lo) lo = a;
    if (a + i->dlpi_phdr[k].p_memsz > hi) hi = a + i->dlpi_phdr[k].p_memsz;
  }
  return 1; /* the program itself comes first */
}
__attribute__((constructor)) static void start(void)
{
  const char *e;
  if ((e = getenv("MF_N"))) at = atol(e);
  sticky = getenv("MF_STICKY") != NULL;
  if ((e = getenv("MF_FD"))) fd = atoi(e);
  lib = getenv("MF_LIB") != NULL;
  dl_iterate_phdr(prog, NULL);
  unsetenv("LD_PRELOAD");
  armed = !lib;
}
int link(const char *a, const char *b)
{
  armed = 1; /* takes the lock */
  return linkat(AT_FDCWD, a, AT_FDCWD, b, 0);
}
static int fails(void *from)
{
  if (!armed || ((char *) from >= lo && (char *) from < hi) == lib) return 0;
  n++;
  if (n == at || (sticky && at > 0 && n > at)) { errno = ENOMEM; return 1; }
  return 0;
}
__attribute__((destructor)) static void end(void)
{
  char b[32];
  int i = sizeof b;
  long v = n;
  if (fd < 0) return;
  do { b[--i] = '0' + v % 10; v /= 10; } while (v);
  if (write(fd, b + i, sizeof b - i) < 0) { }
}
void *malloc(size_t s) { return fails(__builtin_return_address(0)) ? NULL : __libc_malloc(s); }
void *calloc(size_t a, size_t b) { return fails(__builtin_return_address(0)) ? NULL : __libc_calloc(a, b); }
void *realloc(void *p, size_t s) { return fails(__builtin_return_address(0)) ? NULL : __libc_realloc(p, s); }
