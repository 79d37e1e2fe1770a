/* A mail program: carries out the file operations given as arguments, one system call at a time.
 *   create F SRC   open F for writing, write the contents of SRC, close
 *   half F SRC     the same in two writes
 *   append F SRC   append the contents of SRC to F;  appendhalf F SRC: in two writes
 *   rewrite F SRC  truncate F and write the contents of SRC
 *   rename A B, link A B, unlink A, mkdir A, rmdir A
 * The sources lie outside the directories that are watched. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>

static int failed;
static void fail(const char *s) { perror(s); failed = 1; }

static void put(const char *f, const char *src, int flags, int pieces)
{
  static char buf[1 << 20];
  int s = open(src, O_RDONLY), d, n;
  if (s < 0 || (n = read(s, buf, sizeof buf)) < 0) { fail(src); return; }
  close(s);
  d = open(f, O_WRONLY | flags, 0644);
  if (d < 0) { fail(f); return; }
  if (pieces == 2) {
    int h = n / 2;
    if (write(d, buf, h) != h || write(d, buf + h, n - h) != n - h) fail(f);
  } else if (write(d, buf, n) != n) fail(f);
  close(d);
}

int main(int argc, char **argv)
{
  int i = 1;
  while (i < argc) {
    const char *o = argv[i++], *a = i < argc ? argv[i] : "", *b = i + 1 < argc ? argv[i + 1] : "";
    int r = 0, two = 1;
    if (!strcmp(o, "create")) put(a, b, O_CREAT | O_TRUNC, 1);
    else if (!strcmp(o, "half")) put(a, b, O_CREAT | O_TRUNC, 2);
    else if (!strcmp(o, "append")) put(a, b, O_CREAT | O_APPEND, 1);
    else if (!strcmp(o, "appendhalf")) put(a, b, O_CREAT | O_APPEND, 2);
    else if (!strcmp(o, "rewrite")) put(a, b, O_TRUNC, 1);
    else if (!strcmp(o, "rename")) r = rename(a, b);
    else if (!strcmp(o, "link")) r = link(a, b);
    else if (two = 0, !strcmp(o, "unlink")) r = unlink(a);
    else if (!strcmp(o, "mkdir")) r = mkdir(a, 0755);
    else if (!strcmp(o, "rmdir")) r = rmdir(a);
    else { fprintf(stderr, "unknown operation %s\n", o); return 2; }
    if (r < 0) fail(a);
    i += 1 + two;
  }
  return failed;
}
