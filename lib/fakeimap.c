/* Scripted IMAP server on stdin/stdout, strict about what the client sends.
 *
 * fakeimap STATE LOG [key=value ...]
 *
 * STATE : directory; each subdirectory is a mailbox: .name .uidv .next and one file per message called UID,FLAGS
 *         (FLAGS from D S R F).  Changes made by the client are made there before they are acknowledged.
 * LOG   : every command is appended to it, and every breach of the protocol as a line starting "!".
 *
 * keys  : cut=N (repeatable) chunk=N   pause before output byte N / every N bytes until the client has read everything
 *         close=N  close the connection before output byte N;  stall=N stop sending there
 *         sub=N:HH ins=N:HH del=N      replace / insert / leave out output byte N
 *         no=K bad=K bye=K drop=K      answer command K (0-based) NO / BAD / BYE+close / not at all
 *         caps=[gl]* preauth=1 user=HEX pass=HEX
 *         perm=K  order of the EXAMINE/SELECT data;  forder=K attribute order;  rev=1 messages in reverse;  lit=q quoted strings
 *         uns=K unspos=MASK            unsolicited response K before (1), between (2), after (4) the data of every reply
 *         idle=MS end the session when the client sends nothing for that long
 *         hostile=K hat=N send nonsense K before the reply to command N (-1: before the greeting)
 *         count=1 log "# N" after each reply: N bytes sent so far
 *         tt=K    text of tagged replies;  emptystore=1 STORE on an empty mailbox is BAD;  nl=1 bare LF line ends
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <ctype.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/stat.h>

static const char *state, *logname;
static long closeat = -1, stallat = -1, subat = -1, insat = -1, delat = -1, chunk = 0;
static int subc, insc;
static long cuts[64];
static int ncuts;
static int idle = -1, count, hostile = -1, hostileat = -2;
static int no = -1, bad = -1, bye = -1, dropc = -1;
static const char *caps = "";
static int preauth, perm, forder, rev, litq, uns = -1, unspos, tt, emptystore, barelf;
static int kw, kwn;
static char *user, *pass;

static char obuf[1 << 16];
static int on;
static long opos;

static void flush(void)
{
  int i = 0;
  while (i < on) {
    int r = write(1, obuf + i, on - i);
    if (r < 0) { if (errno == EINTR) continue; _exit(0); }
    i += r;
  }
  on = 0;
}

static void drained(void)
{
  int n, k;
  flush();
  for (k = 0; k < 100000; k++) {
    struct pollfd p = {1, 0, 0};
    if (ioctl(1, FIONREAD, &n) < 0 || n == 0) return;
    if (poll(&p, 1, 0) > 0 && (p.revents & (POLLERR | POLLNVAL))) _exit(0);
    usleep(k < 200 ? 5 : 100);
  }
}

static void put1(int c)
{
  if (on == sizeof(obuf)) flush();
  obuf[on++] = c;
}

static void outc(int c)
{
  int i;
  if (opos == closeat) { flush(); _exit(0); }
  if (opos == stallat) {
    char b[4096];
    flush();
    while (read(0, b, sizeof(b)) > 0) ;
    _exit(0);
  }
  if (chunk && opos && opos % chunk == 0) drained();
  for (i = 0; i < ncuts; i++) if (cuts[i] == opos) drained();
  if (opos == insat) put1(insc);
  if (opos != delat) put1(opos == subat ? subc : c);
  opos++;
}

static void outn(const char *s, size_t n) { while (n--) outc((unsigned char) *s++); }
static void outs(const char *s)
{
  for (; *s; s++) {
    if (*s == '\r' && barelf) continue;
    outc((unsigned char) *s);
  }
}

static void lg(const char *what, const char *s, size_t n)
{
  FILE *f = fopen(logname, "a");
  size_t i;
  if (!f) return;
  fputs(what, f);
  for (i = 0; i < n; i++) {
    unsigned char c = s[i];
    if (c >= 32 && c < 127 && c != '\\') fputc(c, f); else fprintf(f, "\\x%02x", c);
  }
  fputc('\n', f);
  fclose(f);
}

/* ---------------- mailboxes */
struct msg { unsigned long uid; char flags[8]; char file[300]; };
struct box { char dir[512]; unsigned long uidv, next; struct msg *m; int n; };
static struct box sel;
static int selected, readonly;

static int cmpmsg(const void *a, const void *b)
{
  const struct msg *x = a, *y = b;
  return (x->uid > y->uid) - (x->uid < y->uid);
}

static char *slurp(const char *p, size_t *n)
{
  FILE *f = fopen(p, "rb");
  char *b;
  long l;
  if (!f) { *n = 0; return NULL; }
  fseek(f, 0, SEEK_END); l = ftell(f); rewind(f);
  b = malloc(l + 1);
  *n = fread(b, 1, l, f);
  b[*n] = 0;
  fclose(f);
  return b;
}

static int openbox(const char *name, size_t len, struct box *b)
{
  DIR *d = opendir(state), *e;
  struct dirent *x;
  char p[1024];
  if (!d) return 0;
  while ((x = readdir(d))) {
    size_t n;
    char *nm;
    if (x->d_name[0] == '.') continue;
    snprintf(p, sizeof(p), "%s/%s/.name", state, x->d_name);
    nm = slurp(p, &n);
    if (nm && n == len && !memcmp(nm, name, n)) {
      free(nm);
      memset(b, 0, sizeof(*b));
      snprintf(b->dir, sizeof(b->dir), "%s/%s", state, x->d_name);
      closedir(d);
      snprintf(p, sizeof(p), "%s/.uidv", b->dir);
      nm = slurp(p, &n); b->uidv = nm ? strtoul(nm, 0, 10) : 1; free(nm);
      snprintf(p, sizeof(p), "%s/.next", b->dir);
      nm = slurp(p, &n); b->next = nm ? strtoul(nm, 0, 10) : 1; free(nm);
      e = opendir(b->dir);
      b->m = malloc(sizeof(struct msg) * 4096);
      while ((x = readdir(e))) {
        struct msg *m = b->m + b->n;
        char *c = strchr(x->d_name, ',');
        if (x->d_name[0] == '.' || !c) continue;
        m->uid = strtoul(x->d_name, 0, 10);
        snprintf(m->flags, sizeof(m->flags), "%s", c + 1);
        snprintf(m->file, sizeof(m->file), "%s", x->d_name);
        if (++b->n >= 4096) break;
      }
      closedir(e);
      qsort(b->m, b->n, sizeof(struct msg), cmpmsg);
      return 1;
    }
    free(nm);
  }
  closedir(d);
  return 0;
}

static void setnext(struct box *b)
{
  char p[1024];
  FILE *f;
  snprintf(p, sizeof(p), "%s/.next", b->dir);
  f = fopen(p, "w"); fprintf(f, "%lu\n", b->next); fclose(f);
}

static void store(struct box *b, const char *data, size_t n, const char *flags)
{
  char p[1024];
  FILE *f;
  snprintf(p, sizeof(p), "%s/%lu,%s", b->dir, b->next++, flags);
  f = fopen(p, "wb");
  fwrite(data, 1, n, f);
  fclose(f);
  setnext(b);
}

/* ---------------- command reading */

static int inb(void)
{
  static char b[65536];
  static int p, n;
  if (p == n) {
    if (idle >= 0) {
      struct pollfd f = {0, POLLIN, 0};
      if (poll(&f, 1, idle) == 0) _exit(0);
    }
    n = read(0, b, sizeof(b));
    p = 0;
    if (n <= 0) _exit(0);
  }
  return (unsigned char) b[p++];
}

struct arg { int type; char *s; size_t n; };        /* 'a'tom, 's'tring, 'l'ist */
static struct arg args[16];
static int nargs;
static char raw[1 << 20];
static size_t rawn;
static char *problem;

static int nextc(void) { int c = inb(); if (rawn < sizeof(raw)) raw[rawn++] = c; return c; }

static void readcmd(void)
{
  int c, i;
  for (i = 0; i < nargs; i++) free(args[i].s);
  nargs = 0; rawn = 0; problem = NULL;
  for (;;) {
    char *s = malloc(1 << 16);
    size_t n = 0, max = 1 << 16;
    int type = 'a';
#define ADD(c) do { if (n + 1 >= max) { max *= 2; s = realloc(s, max); } s[n++] = (c); } while (0)
    c = nextc();
    if (c == '"') {
      type = 's';
      while ((c = nextc()) != '"') {
        if (c == '\\') {
          c = nextc();
          if (c != '"' && c != '\\') problem = "bad escape in quoted string";
        } else if (c == '\r' || c == '\n' || c == 0 || c > 126) problem = "bad character in quoted string";
        if (c == '\n') break;
        ADD(c);
      }
      c = nextc();
    } else if (c == '{') {
      size_t k = 0, j;
      type = 's';
      while (isdigit(c = nextc())) k = k * 10 + c - '0';
      if (c != '+' || nextc() != '}' || nextc() != '\r' || nextc() != '\n') problem = "bad literal";
      for (j = 0; j < k; j++) ADD(inb());
      c = nextc();
    } else if (c == '(') {
      type = 'l';
      while ((c = nextc()) != ')' && c != '\n') ADD(c);
      if (c == '\n') problem = "open list"; else c = nextc();
    } else {
      while (c != ' ' && c != '\r' && c != '\n') {
        if (c < 33 || c > 126 || strchr("(){\"", c) || (c == '%') ) problem = "bad atom";
        ADD(c);
        c = nextc();
      }
      if (!n) problem = "empty argument";
    }
    s[n] = 0;
    if (nargs < 16) { args[nargs].type = type; args[nargs].s = s; args[nargs].n = n; nargs++; }
    if (c == ' ') continue;
    if (c == '\r') { if (nextc() != '\n') problem = "CR without LF"; break; }
    problem = "line ends badly";
    if (c == '\n') break;
    while (nextc() != '\n') ;
    break;
  }
  if (nargs < 2) problem = "no command";
}

/* ---------------- replies */
static const char *unsol[] = {
  "* 7 EXISTS\r\n", "* 2 RECENT\r\n", "* 1 FETCH (FLAGS (\\Seen))\r\n", "* OK Still here\r\n",
  "* FLAGS (\\Answered \\Flagged \\Deleted \\Seen \\Draft)\r\n", "* NO [ALERT] disk (nearly) \"full\"\r\n",
  "* LIST (\\HasNoChildren) \"/\" \"a \\\"b\\\\ c\"\r\n", "* LIST () NIL {5}\r\nab)c\"\r\n", "* SEARCH\r\n", "* ENABLED\r\n",
  "* 3 FETCH (FLAGS (\\Deleted))\r\n", "* OK [HIGHESTMODSEQ 5] x\r\n", "* STATUS \"x y\" (MESSAGES 3)\r\n", "* OK [ALERT (a \"b\")] c) d ] {\r\n",
};
static void data(void)
{
  if (uns >= 0 && (unspos & 2)) outs(unsol[uns]);
}
static const char *texts[] = { "completed", "done (0.001 + 0.000 secs).", "it's \"done\"", "[READ-ONLY] ok", "[APPENDUID 1 2] (x", "{ok", "x" };
static void tagged(const char *st, const char *code)
{
  if (uns >= 0 && (unspos & 4)) outs(unsol[uns]);
  outs(args[0].s); outs(" "); outs(st); outs(" ");
  if (code) { outs(code); outs(" "); }
  outs(code ? "text" : texts[tt]); outs("\r\n");
  if (count) {
    char b[40];
    sprintf(b, "%ld", opos);
    lg("# ", b, strlen(b));
  }
  flush();
}

static void flagtext(const char *f)
{
  int k = 0;
  outs("(");
  for (; *f; f++) {
    const char *n = *f == 'D' ? "\\Deleted" : *f == 'S' ? "\\Seen" : *f == 'R' ? "\\Answered" : *f == 'F' ? "\\Flagged" : "$Label1";
    if (k++) outs(" ");
    outs(n);
  }
  if (kw) {
    /* a keyword; every one sent is a character longer than the one before */
    int j;
    if (k++) outs(" ");
    outs("$");
    for (j = 1; j < kw + kwn; j++) outc('k');
    kwn++;
  }
  outs(")");
}

static void body(const char *d, size_t n)
{
  char b[40];
  size_t i;
  int q = litq;
  for (i = 0; i < n; i++) if (d[i] == 0 || d[i] == '\r' || d[i] == '\n' || (unsigned char) d[i] > 126) q = 0;
  if (q) {
    outs("\"");
    for (i = 0; i < n; i++) { if (d[i] == '"' || d[i] == '\\') outc('\\'); outc(d[i]); }
    outs("\"");
  } else {
    sprintf(b, "{%zu}\r\n", n);
    outs(b);
    outn(d, n);
  }
}

static void fetch1(int i, int what)
{
  char b[80], p[1024];
  char *d = NULL;
  size_t n = 0;
  struct msg *m = sel.m + i;
  if (what) {
    snprintf(p, sizeof(p), "%s/%s", sel.dir, m->file);
    d = slurp(p, &n);
  }
  sprintf(b, "* %d FETCH (", i + 1); outs(b);
  sprintf(b, "UID %lu", m->uid);
  switch (forder) {
    default: case 0: outs(b); outs(" "); if (what) { outs("BODY[] "); body(d, n); } else { outs("FLAGS "); flagtext(m->flags); } break;
    case 1: if (what) { outs("BODY[] "); body(d, n); } else { outs("FLAGS "); flagtext(m->flags); } outs(" "); outs(b); break;
    case 2: outs("FLAGS "); flagtext(m->flags); outs(" "); outs(b); if (what) { outs(" BODY[] "); body(d, n); } break;
    case 3: outs("MODSEQ (12) "); outs(b); if (what) { outs(" BODY[] "); body(d, n); } outs(" FLAGS "); flagtext(m->flags); break;
    case 4: outs(b); outs(" INTERNALDATE \"17-Jul-1996 02:44:25 -0700\" FLAGS "); flagtext(m->flags);
            if (what) { outs(" BODY[] "); body(d, n); } outs(" RFC822.SIZE 44"); break;
    case 5: outs("ENVELOPE (NIL \"UID 9\" ((NIL NIL \"x\" \"FLAGS\")) {9}\r\nUID 1 (\")) "); if (what) { outs("BODY[] "); body(d, n); outs(" "); }
            outs("FLAGS "); flagtext(m->flags); outs(" "); outs(b); break;
  }
  outs(")\r\n");
  free(d);
}

static void examine(void)
{
  static const int f[] = {120, 24, 6, 2, 1, 1};
  int left[6] = {0, 1, 2, 3, 4, 5}, n = 6, k = perm % 720, i, j, x;
  char b[200];
  for (i = 0; i < 6; i++) {
    j = k / f[i]; k %= f[i];
    x = left[j];
    for (; j < n - 1; j++) left[j] = left[j + 1];
    n--;
    switch (x) {
      case 0: outs("* FLAGS (\\Answered \\Flagged \\Deleted \\Seen \\Draft $Label1)\r\n"); break;
      case 1: sprintf(b, "* %d EXISTS\r\n", sel.n); outs(b); break;
      case 2: outs("* 0 RECENT\r\n"); break;
      case 3: sprintf(b, "* OK [UIDVALIDITY %lu] UIDs valid\r\n", sel.uidv); outs(b); break;
      case 4: sprintf(b, "* OK [UIDNEXT %lu] Predicted next UID\r\n", sel.next); outs(b); break;
      case 5: outs("* OK [PERMANENTFLAGS (\\Deleted \\*)] Flags permitted.\r\n"); break;
    }
    data();
  }
}

static void many(const char *s, int n) { while (n--) outs(s); }

static void nonsense(void)
{
  switch (hostile) {
    case 0: outs("* 1 FETCH (UID 1 BODY[] {99999999999}\r\n"); break;
    case 1: outs("* 1 FETCH (UID 1 BODY[] {2147483647}\r\n"); break;
    case 2: outs("* 1 FETCH (UID 1 BODY[] {4294967295}\r\n"); break;
    case 3: outs("* 1 FETCH (UID 1 BODY[] {4294967296}\r\nabc)\r\n"); break;
    case 4: outs("* "); many("(", 1000000); outs("\r\n"); break;
    case 5: outs("* "); many("(", 300000); many(")", 300000); outs("\r\n"); break;
    case 6: outs("* "); many("x", 3000000); outs("\r\n"); break;
    case 7: outs("* "); many("x ", 300000); outs("\r\n"); break;
    case 8: outs("* "); many("{0}\r\n ", 100000); outs("\r\n"); break;
    case 9: outs("* "); many("\"\" ", 100000); outs("\r\n"); break;
    case 10: outs("* \""); many("y", 1000000); outs("\r\n"); break;
    case 11: outs("t99999999999999999999999 OK x\r\n"); break;
    case 12: outs("* x "); many("[", 100000); outs("\r\n"); break;
    case 13: outs("* OK [UIDVALIDITY] x\r\n* OK [] x\r\n* OK\r\n* 5\r\n* EXISTS\r\n* 1 FETCH\r\n* 1 FETCH ()\r\n* 1 FETCH (UID)\r\n* ()\r\n* (EXISTS 3)\r\n"); break;
    case 14: outs("* OK [UIDVALIDITY (1)] x\r\n* OK [(UIDVALIDITY) 1] x\r\n* OK ( x\r\n* (5) EXISTS\r\n* 1 FETCH (UID (1) FLAGS \\Deleted)\r\n* 1 FETCH (UID 1 BODY[] x)\r\n* 1 FETCH (UID 1 BODY[] (x))\r\n* 1 FETCH ((UID) 1)\r\n"); break;
    case 15: outs("* CAPABILITY\r\n* (CAPABILITY)\r\n* 99999999999999999999 EXISTS\r\n* -5 EXISTS\r\n"); break;
    case 16: outs("+ go on\r\n+\r\n"); break;
    case 17: outs("\r\n"); break;
    case 18: outs("*\r\n"); break;
    case 19: many("* OK x\r\n", 100000); break;
    case 20: outs("* 1 FETCH (UID 1 BODY[] {-5}\r\nabc)\r\n"); break;
    case 21: outs("* 1 FETCH (UID 1 BODY[] {3}abc)\r\n"); break;
    case 22: outs("* x )))) ]]]] \"a\\\r\n"); break;
    case 23: outs("* OK [UIDVALIDITY "); many("9", 100000); outs("] x\r\n"); break;
    case 24: outs("* 1 FETCH (UID "); many("9", 100000); outs(" FLAGS ())\r\n"); break;
    case 25: outs("* 1 FETCH (UID ../../x FLAGS ())\r\n* 2 FETCH (UID 5:6 FLAGS ())\r\n* 3 FETCH (UID : FLAGS ())\r\n"); break;
    case 26: outn("* OK \0\0\0 [\0] (\0) {\0}\r\n", 25); break;
    case 27: outs("t0 OK\r\nt1\r\nt2 \r\nt3 ()\r\nt4 []\r\nt5 OK [] \r\n"); break;
  }
  flush();
}
#define NHOSTILE 28

static int is(int i, const char *s) { return i < nargs && args[i].type == 'a' && !strcasecmp(args[i].s, s); }

static char *unhex(const char *h)
{
  char *r = malloc(strlen(h) / 2 + 1);
  int n = 0, x;
  for (; h[0] && h[1]; h += 2) { sscanf(h, "%2x", &x); r[n++] = x; }
  r[n] = 0;
  return r;
}

#define CAPS "CAPABILITY IMAP4rev1 LITERAL+ AUTH=PLAIN UIDPLUS"

int main(int argc, char **argv)
{
  int i, ncmd = 0, auth;
  signal(SIGPIPE, SIG_IGN);
  signal(SIGALRM, SIG_DFL);
  alarm(100);
  state = argv[1]; logname = argv[2];
  for (i = 3; i < argc; i++) {
    char *v = strchr(argv[i], '=');
    if (!v) continue;
    *v++ = 0;
#define OPT(n) if (!strcmp(argv[i], n))
    OPT("cut") cuts[ncuts++] = atol(v);
    OPT("chunk") chunk = atol(v);
    OPT("close") closeat = atol(v);
    OPT("stall") stallat = atol(v);
    OPT("sub") sscanf(v, "%ld:%x", &subat, &subc);
    OPT("ins") sscanf(v, "%ld:%x", &insat, &insc);
    OPT("del") delat = atol(v);
    OPT("no") no = atoi(v);
    OPT("bad") bad = atoi(v);
    OPT("bye") bye = atoi(v);
    OPT("drop") dropc = atoi(v);
    OPT("count") count = atoi(v);
    OPT("hostile") hostile = atoi(v);
    OPT("hat") hostileat = atoi(v);
    OPT("idle") idle = atoi(v);
    OPT("caps") caps = v;
    OPT("preauth") preauth = atoi(v);
    OPT("perm") perm = atoi(v);
    OPT("kw") kw = atoi(v);
    OPT("forder") forder = atoi(v);
    OPT("rev") rev = atoi(v);
    OPT("lit") litq = v[0] == 'q';
    OPT("uns") uns = atoi(v);
    OPT("unspos") unspos = atoi(v);
    OPT("tt") tt = atoi(v);
    OPT("emptystore") emptystore = atoi(v);
    OPT("nl") barelf = atoi(v);
    OPT("user") user = unhex(v);
    OPT("pass") pass = unhex(v);
  }
  auth = preauth;
  if (hostileat == -1) nonsense();
  outs(preauth ? "* PREAUTH " : "* OK ");
  if (strchr(caps, 'g')) outs("[" CAPS "] ");
  outs("server ready\r\n");
  flush();
  for (;; ncmd++) {
    readcmd();
    lg("", raw, rawn > 2 ? rawn - 2 : rawn);
    if (problem) {
      lg("! ", problem, strlen(problem));
      if (nargs < 1) { outs("* BAD what\r\n"); flush(); continue; }
      tagged("BAD", NULL);
      continue;
    }
    if (ncmd == hostileat) nonsense();
    if (ncmd == dropc) _exit(0);
    if (ncmd == bye) { outs("* BYE going down\r\n"); flush(); _exit(0); }
    if (ncmd == no || ncmd == bad) {
      if (is(1, "SELECT") || is(1, "EXAMINE")) selected = 0;
      tagged(ncmd == no ? "NO" : "BAD", NULL);
      continue;
    }
    if (uns >= 0 && (unspos & 1)) outs(unsol[uns]);
    if (is(1, "CAPABILITY") && nargs == 2) {
      outs("* " CAPS "\r\n");
      tagged("OK", NULL);
    } else if (is(1, "LOGOUT") && nargs == 2) {
      outs("* BYE bye\r\n");
      tagged("OK", NULL);
      _exit(0);
    } else if (is(1, "NOOP") && nargs == 2) {
      tagged("OK", NULL);
    } else if (is(1, "LOGIN") && nargs == 4) {
      if (auth) lg("! ", "LOGIN twice", 11);
      if (user && (strcmp(args[2].s, user) || strcmp(args[3].s, pass))) { tagged("NO", NULL); continue; }
      auth = 1;
      tagged("OK", strchr(caps, 'l') ? "[" CAPS "]" : NULL);
    } else if (!auth) {
      lg("! ", "not logged in", 13);
      tagged("BAD", NULL);
    } else if ((is(1, "SELECT") || is(1, "EXAMINE")) && nargs == 3) {
      free(sel.m); sel.m = NULL;
      selected = openbox(args[2].s, args[2].n, &sel);
      if (!selected) { tagged("NO", NULL); continue; }
      readonly = is(1, "EXAMINE");
      examine();
      tagged("OK", readonly ? "[READ-ONLY]" : "[READ-WRITE]");
    } else if (is(1, "CREATE") && nargs == 3) {
      struct box b;
      char p[1024];
      FILE *f;
      int k;
      if (openbox(args[2].s, args[2].n, &b)) { tagged("NO", NULL); continue; }
      for (k = 0; k < 1000; k++) { snprintf(p, sizeof(p), "%s/c%d", state, k); if (!mkdir(p, 0777)) break; }
      snprintf(p, sizeof(p), "%s/c%d/.uidv", state, k); f = fopen(p, "w"); fputs("99", f); fclose(f);
      snprintf(p, sizeof(p), "%s/c%d/.next", state, k); f = fopen(p, "w"); fputs("1", f); fclose(f);
      snprintf(p, sizeof(p), "%s/c%d/.name", state, k); f = fopen(p, "w"); fwrite(args[2].s, 1, args[2].n, f); fclose(f);
      tagged("OK", NULL);
    } else if (is(1, "APPEND") && (nargs == 4 || nargs == 5) && args[nargs - 1].type == 's' && (nargs == 4 || args[3].type == 'l')) {
      struct box b;
      char fl[8];
      int k = 0;
      if (!openbox(args[2].s, args[2].n, &b)) { tagged("NO", "[TRYCREATE]"); continue; }
      if (nargs == 5) {
        char *t = strdup(args[3].s), *x;
        for (x = strtok(t, " "); x; x = strtok(NULL, " ")) {
          if (!strcasecmp(x, "\\Seen")) fl[k++] = 'S';
          else if (!strcasecmp(x, "\\Answered")) fl[k++] = 'R';
          else if (!strcasecmp(x, "\\Flagged")) fl[k++] = 'F';
          else lg("! ", "strange flag", 12);
        }
        free(t);
      }
      fl[k] = 0;
      store(&b, args[nargs - 1].s, args[nargs - 1].n, fl);
      free(b.m);
      tagged("OK", NULL);
    } else if (!selected) {
      lg("! ", "no mailbox is selected", 22);
      tagged("BAD", NULL);
    } else if (is(1, "UID") && is(2, "FETCH") && nargs == 5) {
      int what = is(4, "BODY.PEEK[]"), k;
      unsigned long u = strtoul(args[3].s, 0, 10);
      if (!what && !is(4, "FLAGS")) { lg("! ", "strange fetch", 13); tagged("BAD", NULL); continue; }
      for (k = 0; k < sel.n; k++) {
        int j = rev ? sel.n - 1 - k : k;
        if (is(3, "1:*") || u == sel.m[j].uid) { fetch1(j, what); data(); }
      }
      tagged("OK", NULL);
    } else if (is(1, "UID") && is(2, "COPY") && nargs == 5) {
      struct box b;
      int k;
      unsigned long u = strtoul(args[3].s, 0, 10);
      if (!openbox(args[4].s, args[4].n, &b)) { tagged("NO", "[TRYCREATE]"); continue; }
      for (k = 0; k < sel.n; k++) if (sel.m[k].uid == u) {
        char p[1024], *d;
        size_t n;
        snprintf(p, sizeof(p), "%s/%s", sel.dir, sel.m[k].file);
        d = slurp(p, &n);
        store(&b, d, n, sel.m[k].flags);
        free(d);
      }
      free(b.m);
      tagged("OK", NULL);
    } else if (is(1, "STORE") && nargs == 5 && is(3, "+FLAGS") && (is(4, "\\Deleted") || (args[4].type == 'l' && !strcmp(args[4].s, "\\Deleted")))) {
      int k;
      if (readonly) { lg("! ", "STORE in a read-only mailbox", 28); tagged("NO", NULL); continue; }
      if (!is(2, "1:*")) lg("! ", "strange set", 11);
      if (!sel.n && emptystore) { tagged("BAD", NULL); continue; }
      for (k = 0; k < sel.n; k++) {
        char p[1024], q[1024], b[80];
        struct msg *m = sel.m + k;
        if (!strchr(m->flags, 'D')) {
          snprintf(p, sizeof(p), "%s/%s", sel.dir, m->file);
          snprintf(m->flags + strlen(m->flags), 2, "D");
          snprintf(m->file, sizeof(m->file), "%lu,%s", m->uid, m->flags);
          snprintf(q, sizeof(q), "%s/%s", sel.dir, m->file);
          rename(p, q);
        }
        sprintf(b, "* %d FETCH (FLAGS ", k + 1); outs(b); flagtext(m->flags); outs(")\r\n");
        data();
      }
      tagged("OK", NULL);
    } else if (is(1, "EXPUNGE") && nargs == 2) {
      int k, j = 0;
      char p[1024], b[80];
      if (readonly) { lg("! ", "EXPUNGE in a read-only mailbox", 30); tagged("NO", NULL); continue; }
      for (k = 0; k < sel.n; k++) {
        if (strchr(sel.m[k].flags, 'D')) {
          snprintf(p, sizeof(p), "%s/%s", sel.dir, sel.m[k].file);
          unlink(p);
          sprintf(b, "* %d EXPUNGE\r\n", j + 1); outs(b);
          data();
        } else sel.m[j++] = sel.m[k];
      }
      sel.n = j;
      tagged("OK", NULL);
    } else {
      lg("! ", "unknown command", 15);
      tagged("BAD", NULL);
    }
  }
}
