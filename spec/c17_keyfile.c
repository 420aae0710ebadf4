/* C17: files with keys and passwords (src/keyfile.c) under contract. */
#include "vp.h"
#include "internals.h"
#include "irc.h"
#include "keyfile.h"
#include <fcntl.h>
#include <errno.h>
#include <string.h>
#include <unistd.h>
unsigned char vp_byte; int vp_errno;
#undef errno
#define errno vp_errno
static char FNAME[2], HDR[2], LN[2], NK[2], PW[2], NW[3]; static struct keyfile_entry E, NE; static GList CELL; static int left, total, owed, fdo, nclose, linelive, bad, nopen; static const char *cur; static size_t HL, LL, off;
#undef g_free
#undef g_new0
#undef g_strdup_printf
#undef g_list_append
#define log_global(...) ((void)0)
void vp_free(void *p);
#define g_free vp_free
#define g_new0(t, n) ((t *)vp_new(sizeof(t) * (n)))
void *vp_new(size_t n);
#ifdef P_WRITE
void *vp_new(size_t n) { return &NE; }
int vp_open(const char *f, int fl, int mode) { __CPROVER_assert(f == FNAME && (fl & O_CREAT) && (fl & O_TRUNC) && (fl & O_ACCMODE) != O_RDONLY && !(mode & 077) && !nopen, "VP a file nobody else can read, without old contents"); nopen = 1; if (nondet_uchar() & 1) return -1; fdo = 1; return 7; }
#define open vp_open
size_t vp_strlen(const char *s) { __CPROVER_assert(s == HDR || (s == LN && linelive), "VP the header or a line"); return s == HDR ? HL : LL; }
#define strlen vp_strlen
#define START(s, l) do { cur = (s); off = 0; owed = 1; } while (0)
#define CLEN (cur == HDR ? HL : LL)
ssize_t vp_write(int fd, const void *b, size_t n) { size_t r; ssize_t q; __CPROVER_assert(fd == 7 && fdo && owed && !bad, "VP written to the file while all is well"); if (cur == LN && !linelive) __CPROVER_assert(0, "VP writes a line that is there"); __CPROVER_assert((const char *)b == cur + off && n == CLEN - off, "VP the rest of the text"); if (nondet_uchar() & 1) { int e; errno = e; if (e != EINTR) bad = 1; return -1; } __CPROVER_assume(r <= n && (r > 0 || n == 0)); off += r; if (off == CLEN) owed = 0; q = r; return q; }
#define write vp_write
int vp_close(int fd) { __CPROVER_assert(fd == 7 && fdo && !nclose, "VP closed once"); nclose = 1; fdo = 0; return 0; }
#define close vp_close
char *vp_fmt(const char *f, const char *a, const char *b, const char *c) { __CPROVER_assert(f[0] == '%' && f[1] == 's' && f[2] == '\t' && f[3] == '%' && f[4] == 's' && f[5] == '\t' && f[6] == '%' && f[7] == 's' && f[8] == '\n' && !f[9], "VP fields between tabs"); __CPROVER_assert(a == NK && b == PW && (E.network ? c == NW : c[0] == '*' && !c[1]) && !linelive && owed == 2, "VP the name, password and network of each entry"); linelive = 1; { size_t l; __CPROVER_assume(l >= 3 && l <= 1000000); LL = l; } START(LN, LL); return LN; }
#define g_strdup_printf vp_fmt
void vp_free(void *p) { __CPROVER_assert(p == LN && linelive, "VP released once"); linelive = 0; }
#define VISIT do { VREACH("loop body"); __CPROVER_assert(!owed && !linelive && !bad, "VP all of the text before is written"); left--; { _Bool a; E.network = a ? NW : NULL; } E.nick = NK; E.pass = PW; CELL.data = &E; CELL.next = left > 0 ? &CELL : NULL; owed = 2; } while (0)
#include "src/keyfile.c"
void H(void)
{
	gboolean r; size_t l; int t; total = left = t; __CPROVER_assume(total >= 0 && total <= 1000000000); __CPROVER_assume(l <= 1000000); HL = l; fdo = nclose = linelive = bad = nopen = 0; CELL.data = &E; CELL.next = left > 1 ? &CELL : NULL; START(HDR, HL); if (HL == 0) owed = 0; LL = 0;
	r = keyfile_write_file(left > 0 ? &CELL : NULL, HDR, FNAME);
	__CPROVER_assert(nopen == 1 && !fdo && !linelive && nclose <= 1, "VP nothing is left open");
	if (r) { VREACH("written"); __CPROVER_assert(nclose && !bad && !owed && (left == 0 || total == 0), "VP success is reported only if every entry was written in whole"); }
	else { VREACH("failed"); __CPROVER_assert(bad || !nclose, "VP fails only if writing does"); }
}
#endif
#ifdef P_READ
static char LB[5], P0[2], P1[2], P2[3], *PARTS[4], CC; static int np, llive, plive, p2live, nelive, chlive, nshut, nap; static size_t TERM; static GIOChannel *CH; static GList *HEAD; static struct { int x; } CHO;
GIOChannel *vp_open(const char *f, const char *m, GError **e) { __CPROVER_assert(f == FNAME && m[0] == 'r' && !m[1] && !chlive, "VP the file is read"); if (nondet_uchar() & 1) return NULL; chlive = 1; return (void *)&CHO; }
#define g_io_channel_new_file vp_open
GIOStatus vp_enc(GIOChannel *c, const char *e, GError **x) { __CPROVER_assert(c == (void *)&CHO && e == NULL, "VP any bytes"); return G_IO_STATUS_NORMAL; }
#define g_io_channel_set_encoding vp_enc
#define CLEAN (!llive && !plive && !p2live && !owed && !nelive)
GIOStatus vp_line(GIOChannel *c, char **s, gsize *l, gsize *t, GError **e)
{
	size_t k; __CPROVER_assert(c == (void *)&CHO && chlive && CLEAN, "VP each entry is added, and nothing else kept, before the next line"); if (left == 0) return nondet_uchar() & 1 ? G_IO_STATUS_EOF : G_IO_STATUS_ERROR;
	left--; { char a, b, d, f; LB[0] = a; LB[1] = b; LB[2] = d; LB[3] = f; LB[4] = 0; } __CPROVER_assume(k <= 3); TERM = k; if (l) *l = k + 1; if (t) *t = k; *s = LB; llive = 1; return G_IO_STATUS_NORMAL;
}
#define g_io_channel_read_line vp_line
char **vp_split(const char *s, const char *d, int m)
{
	_Bool x; int n; char a, b; __CPROVER_assert(s == LB && llive && !plive && LB[TERM] == 0 && LB[0] != CC && d[0] == '\t' && !d[1] && m == 3, "VP the fields of a line, without its end"); __CPROVER_assume(n >= 0 && n <= 3); np = n; P2[0] = a; P2[1] = b; P2[2] = 0; PARTS[0] = np > 0 ? P0 : NULL; PARTS[1] = np > 1 ? P1 : NULL; PARTS[2] = np > 2 ? P2 : NULL; PARTS[3] = NULL; plive = 1; p2live = np > 2; owed = np > 1; return PARTS;
}
#define g_strsplit vp_split
void vp_freev(char **p) { __CPROVER_assert(p == PARTS && plive && np < 2 && !nelive, "VP lines without a password are skipped"); plive = p2live = 0; }
#define g_strfreev vp_freev
void vp_free(void *p) { if (p == NULL) return; if (p == LB) { __CPROVER_assert(llive, "VP released once"); llive = 0; } else if (p == PARTS) { __CPROVER_assert(plive, "VP released once"); plive = 0; } else { __CPROVER_assert(p == P2 && p2live == 1 && P2[0] == '*' && !P2[1], "VP released once"); p2live = 0; } }
void *vp_new(size_t n) { __CPROVER_assert(n == sizeof NE && !nelive && owed, "VP an entry for each line"); nelive = 1; NE.nick = NE.pass = NE.network = NULL; return &NE; }
GList *vp_append(GList *l, gpointer d) { __CPROVER_assert(l == HEAD && d == &NE && nelive && owed && NE.nick == P0 && NE.pass == P1, "VP the name and password of the line, after the ones before"); __CPROVER_assert(NE.network == (np > 2 && !(P2[0] == '*' && !P2[1]) ? P2 : NULL), "VP the network of the line, or any"); owed = 0; nelive = 0; if (NE.network) p2live = 0; HEAD = &CELL; return HEAD; }
#define g_list_append vp_append
GIOStatus vp_shut(GIOChannel *c, gboolean f, GError **e) { return G_IO_STATUS_NORMAL; }
#define g_io_channel_shutdown vp_shut
void vp_unref(GIOChannel *c) { __CPROVER_assert(c == (void *)&CHO && chlive, "VP closed once"); chlive = 0; }
#define g_io_channel_unref vp_unref
static GList *LIST;
int vp_scmp(const char *a, const char *b) { __CPROVER_assert(a == P2 && b[0] == '*' && !b[1] && p2live, "VP the network"); return !(a[0] == '*' && a[1] == 0); }
#undef strcmp
#define strcmp vp_scmp
#include "src/keyfile.c"
void H(void)
{
	gboolean r; int t; char c; _Bool h; total = left = t; __CPROVER_assume(total >= 0 && total <= 1000000000); __CPROVER_assume(c != 0); CC = c; HEAD = h ? &CELL : NULL; LIST = HEAD; np = llive = plive = p2live = nelive = chlive = owed = 0; TERM = 0;
	r = keyfile_read_file(FNAME, c, &LIST);
	__CPROVER_assert(!chlive && CLEAN && LIST == HEAD && (!r || left == 0), "VP every line is read"); VREACH("keyfile_read_file");
}
#endif
