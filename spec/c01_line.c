/* C01: line codec functions of libirc/line.c under contract, argument lists and
 * strings of any length. String contents are abstracted to their lengths where
 * only lengths matter: PS is the ghost array of prefix sums of the argument
 * lengths (its defining facts are instantiated where an argument is measured). */
#include "vp.h"
#include "internals.h"
#include "irc.h"
unsigned char vp_byte;
#ifndef MAXN
#define MAXN 600
#endif
#define BIG 100000
static struct irc_line L; static char ORIG[2], BUF[2]; static char *GA[MAXN + 2]; size_t NA, LO; unsigned PS[MAXN + 2]; int Gi; static char POOL[MAXN + 2];
/* the current argument is one of the line's own strings (not the origin, not a literal) */
#define AX() __CPROVER_assume(GA[Gi] == POOL + Gi && NN(Gi + 1))
/* well-formed line: no NULL before argc (instantiated for the next index each time round) */
#define NN(k) ((size_t)(k) < NA ==> GA[k] != NULL)
static size_t lenof(size_t k)
{
	__CPROVER_assert(k < NA, "VP measures an argument that exists");
	__CPROVER_assume(PS[k] <= PS[k + 1] && PS[k + 1] <= PS[NA]);	/* prefix sums of lengths */
	return PS[k + 1] - PS[k];
}
static void setup(void)
{
	size_t n, lo; _Bool o;
	__CPROVER_havoc_object(GA); __CPROVER_havoc_object(PS); NA = n; LO = lo;
	__CPROVER_assume(NA <= MAXN - 2 && GA[NA] == NULL && PS[0] == 0 && PS[NA] < BIG && LO < BIG);
	__CPROVER_assume(NN(0));
	L.args = GA; L.argc = NA; L.origin = o ? ORIG : NULL; Gi = -1;
}
#undef g_strdup
#define g_free vp_free
void vp_free(void *p) { }

#ifdef P_STRING
size_t CAP, CUR; int RC, Gph, Gdone, Gempty, Gadd, Gone;
size_t vp_strlen(const char *s) { if (s == ORIG) return LO; __CPROVER_assert(Gi >= 0 && s == GA[Gi], "VP measures the current argument"); return lenof(Gi); }
#define strlen vp_strlen
char *vp_strdup(const char *s) { __CPROVER_assert(s[0] == 0 && NA == 0, "VP empty line"); Gempty = 1; return BUF; }
#define g_strdup vp_strdup
void *vp_malloc(size_t n) { CAP = n; CUR = (size_t)-1; return BUF; }
#define g_malloc vp_malloc
#ifdef P_ORDER
#define grow(n) ((void)0)
#else
static void grow(size_t n) { __CPROVER_assert(CUR < CAP && n < CAP - CUR, "VP text fits in the buffer"); CUR += n; }
#endif
char *vp_strcpy(char *d, const char *s) { __CPROVER_assert(d == BUF && s[0] == 0, "VP starts with an empty string"); CUR = 0; Gph = 0; return d; }
#define strcpy vp_strcpy
/* phases of one argument: 0 before it, 1 colon written, 2 argument written, 3 space written */
int vp_sprintf(char *d, const char *f, const char *s) { __CPROVER_assert(d == BUF && CUR == 0 && Gdone == 0 && f[0] == ':' && f[1] == '%' && f[2] == 's' && f[3] == ' ' && f[4] == 0 && s == ORIG, "VP origin comes first, between colon and space"); grow(LO + 2); Gdone = 1; return 0; }
#define sprintf vp_sprintf
char *vp_strcat(char *d, const char *s)
{
	__CPROVER_assert(d == BUF && Gi >= 0, "VP appends to the line");
#ifndef P_ORDER
	if (s == POOL + Gi) { __CPROVER_assert(Gadd == 0, "VP argument measured once"); Gadd = 1; grow(lenof(Gi)); }
	else { __CPROVER_assert(s[0] != 0 && s[1] == 0, "VP a single character"); Gone++; grow(1); }
	return d;
#else
	if (s == POOL + Gi) { __CPROVER_assert(Gph == ((size_t)Gi == NA - 1 && RC && Gi != 0 ? 1 : 0), "VP each argument once, the last one after its colon"); Gph = 2; grow(lenof(Gi)); }
	else if (s[0] == ':') { __CPROVER_assert(s[1] == 0 && Gph == 0 && (size_t)Gi == NA - 1 && RC && Gi != 0, "VP colon before the last argument only"); Gph = 1; grow(1); }
	else { __CPROVER_assert(s[0] == ' ' && s[1] == 0 && Gph == 2 && (size_t)Gi != NA - 1, "VP one space between arguments"); Gph = 3; grow(1); }
	return d;
#endif
}
#define strcat vp_strcat
static int requires_colon(const struct irc_line *l) { __CPROVER_assert(l == &L && NA > 0, "VP this line"); return RC; }
#include "libirc/line.c"
void H(void)
{
	char *r; _Bool rc; setup(); RC = rc; Gph = Gdone = Gempty = 0; CAP = 0; CUR = (size_t)-1;
	r = irc_line_string(&L);
	__CPROVER_assert(r == BUF, "VP result");
	if (NA == 0) __CPROVER_assert(Gempty, "VP empty line is an empty string");
#ifdef P_ORDER
	else __CPROVER_assert(Gdone == (L.origin != NULL) && (size_t)Gi == NA - 1 && Gph == 2, "VP every argument was written");
#endif
	VREACH("irc_line_string");
}
#endif

#ifdef P_COLON
static char AR[2][8]; int Gsp;
int vp_atoi(const char *s) { __CPROVER_assert(s == GA[0], "VP numeric of the command"); return nondet_int(); }
#define atoi vp_atoi
int base_strcmp(const char *a, const char *b) { return nondet_int(); }
char *vp_strchr(const char *s, int c) { __CPROVER_assert(s == GA[NA - 1] && c == ' ', "VP looks for spaces in the last argument"); return Gsp ? BUF : NULL; }
#define strchr vp_strchr
#include "libirc/line.c"
void H(void)
{
	int h, r; _Bool sp; setup(); __CPROVER_assume(NA > 0 && h >= 0 && h <= 2); __CPROVER_havoc_object(AR); GA[0] = AR[0]; if (NA > 1) GA[NA - 1] = AR[1];
	L.has_endcolon = h; Gsp = sp;
	r = requires_colon(&L);
	if (h == WITH_COLON) __CPROVER_assert(r, "VP a colon that was there stays");
	if (sp && GA[NA - 1][0] != ':') __CPROVER_assert(r, "VP an argument with spaces gets a colon");
	if (h == WITHOUT_COLON && !sp) __CPROVER_assert(!r, "VP no colon where there was none");
	VREACH("requires_colon");
}
#endif

#ifdef P_ADD
static char NEW[2], COPY[2]; size_t LN; int Gcap;
size_t vp_strlen(const char *s) { if (s == ORIG) return LO; if (s == NEW) return LN; __CPROVER_assert(Gi >= 0 && s == GA[Gi], "VP measures the current argument"); return lenof(Gi); }
#define strlen vp_strlen
char *vp_strdup(const char *s) { __CPROVER_assert(s == NEW, "VP copies the argument"); return COPY; }
#define g_strdup vp_strdup
void *vp_realloc(void *p, size_t n) { __CPROVER_assert(p == GA && n >= (L.argc + 2) * sizeof(char *), "VP room for one more argument and the end"); Gcap = 1; return p; }
#define g_realloc vp_realloc
#include "libirc/line.c"
size_t K;
void H(void)
{
	int r; size_t ln; setup(); LN = ln; __CPROVER_assume(LN < BIG && K < NA); char *k0 = GA[K]; Gcap = 0;
	r = line_add_arg(&L, NEW);
	size_t old = (L.origin ? LO + 2 : 0) + PS[NA] + NA - 1 + 1 + 2;	/* with colon and CRLF */
	if (r) {
		__CPROVER_assert(L.argc == NA + 1 && GA[NA] == COPY && GA[NA + 1] == NULL && Gcap, "VP argument added at the end");
		__CPROVER_assert(old + 1 + LN <= 512, "VP whole line with origin, colon and line end within 512 bytes");
	} else {
		__CPROVER_assert(L.argc == NA && GA[NA] == NULL, "VP line left alone");
		__CPROVER_assert(old + 8 + LN > 512, "VP refused only when it does not fit");
	}
	__CPROVER_assert(GA[K] == k0, "VP other arguments stay");
	VREACH("line_add_arg");
}
#endif

#ifdef P_CMP
/* comparison results per position (ghost) */
static struct irc_line M; static char *GB[MAXN + 2]; int CR[MAXN + 2]; int CO; size_t NB, K; static char ORIGB[2]; int Glast;
int vp_strcmp(const char *a, const char *b)
{
	if (a == ORIG) { __CPROVER_assert(b == ORIGB && Gi == -1, "VP origins first"); Glast = CO; return CO; }
	__CPROVER_assert(Gi >= 0 && (size_t)Gi < NA && (size_t)Gi < NB && a == GA[Gi] && b == GB[Gi], "VP compares the arguments at one position"); Glast = CR[Gi]; return CR[Gi];
}
#define strcmp vp_strcmp
#include "libirc/line.c"
void H(void)
{
	int r; size_t n; _Bool o; int co; setup(); __CPROVER_havoc_object(GB); __CPROVER_havoc_object(CR); NB = n; CO = co;
	__CPROVER_assume(NB <= MAXN - 2); M.args = GB; M.argc = NB; M.origin = o ? ORIGB : NULL; Glast = 0;
	r = irc_line_cmp(&L, &M);
	if (r == 0) {
		__CPROVER_assert((L.origin != NULL) == (M.origin != NULL) && (L.origin == NULL || CO == 0), "VP equal lines have equal origins");
		__CPROVER_assert(NA == NB && (K >= NA || CR[K] == 0), "VP equal lines have equal arguments");
	} else
		__CPROVER_assert(((L.origin != NULL) != (M.origin != NULL)) || (Glast != 0 && r == Glast) || (Glast == 0 && NA != NB && (r > 0) == (NA > NB)), "VP order is that of the first difference");
	VREACH("irc_line_cmp");
}
#endif

#ifdef P_DUP
static struct irc_line R; static char *GR[MAXN + 80]; size_t K, Gcap; int Gok; static char OC[2], CP[MAXN + 2];
void *vp_memdup(const void *p, size_t n) { __CPROVER_assert(p == &L && n == sizeof(struct irc_line), "VP copies the record"); R = L; return &R; }
#define g_memdup vp_memdup
#define g_memdup2 vp_memdup
char *vp_strdup(const char *s) { if (s == ORIG) return OC; __CPROVER_assert(Gi >= 0 && s == GA[Gi], "VP copies this argument"); return &CP[Gi]; }
#define g_strdup vp_strdup
#undef g_new
#define g_new(t, n) ((t *)vp_new((n)))
void *vp_new(size_t n) { __CPROVER_assert(n >= NA + 1, "VP room for all arguments"); Gcap = n; return GR; }
#include "libirc/line.c"
void H(void)
{
	struct irc_line *r; int h; setup(); L.has_endcolon = h; __CPROVER_assume(K < NA && GA[K] != NULL);
	r = linedup(&L);
	__CPROVER_assert(r == &R && R.argc == NA && R.args == GR && R.has_endcolon == L.has_endcolon && R.origin == (L.origin ? OC : NULL), "VP copy of the record");
	__CPROVER_assert((size_t)Gi + 1 < NA || (GR[NA] == NULL && GR[K] == &CP[K]), "VP every argument is copied");
	VREACH("linedup");
}
#endif

#ifdef P_NICK
static char COPY[2]; int Gbang; size_t LE;
char *cp;
char *vp_strdup(const char *s) { __CPROVER_assert(s == ORIG, "VP copy of the origin"); return cp; }
#define g_strdup vp_strdup
char *vp_strchr(const char *s, int c) { __CPROVER_assert(s == cp && c == '!', "VP looks for the exclamation mark"); return Gbang ? cp + LE : NULL; }
#define strchr vp_strchr
#include "libirc/line.c"
void H(void)
{
	size_t len, le, k; _Bool b; char *r, before; setup(); __CPROVER_assume(len < BIG && le < len && k < len); L.origin = ORIG; Gbang = b; LE = le;
	cp = g_malloc(len + 1); cp[len] = 0; before = cp[k];
	r = line_get_nick(&L);
	__CPROVER_assert(r == cp && (!b || cp[le] == 0) && (b && k == le ? 1 : cp[k] == before) && cp[len] == 0, "VP the part before the exclamation mark");
	VREACH("line_get_nick");
}
#endif

#ifdef P_RECV
static char RAW[2], CVT[2]; static struct irc_line PL; int Gst, Gconv, Gfree, Gfreed2, Gparse; static GIOChannel CHN;
#undef g_free
#define g_free vp_free2
void vp_free2(void *p) { if (p == NULL) return; if (p == RAW) { __CPROVER_assert(!(Gfree & 1), "VP freed once"); Gfree |= 1; } else { __CPROVER_assert(p == CVT && !(Gfree & 2), "VP freed once"); Gfree |= 2; } }
#define g_io_channel_read_line vp_read
GIOStatus vp_read(GIOChannel *c, gchar **s, gsize *n, gsize *t, GError **e) { __CPROVER_assert(c == &CHN && s != NULL, "VP reads from the channel"); if (Gst == G_IO_STATUS_NORMAL) *s = RAW; return Gst; }
#define g_convert_with_iconv vp_conv
gchar *vp_conv(const gchar *s, gssize l, GIConv i, gsize *r, gsize *w, GError **e) { __CPROVER_assert(s == RAW && l == -1 && !(Gfree & 1), "VP converts what was read"); return Gconv ? CVT : NULL; }
static struct irc_line *irc_parse_line(const char *d);
#include "libirc/line.c"
struct irc_line *irc_parse_line(const char *d) { __CPROVER_assert(Gparse == 0 && ((d == RAW && !(Gfree & 1)) || (d == CVT && !(Gfree & 2))), "VP parses what was read"); Gparse = d == RAW ? 1 : 2; return &PL; }
void H(void)
{
	struct irc_line *l; GIOStatus r; int st; _Bool cv, ic; Gst = st; Gconv = cv; __CPROVER_assume(st >= 0 && st <= 3); Gfree = Gparse = 0;
	r = irc_recv_line(&CHN, ic ? (GIConv)BUF : (GIConv)-1, NULL, &l);
	if (st != G_IO_STATUS_NORMAL) __CPROVER_assert(r == st && l == NULL && Gparse == 0, "VP no line unless one was read");
	else {
		__CPROVER_assert(l == &PL && Gparse == (ic && cv ? 2 : 1), "VP the line read, converted when possible");
		__CPROVER_assert(r == (ic && !cv ? G_IO_STATUS_ERROR : G_IO_STATUS_NORMAL), "VP a line that can't be converted is reported");
		__CPROVER_assert(Gfree == (ic && cv ? 3 : 1), "VP nothing is left behind");
	}
	VREACH("irc_recv_line");
}
#endif
#ifdef P_SEND
static char RAW[2], CVT[2]; int Gst, Gconv, Gfree, Gw; static GIOChannel CHN;
#undef g_free
#define g_free vp_free2
void vp_free2(void *p) { if (p == NULL) return; if (p == RAW) { __CPROVER_assert(!(Gfree & 1), "VP freed once"); Gfree |= 1; } else { __CPROVER_assert(p == CVT && !(Gfree & 2), "VP freed once"); Gfree |= 2; } }
#undef strlen
size_t Lraw, Lcvt, Gsize;
size_t vp_len(const char *s) { __CPROVER_assert((s == RAW && !(Gfree & 1)) || (s == CVT && !(Gfree & 2)), "VP length of the line"); return s == RAW ? Lraw : Lcvt; }
#define strlen vp_len
gsize vp_bufsize(GIOChannel *c) { return Gsize; }
#define g_io_channel_get_buffer_size vp_bufsize
void vp_setbufsize(GIOChannel *c, gsize n) { __CPROVER_assert(c == &CHN, "VP this channel"); Gsize = n; }
#define g_io_channel_set_buffer_size vp_setbufsize
#define g_io_channel_write_chars vp_write
GIOStatus vp_write(GIOChannel *c, const gchar *s, gssize n, gsize *w, GError **e) { __CPROVER_assert(c == &CHN && n == -1 && Gw == 0 && ((s == RAW && !(Gfree & 1)) || (s == CVT && !(Gfree & 2))), "VP writes the rendered line"); __CPROVER_assert(Gsize >= (s == RAW ? Lraw : Lcvt) + 10, "VP the line fits the buffer of the channel"); Gw = s == RAW ? 1 : 2; *w = 0; return Gst; }
#define g_convert_with_iconv vp_conv
gchar *vp_conv(const gchar *s, gssize l, GIConv i, gsize *r, gsize *w, GError **e) { __CPROVER_assert(s == RAW && l == -1 && !(Gfree & 1), "VP converts the line"); return Gconv ? CVT : NULL; }
char *irc_line_string_nl(const struct irc_line *l) { __CPROVER_assert(l == &L, "VP this line"); return RAW; }
#include "libirc/line.c"
void H(void)
{
	GIOStatus r; int st; _Bool cv, ic; Gst = st; Gconv = cv; __CPROVER_assume(st >= 0 && st <= 3); Gfree = Gw = 0; { size_t a, b, c; Lraw = a; Lcvt = b; Gsize = c; __CPROVER_assume(a < 1000000000 && b < 1000000000 && c < 4000000000UL); }
	r = irc_send_line(&CHN, ic ? (GIConv)BUF : (GIConv)-1, &L, NULL);
	if (ic && !cv) __CPROVER_assert(r == G_IO_STATUS_ERROR && Gw == 0 && Gfree == 1, "VP a line that can't be converted is not sent");
	else __CPROVER_assert(r == st && Gw == (ic ? 2 : 1) && Gfree == (ic ? 3 : 1), "VP the line is written once and released");
	VREACH("irc_send_line");
}
#endif
#ifdef P_PARSE
/* The parser on a text of any length (up to MAXN characters in the model).
 * Q and K are arbitrary constants: what the loop invariants state of position Q
 * and argument K holds for every position and argument, so the ghost code may
 * use the same facts about the current ones (HYPQ, HYPK) at the loop heads.
 * SP is the ghost count of spaces before a position. */
static char D0[MAXN + 2], D[MAXN + 2], CP[MAXN + 4], OC[2]; static struct irc_line PL; size_t LEN, OFF0, SPC, Q, K, CAP, LAST; unsigned SP[MAXN + 3]; int Gdup, Gfree, Gorg, Gorgdone, Gi2;
static char *GARGS[MAXN + 4];
/* pristine text: no NUL before its end, spaces counted */
#define TXT(k) ((k) <= LEN ==> ((D0[k] == 0) == ((k) == LEN) && SP[(k) + 1] == SP[k] + (D0[k] == ' ') && SP[k] <= SP[LEN] && SP[(k) + 1] <= SP[LEN + 1]))
#define OFF(p) ((size_t)((p) - D))
#define INV_Q(q, o) ((q) <= LEN ==> ((q) >= (o) ? D[q] == D0[q] : ((q) >= OFF0 ==> (D[q] != '\r' && D[q] != '\n'))))
#define ISARG(p, o) (__CPROVER_POINTER_OBJECT(p) == __CPROVER_POINTER_OBJECT(D) && OFF(p) >= OFF0 && OFF(p) <= LEN)
#define INV_K(k, n) ((k) <= (n) ==> ISARG(GARGS[k], 0))
#undef g_new0
#define g_new0(t, n) (&PL)
#undef g_new
#define g_new(t, n) ((t *)vp_new(n))
void *vp_new(size_t n) { size_t i; __CPROVER_assert(n > 0 && n <= MAXN + 2, "VP size of the argument list"); CAP = n; return GARGS; }
#undef g_free
#define g_free vp_free3
void vp_free3(void *p) { if (p == D) { __CPROVER_assert(Gfree == 0, "VP freed once"); Gfree = 1; } }
char *vp_strdup(const char *s)
{
	if (Gdup == 0) { __CPROVER_assert(s == D0, "VP works on a copy"); Gdup = 1; return D; }
	if (s == D + 1 && Gorgdone == 0) { __CPROVER_assert(D0[0] == ':' && D[SPC] == 0, "VP origin is the text up to the first space"); Gorgdone = 1; return OC; }
	__CPROVER_assert(Gi >= 0 && Gfree == 0, "VP copies this argument"); return &CP[Gi];
}
#define g_strdup vp_strdup
char *vp_strchr(const char *s, int c) { __CPROVER_assert(s == D && c == ' ', "VP looks for the end of the origin"); return Gorg ? D + SPC : NULL; }
#define strchr vp_strchr
#include "libirc/line.c"
#undef malloc
void H(void)
{
	size_t len, sp; _Bool o; struct irc_line *r;
	LEN = len; SPC = sp; Gorg = o; __CPROVER_assume(LEN <= MAXN && (SPC < LEN)); __CPROVER_havoc_object(D0); __CPROVER_havoc_object(SP); __CPROVER_assume(Q <= LEN && TXT(0) && TXT(1) && TXT(SPC) && TXT(SPC + 1) && TXT(LEN) && TXT(Q) && SP[0] == 0);
	__CPROVER_assume(!o || D0[SPC] == ' '); __CPROVER_array_copy(D, D0);
	Gdup = Gfree = Gorgdone = 0; Gi = -1; OFF0 = D0[0] == ':' ? SPC : 0; CAP = 0;
	PL.args = NULL; PL.argc = 0; PL.origin = NULL;
	r = irc_parse_line(D0);
	if (D0[0] == ':' && !o) __CPROVER_assert(r == NULL && Gfree, "VP an origin alone is no line");
	else {
		__CPROVER_assert(r == &PL && PL.argc >= 1 && PL.argc < CAP && PL.args == GARGS && PL.args[PL.argc] == NULL && Gfree, "VP list of arguments with its end");
		__CPROVER_assert(K >= PL.argc || K > Gi || PL.args[K] == &CP[K], "VP every argument is a copy of its own");
		__CPROVER_assert(PL.origin == (D0[0] == ':' ? OC : NULL), "VP origin");
	}
	VREACH("irc_parse_line");
}
#endif
