/* C14: the history of lines and states (libirc/linestack.c) under contract. The
 * files are counters: the record read or written next, and the positions. */
#include "vp.h"
#include "internals.h"
#include "irc.h"
#include "linestack.h"
#ifdef P_REPL
#include "ctrlproxy.h"
#endif
unsigned char vp_byte;
#undef g_free
#undef g_error_free
#undef g_clear_error
#define BIG 1000000000
static GIOChannel LF, IF, SF; static GError ERR; static struct irc_network_state ST; static struct irc_line LN; static struct irc_client CL;
static int lo(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int eqs(const char *a, const char *b, unsigned n) { unsigned i; for (i = 0; i < n; i++) { if (lo(a[i]) != lo(b[i])) return 0; if (!a[i]) return 1; } return 1; }
int base_strcmp(const char *a, const char *b) { return !eqs(a, b, 20); }
int base_strncmp(const char *a, const char *b, size_t n) { return !eqs(a, b, n); }
static GIOStatus ioerr(GError **e) { __CPROVER_assert(e == NULL || *e == NULL, "VP no error is pending"); if (e) *e = &ERR; return G_IO_STATUS_ERROR; }
int nerr; void vp_efree(GError *e) { __CPROVER_assert(e == &ERR, "VP an error"); nerr++; }
#define g_error_free vp_efree
void vp_logg(enum log_level l, const char *f) { }
#define log_global(l, f, ...) vp_logg(l, f)
#ifdef P_INSERT
static char CMD[9], TXT[10]; static char *AV[5] = { 0 }; int nidx, nsend, nstate, tell; unsigned long t_off, t_state; long t_time, now; int idxok, sendok, stateok;
gboolean write_index_entry(GIOChannel *ioc, guint64 o, time_t t, guint64 s) { __CPROVER_assert(ioc == &IF && !nidx && !nsend, "VP one entry, before the line"); nidx = 1; t_off = o; t_time = t; t_state = s; return idxok; }
GIOStatus irc_send_line(GIOChannel *c, GIConv ic, const struct irc_line *l, GError **e) { __CPROVER_assert(c == &LF && ic == (GIConv)-1 && l == &LN && nidx == 1 && !nsend, "VP the line is written once, after its entry"); nsend = 1; return sendok ? G_IO_STATUS_NORMAL : ioerr(e); }
time_t vp_time(time_t *t) { return now; }
#define time vp_time
struct linestack_context; static gint64 g_io_channel_tell_position(GIOChannel *c); static gboolean file_insert_state(struct linestack_context *n, const struct irc_network_state *s, guint64 id);
#include "libirc/linestack.c"
#undef time
static struct linestack_context X; int c0, l0;
static gint64 g_io_channel_tell_position(GIOChannel *c) { __CPROVER_assert(c == &LF && !nsend, "VP where the line goes"); return tell; }
static gboolean file_insert_state(struct linestack_context *n, const struct irc_network_state *s, guint64 id) { __CPROVER_assert(n == &X && s == &ST && !nstate && nsend && X.count == c0 + 1 && id == (guint64)X.count, "VP the state after the line"); nstate = 1; return stateok; }
void H(void)
{
	static const char *const k[] = { "NICK", "JOIN", "QUIT", "PART", "PRIVMSG", "NOTICE", "KICK", "MODE", "TOPIC", "353", "366", "331", "333", "332", "324", "329" }; int i, ac, w = 0, txt, tl; enum data_direction d; gboolean r; _Bool b0, b1, b2;
	for (i = 0; i < 8; i++) { char c; CMD[i] = c; } CMD[8] = 0; for (i = 0; i < 9; i++) { char c; __CPROVER_assume(c != '\n' && c != '\r'); __CPROVER_assume(CMD[i] != '\n' && CMD[i] != '\r'); TXT[i] = c; } TXT[9] = 0;
	AV[0] = CMD; AV[1] = "x"; AV[2] = TXT; AV[3] = "z"; __CPROVER_assume(ac >= 0 && ac <= 4); AV[ac] = NULL; LN.args = AV; LN.argc = ac; idxok = b0 ? 1 : 0; sendok = b1 ? 1 : 0; stateok = b2 ? 1 : 0; { int t; long n; tell = t; now = n; __CPROVER_assume(t >= 0); }
	nidx = nsend = nstate = 0; { int a, b; X.count = c0 = a; X.last_line_with_state = l0 = b; __CPROVER_assume(0 <= b && b <= a && a < BIG); } X.line_file = &LF; X.index_file = &IF; __CPROVER_assume(d == FROM_SERVER || d == TO_SERVER);
	txt = eqs(CMD, "PRIVMSG", 20) || eqs(CMD, "NOTICE", 20); if (ac > 0) { for (i = 0; i < 16; i++) if (eqs(CMD, k[i], 20)) w = 1; if (d == TO_SERVER && !txt) w = 0; if (txt && ac > 2 && TXT[0] == 1 && !eqs(TXT, "\001ACTION", 7)) w = 0; }
	r = linestack_insert_line(&X, &LN, d, &ST);
	if (!w) __CPROVER_assert(r && !nidx && !nsend && !nstate && X.count == c0, "VP other lines are not stored");
	else {
		__CPROVER_assert(nidx == 1 && t_off == (unsigned long)tell && t_time == now && t_state == (unsigned long)l0, "VP the entry tells where the line is, when it was, and the state before it");
		__CPROVER_assert(nsend == idxok && X.count == c0 + (idxok && sendok), "VP the line is counted if it's stored");
		__CPROVER_assert(nstate == (idxok && sendok && c0 + 1 >= l0 + STATE_DUMP_INTERVAL), "VP a state every so many lines");
		__CPROVER_assert(!r == !(idxok && sendok && (!nstate || stateok)), "VP result");
	}
	__CPROVER_assert(nerr == (w && idxok && !sendok), "VP error released");
	VREACH("linestack_insert_line");
}
#endif
#ifdef P_TRAVERSE
guint64 from, to; guint64 nread, ndel, nfree; int live, stop, endl, endi, seekok; static struct irc_line L1; int ud;
GIOStatus vp_flush(GIOChannel *c, GError **e) { return G_IO_STATUS_NORMAL; }
#define g_io_channel_flush vp_flush
GIOStatus vp_seek(GIOChannel *c, gint64 o, GSeekType t, GError **e) { __CPROVER_assert(o == 0 && t == G_SEEK_END && !live, "VP back to the end"); if (c == &LF) endl = 1; else { __CPROVER_assert(c == &IF, "VP the index"); endi = 1; } return G_IO_STATUS_NORMAL; }
#define g_io_channel_seek_position vp_seek
gboolean linestack_read_entry(struct linestack_context *nd, guint64 i, struct irc_line **l, time_t *t);
void free_line(struct irc_line *l) { __CPROVER_assert(l == NULL || (l == &L1 && live == 1), "VP a line is released once"); live = 0; }
int start_index, end_index; guint64 i; /* declared for the loop's invariant only */
#include "libirc/linestack.c"
static struct linestack_context X;
gboolean linestack_read_entry(struct linestack_context *nd, guint64 k, struct irc_line **l, time_t *t) { _Bool ok; __CPROVER_assert(nd == &X && !live && !stop && k == from + nread, "VP the next line is read, until something fails"); nread++; if (!ok) { stop = 1; return 0; } *l = &L1; live = 1; *t = 77; return 1; }
gboolean vp_handler(struct irc_line *l, time_t t, void *u) { _Bool go; __CPROVER_assert(l == &L1 && live == 1 && t == 77 && u == &ud && ndel == nread - 1 && !stop, "VP every line is handled once, in order"); ndel++; if (!go) stop = 1; return go ? 1 : 0; }
void H(void)
{
	guint64 f, t; _Bool hf, ht, nl; gboolean r; int c; __CPROVER_assume(f <= BIG && t <= BIG && c >= 0 && c <= BIG); X.line_file = &LF; X.index_file = &IF; X.count = c; nread = ndel = 0; live = stop = endl = endi = 0; from = hf ? f : 0; to = ht ? t : (guint64)c;
	r = linestack_traverse(nl ? NULL : &X, hf ? &f : NULL, ht ? &t : NULL, vp_handler, &ud);
	if (nl) { __CPROVER_assert(!r && !nread, "VP no history"); return; }
	__CPROVER_assert(stop ? !r : (r && ndel == nread && nread == (to > from ? to - from : 0)), "VP all lines from the one marker up to the other, or the first that fails");
	__CPROVER_assert(!live && endl && endi, "VP the files are left at their end"); VREACH("linestack_traverse");
}
#endif
#ifdef P_READ
int st, ok1; guint64 OFF; time_t TM; int nraw, failat, pos_i, pos_l; static char RAW[4]; guint64 idx; static struct irc_line L1; int parseok;
GIOStatus vp_seek(GIOChannel *c, gint64 o, GSeekType t, GError **e) { __CPROVER_assert(t == G_SEEK_SET, "VP from the start"); if (c == &IF) { __CPROVER_assert(st == 0 && o == (gint64)(idx * 24), "VP the entry of the line"); st = 1; if (failat == 1) return ioerr(e); } else { __CPROVER_assert(c == &LF && st == 3 && o == (gint64)OFF, "VP the line of the entry"); st = 4; if (failat == 4) return ioerr(e); } return G_IO_STATUS_NORMAL; }
#define g_io_channel_seek_position vp_seek
GIOStatus vp_readc(GIOChannel *c, gchar *b, gsize n, gsize *r, GError **e) { _Bool eof; __CPROVER_assert(c == &IF && n == 8, "VP a field"); if (st == 1) { st = 2; if (failat == 2) return eof ? G_IO_STATUS_EOF : ioerr(e); *(guint64 *)b = OFF; } else { __CPROVER_assert(st == 2, "VP in order"); st = 3; if (failat == 3) return eof ? G_IO_STATUS_EOF : ioerr(e); *(time_t *)b = TM; } return G_IO_STATUS_NORMAL; }
#define g_io_channel_read_chars vp_readc
GIOStatus vp_readl(GIOChannel *c, gchar **s, gsize *l, gsize *t, GError **e) { _Bool eof; __CPROVER_assert(c == &LF && st == 4, "VP the line"); st = 5; if (failat == 5) return eof ? G_IO_STATUS_EOF : ioerr(e); *s = RAW; nraw++; return G_IO_STATUS_NORMAL; }
#define g_io_channel_read_line vp_readl
struct irc_line *irc_parse_line(const char *s) { __CPROVER_assert(s == RAW && st == 5 && nraw == 1, "VP parses it"); st = 6; return parseok ? &L1 : NULL; }
void vp_free(void *p) { if (p) { __CPROVER_assert(p == RAW && nraw == 1, "VP released once"); nraw--; } }
#define g_free vp_free
#include "libirc/linestack.c"
static struct linestack_context X;
void H(void)
{
	struct irc_line *l = NULL; time_t t; gboolean r; int f; guint64 k, o; long tm; _Bool p; parseok = p ? 1 : 0; failat = f; __CPROVER_assume(f >= 0 && f <= 5 && k < BIG && o < BIG); idx = k; OFF = o; TM = tm; st = nraw = 0; X.line_file = &LF; X.index_file = &IF;
	r = linestack_read_entry(&X, k, &l, &t);
	__CPROVER_assert(!r == !(failat == 0 && parseok) && nraw == 0, "VP the line, or a failure"); if (r) __CPROVER_assert(l == &L1 && t == TM && st == 6, "VP the line and its time"); VREACH("linestack_read_entry");
}
#endif
#ifdef P_GETSTATE
int failat, nst, npull, nrep, nfreed, nopen, unref, iend, flushed, seeks, pathfree; guint64 SI, IDX, want; static struct irc_network_state G; static char PATH[2]; static char NICK[2];
GIOStatus vp_flush(GIOChannel *c, GError **e) { _Bool bad; __CPROVER_assert(c == &LF || c == &IF, "VP flush"); if (failat == 1 && c == &LF || failat == 2 && c == &IF) return ioerr(e); flushed++; return G_IO_STATUS_NORMAL; }
#define g_io_channel_flush vp_flush
GIOStatus vp_seek(GIOChannel *c, gint64 o, GSeekType t, GError **e) { __CPROVER_assert(c == &IF && flushed == 2, "VP the index"); if (t == G_SEEK_SET) { __CPROVER_assert(o == (gint64)(IDX - 1) * 24 + 16, "VP the state of the line before the marker"); seeks = 1; if (failat == 3) return ioerr(e); } else { __CPROVER_assert(t == G_SEEK_END && o == 0, "VP back to the end"); iend = 1; if (failat == 5) return ioerr(e); } return G_IO_STATUS_NORMAL; }
#define g_io_channel_seek_position vp_seek
GIOStatus vp_readc(GIOChannel *c, gchar *b, gsize n, gsize *r, GError **e) { _Bool eof; __CPROVER_assert(c == &IF && n == 8 && seeks == 1, "VP a field"); seeks = 2; if (failat == 4) return eof ? G_IO_STATUS_EOF : ioerr(e); *(guint64 *)b = SI; return G_IO_STATUS_NORMAL; }
#define g_io_channel_read_chars vp_readc
GIOChannel *vp_open(const char *f, const char *m, GError **e) { __CPROVER_assert(f == PATH && m[0] == 'r' && !m[1] && !nopen, "VP opens the state"); if (failat == 6) { ioerr(e); return NULL; } nopen = 1; return &SF; }
#define g_io_channel_new_file vp_open
GIOStatus vp_enc(GIOChannel *c, const char *x, GError **e) { return G_IO_STATUS_NORMAL; }
#define g_io_channel_set_encoding vp_enc
int term; void vp_term(GIOChannel *c, const char *x, int n) { __CPROVER_assert(c == &SF && n == 1 && x[0] == '\n', "VP lines end at newlines"); term = 1; }
#define g_io_channel_set_line_term vp_term
void vp_unref(GIOChannel *c) { __CPROVER_assert(c == &SF && nopen == 1, "VP closed once"); nopen = 2; }
#define g_io_channel_unref vp_unref
void vp_free(void *p) { if (p == PATH) pathfree++; }
#define g_free vp_free
struct irc_network_state *network_state_init(const char *a, const char *b, const char *c) { __CPROVER_assert(!nst, "VP one state"); nst = 1; return &G; }
void free_network_state(struct irc_network_state *s) { __CPROVER_assert(s == &G && nst == 1 && !nfreed, "VP released once"); nfreed = 1; }
struct linestack_context; static char *state_path(struct linestack_context *x, guint64 id);
gboolean linestack_replay(struct linestack_context *x, linestack_marker f, linestack_marker t, struct irc_network_state *s);
#include "libirc/linestack.c"
static struct linestack_context X; linestack_marker M;
static char *state_path(struct linestack_context *x, guint64 id) { __CPROVER_assert(x == &X && id == want, "VP the newest state that's not past the marker"); return PATH; }
static gboolean marshall_network_state(enum marshall_mode m, GIOChannel *t, struct irc_network_state *n) { __CPROVER_assert(m == MARSHALL_PULL && t == &SF && n == &G && !npull && nopen == 1 && term, "VP read once"); npull = 1; if (failat == 7) return 0; G.me.nick = NICK; G.me.query = 1; return 1; }
gboolean linestack_replay(struct linestack_context *x, linestack_marker f, linestack_marker t, struct irc_network_state *s) { __CPROVER_assert(x == &X && s == &G && npull && !nrep && *f == want && t == M, "VP all lines from that state up to the marker are replayed on it"); nrep = 1; return failat != 8; }
void H(void)
{
	struct irc_network_state *r; _Bool hm; int f, c, ls; guint64 k, s; failat = f; __CPROVER_assume(f >= 0 && f <= 8 && c >= 0 && c < BIG && ls >= 0 && ls <= c && k <= BIG && s < BIG); nst = npull = nrep = nfreed = nopen = iend = flushed = seeks = pathfree = term = nerr = 0; X.count = c; X.last_line_with_state = ls; X.line_file = &LF; X.index_file = &IF; SI = s; IDX = k; M = hm ? &k : NULL; want = !hm ? (guint64)ls : k == 0 ? 0 : s;
	r = linestack_get_state(&X, M);
	__CPROVER_assert(!r == !(!(hm && k > (guint64)c) && !(failat == 1 || failat == 2 || failat == 6 || failat == 7 || failat == 8 || (hm && k > 0 && failat >= 3 && failat <= 5))), "VP a state, unless something fails");
	__CPROVER_assert(r == NULL || (r == &G && !nfreed && nrep), "VP the state"); __CPROVER_assert(r || nst == nfreed, "VP released"); __CPROVER_assert(nopen != 1, "VP closed");
	if (r && seeks) __CPROVER_assert(iend, "VP the index is left at its end");
	VREACH("linestack_get_state");
}
#endif
#ifdef P_SEND
enum { W_NONE }; int nsent, pre, res; static char A0[8], A1[2], A2[3]; static char *AV[4]; long T0; int OFFS;
gboolean client_send_line(struct irc_client *c, const struct irc_line *l, GError **e) { __CPROVER_assert(c == &CL && l == &LN && !nsent && e == NULL, "VP to the client, once"); nsent = 1; return res; }
gboolean line_prefix_time(struct irc_line *l, time_t t) { __CPROVER_assert(l == &LN && !nsent && !pre && t == T0 + OFFS, "VP the time of the line, before it's sent"); pre = 1; return 1; }
static gboolean vp_trav(int obj, void *x, const char *o, linestack_marker f, linestack_marker t, linestack_traverse_fn h, void *u);
struct linestack_context;
#include "libirc/linestack.c"
static struct linestack_context X; static guint64 F, T; static char OB[2]; int isobj, dataonly, timed, called;
gboolean linestack_traverse(struct linestack_context *x, linestack_marker f, linestack_marker t, linestack_traverse_fn h, void *u) { __CPROVER_assert(!isobj, "VP of everything"); return vp_trav(0, x, OB, f, t, h, u); }
gboolean linestack_traverse_object(struct linestack_context *x, const char *o, linestack_marker f, linestack_marker t, linestack_traverse_fn h, void *u) { __CPROVER_assert(isobj, "VP of the object"); return vp_trav(1, x, o, f, t, h, u); }
static gboolean vp_trav(int obj, void *x, const char *o, linestack_marker f, linestack_marker t, linestack_traverse_fn h, void *u)
{
	gboolean r; int txt, ac, i; long tt; _Bool rs; __CPROVER_assert(x == &X && o == OB && f == &F && t == &T && !called, "VP of this history, between the markers"); called = 1;
	for (i = 0; i < 7; i++) { char c; A0[i] = c; } A0[7] = 0; __CPROVER_assume(ac >= 1 && ac <= 3); AV[0] = A0; AV[1] = A1; AV[2] = A2; AV[3] = NULL; AV[ac] = NULL; LN.args = AV; LN.argc = ac; T0 = tt; __CPROVER_assume(tt >= 0 && tt < 100000000000); nsent = pre = 0; res = rs ? 1 : 0;
	txt = (eqs(A0, "PRIVMSG", 20) || eqs(A0, "NOTICE", 20)) && ac > 2;
	r = h(&LN, T0, u);
	if (dataonly && !txt) __CPROVER_assert(r && !nsent && !pre, "VP only messages, if asked for");
	else __CPROVER_assert(nsent && !r == !res && pre == (timed && txt), "VP sent, with its time if asked for");
	VREACH("line"); return r;
}
void H(void)
{
	_Bool d, t, o; int of; gboolean r; dataonly = d ? 1 : 0; timed = t ? 1 : 0; isobj = o ? 1 : 0; OFFS = of; called = 0; __CPROVER_assume(of > -1000000 && of < 1000000);
	r = o ? linestack_send_object(&X, OB, &F, &T, &CL, dataonly, timed, of) : linestack_send(&X, &F, &T, &CL, dataonly, timed, of);
	__CPROVER_assert(called, "VP the lines are looked at"); if (!dataonly || nsent) __CPROVER_assert(!r == !res, "VP result"); VREACH("linestack_send");
}
#endif
#ifdef P_OBJECT
/* the line's targets are the words given by g_strsplit(); the loop is decided for any number of them */
int ncalled, res, nv, freed, K, anym; static char A0[2], A1[4], W[4], OB[4]; static char *AV[3]; char **V; int ud;
gboolean vp_handler(struct irc_line *l, time_t t, void *u) { __CPROVER_assert(l == &LN && t == 9 && u == &ud && !ncalled, "VP the line is handled once"); ncalled = 1; return res; }
#define NW 4
static char WS[NW][3]; static char *PV[NW + 1];
gchar **vp_split(const char *s, const char *d, int m) { __CPROVER_assert(s == A1 && d[0] == ',' && !d[1] && m <= 0 && !nv, "VP the line's targets"); nv = 1; return PV; }
#define g_strsplit vp_split
void vp_sfree(gchar **v) { __CPROVER_assert(v == PV && nv == 1 && !freed, "VP released once"); freed = 1; }
#define g_strfreev vp_sfree
#include "libirc/linestack.c"
void H(void)
{
	struct traverse_object_data d; int i, n, ac, hit = 0, comma = 0; gboolean r; _Bool rs, cl; res = rs ? 1 : 0; d.handler = vp_handler; d.object = OB; d.userdata = &ud; ncalled = nv = freed = 0;
	for (i = 0; i < 3; i++) { char a, b; A1[i] = a; OB[i] = b; __CPROVER_assume(b != ','); } A1[3] = OB[3] = 0; for (i = 0; i < 3 && A1[i]; i++) if (A1[i] == ',') comma = 1;
	{ int k, s = 0, p = 0; n = 0; for (k = 0; k <= 3; k++) { if (A1[k] == ',' || A1[k] == 0) { WS[n][p] = 0; PV[n] = WS[n]; n++; p = 0; if (!A1[k]) break; } else if (p < 2) WS[n][p++] = A1[k]; } PV[n] = NULL; }
	if (!comma) hit = A1[0] == OB[0] && (!A1[0] || (A1[1] == OB[1] && (!A1[1] || (A1[2] == OB[2])))); else for (i = 0; i < n; i++) if (WS[i][0] == OB[0] && (!OB[0] || (WS[i][1] == OB[1] && (!OB[1] || WS[i][2] == OB[2])))) hit = 1;
	__CPROVER_assume(ac >= 1 && ac <= 2); AV[0] = A0; AV[1] = A1; AV[ac] = NULL; LN.args = AV; LN.argc = ac;
	r = traverse_object_handler(&LN, 9, &d);
	__CPROVER_assert(ncalled == (ac > 1 && hit), "VP lines for the object, and no others"); __CPROVER_assert(!r == !(!ncalled || res), "VP result"); __CPROVER_assert(nv == freed, "VP released"); VREACH("traverse_object_handler");
}
#endif
#ifdef P_STATE
int failat, nopen, npush, nflush; static char PATH[2]; guint64 ID; int term;
GIOChannel *vp_open(const char *f, const char *m, GError **e) { __CPROVER_assert(f == PATH && m[0] == 'w' && !nopen, "VP a new file"); if (failat == 1) { ioerr(e); return NULL; } nopen = 1; return &SF; }
#define g_io_channel_new_file vp_open
GIOStatus vp_enc(GIOChannel *c, const char *x, GError **e) { return G_IO_STATUS_NORMAL; }
#define g_io_channel_set_encoding vp_enc
void vp_unref(GIOChannel *c) { __CPROVER_assert(c == &SF && nopen == 1, "VP closed once"); nopen = 2; }
#define g_io_channel_unref vp_unref
void vp_free(void *p) { }
#define g_free vp_free
GIOStatus vp_flush(GIOChannel *c, GError **e) { __CPROVER_assert(c == &SF && npush && nopen == 1, "VP flush"); nflush = 1; return failat == 3 ? ioerr(e) : G_IO_STATUS_NORMAL; }
#define g_io_channel_flush vp_flush
struct linestack_context; static char *state_path(struct linestack_context *x, guint64 id);
#include "libirc/linestack.c"
static struct linestack_context X;
static char *state_path(struct linestack_context *x, guint64 id) { __CPROVER_assert(x == &X && id == ID, "VP the file of this state"); return PATH; }
static gboolean marshall_network_state(enum marshall_mode m, GIOChannel *t, struct irc_network_state *n) { __CPROVER_assert(m == MARSHALL_PUSH && t == &SF && n == &ST && !npush && nopen == 1, "VP written once"); npush = 1; return failat != 2; }
void H(void)
{
	int c, l, f; gboolean r; _Bool viaid; __CPROVER_assume(c >= 0 && c < BIG && l >= 0 && l <= c && f >= 0 && f <= 3); X.count = c; X.last_line_with_state = l; failat = f; nopen = npush = nflush = 0; ID = c;
	r = viaid ? linestack_insert_state(&X, &ST) : file_insert_state(&X, &ST, c);
	__CPROVER_assert(!r == !(f == 0) && X.count == c && X.last_line_with_state == (r ? c : l), "VP later entries refer to a state once it's stored"); __CPROVER_assert(nopen != 1 && (!r || (npush && nflush)), "VP stored"); VREACH("file_insert_state");
}
#endif
#ifdef P_INDEX
int nw, failat; guint64 O, S; time_t TT;
GIOStatus vp_write(GIOChannel *c, const gchar *b, gssize n, gsize *w, GError **e) { __CPROVER_assert(c == &IF && n == 8 && nw < 3, "VP three fields"); __CPROVER_assert(nw == 0 ? *(const guint64 *)b == O : nw == 1 ? *(const time_t *)b == TT : *(const guint64 *)b == S, "VP offset, time and state, in this order"); nw++; return nw == failat ? ioerr(e) : G_IO_STATUS_NORMAL; }
#define g_io_channel_write_chars vp_write
#include "libirc/linestack.c"
void H(void) { guint64 a, b; long t; int f; gboolean r; __CPROVER_assume(f >= 0 && f <= 3); O = a; S = b; TT = t; failat = f; nw = nerr = 0; r = write_index_entry(&IF, a, t, b); __CPROVER_assert(!r == (f != 0) && (!r || nw == 3) && nerr == (f != 0), "VP all written, or a failure"); __CPROVER_assert(INDEX_RECORD_SIZE == 24, "VP size of a record"); VREACH("write_index_entry"); }
#endif
#ifdef P_REPLAY
int nsh, ntr, cl; static struct irc_channel_state CH; static char A0[6]; static char *AV[4]; static guint64 F, T; int found;
gboolean state_handle_data(struct irc_network_state *s, const struct irc_line *l) { __CPROVER_assert(s == &ST && l == &LN && !nsh, "VP every line is applied once"); nsh = 1; return 1; }
struct irc_channel_state *find_channel(struct irc_network_state *s, const char *n) { __CPROVER_assert(s == &ST && n == AV[1] && nsh, "VP the channel"); return found ? &CH : NULL; }
struct linestack_context;
#include "libirc/linestack.c"
static struct linestack_context X;
gboolean linestack_traverse(struct linestack_context *x, linestack_marker f, linestack_marker t, linestack_traverse_fn h, void *u) { int i, ac; long tm; gboolean r; _Bool fd; __CPROVER_assert(x == &X && f == &F && t == &T && !ntr, "VP the lines between the markers"); ntr = 1; for (i = 0; i < 5; i++) { char c; A0[i] = c; } A0[5] = 0; AV[0] = A0; AV[1] = "#c"; AV[2] = "t"; __CPROVER_assume(ac >= 1 && ac <= 3); AV[ac] = NULL; LN.args = AV; LN.argc = ac; found = fd ? 1 : 0; CH.topic_set_time = 4; nsh = 0;
	r = h(&LN, tm, u); __CPROVER_assert(r && nsh, "VP applied, and on to the next"); __CPROVER_assert(CH.topic_set_time == (eqs(A0, "TOPIC", 20) && ac > 2 && found ? tm : 4), "VP the topic was set when the line was received"); VREACH("replay_line"); return r; }
void H(void) { gboolean r; ntr = 0; r = linestack_replay(&X, &F, &T, &ST); __CPROVER_assert(r && ntr, "VP replayed"); VREACH("linestack_replay"); }
#endif
#ifdef P_REPL
#define log_data repl_log_data
struct irc_network_state *vp_gs(struct linestack_context *x, linestack_marker m);
static int XX, nget, nst, nfr, nsend, hasm, gotst, timed, offs, ntrav, nrepl, ncls; static guint64 MK; static linestack_marker used; static struct irc_network_state G; static struct irc_network NW; static struct linestack_context *LS = (struct linestack_context *)&XX; static GHashTable *HT; static struct irc_client C1; static guint64 zero;
struct irc_network_state *linestack_get_state(struct linestack_context *x, linestack_marker m) { __CPROVER_assert(x == LS && !nget && (hasm ? m == &MK : m != NULL && *m == 0), "VP the state at the marker, or at the start"); nget = 1; used = m; return gotst ? &G : NULL; }
gboolean client_send_state(struct irc_client *c, struct irc_network_state *s) { __CPROVER_assert(c == &C1 && !nst && !nsend && s == (gotst && NW.linestack ? &G : &ST) && (nget || NW.linestack == NULL), "VP the client is brought to that state first"); nst = 1; return 1; }
void free_network_state(struct irc_network_state *s) { __CPROVER_assert(s == &G && nst && !nfr, "VP released once"); nfr = 1; }
gboolean linestack_send(struct linestack_context *x, linestack_marker f, linestack_marker t, struct irc_client *c, gboolean dataonly, gboolean tm, int o) { __CPROVER_assert(x == LS && f != NULL && (hasm ? f == &MK : *f == 0) && t == NULL && c == &C1 && !dataonly && !tm == !timed && o == offs && nst && !nsend, "VP and then sent all lines since"); nsend = 1; return 1; }
gpointer vp_lookup(GHashTable *h, gconstpointer k) { __CPROVER_assert(k == &NW, "VP the network's marker"); return hasm ? &MK : NULL; }
#define g_hash_table_lookup vp_lookup
#include "src/repl_backends.c"
static struct global GL; static struct ctrlproxy_config CF;
void H(void)
{
	_Bool a, b, c, d, e; int r; hasm = a ? 1 : 0; gotst = b ? 1 : 0; C1.network = &NW; NW.external_state = c ? &ST : NULL; NW.linestack = d ? LS : NULL; NW.global = &GL; GL.config = &CF; __CPROVER_assume(r >= 0 && r <= 2); CF.report_time = r; timed = r != REPORT_TIME_NEVER; CF.report_time_offset = offs; nget = nst = nfr = nsend = 0; { guint64 k; MK = k; }
	if (e) simple_replicate(&C1); else lastdisconnect_replicate(&C1);
	if (!d) __CPROVER_assert(!nget && nst == (c ? 1 : 0) && !nsend, "VP no history, the current state"); else { __CPROVER_assert(nget, "VP from the history"); if (gotst) __CPROVER_assert(nst && nfr && nsend, "VP the state, and the lines since"); else __CPROVER_assert(!nsend && nst == (c ? 1 : 0), "VP the current state, if there's none"); }
	VREACH("replicate");
}
#endif
