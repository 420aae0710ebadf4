/* C11: what a new connection may send before it is let in (libirc/listener.c)
 * under contract: reads write at most what was asked for, into memory that is
 * there; any content, any length, any short read. */
#include "vp.h"
#include "internals.h"
#include "libirc/listener.h"
#include "ssl.h"
#include "socks.h"
unsigned char vp_byte; int nondet_int(void); size_t nondet_sz(void); GIOStatus nondet_st(void);
static struct irc_listener LI; static struct irc_listener_ops OPS; static struct pending_client PC; static GIOChannel CONN;
/* ghost record of what was read (in order) and written */
#define NR 6
static unsigned char RB[NR][4]; static char MB[256], MB2[256]; static size_t RC[NR], RGOT[NR], WN; static int RST[NR], nr, nw, WST, bufs; static unsigned char WB[300]; size_t K, W;
static const void *buf1, *buf2;
#undef g_io_channel_flush
#undef g_io_channel_read_chars
#undef g_io_channel_write_chars
#undef g_io_channel_read_line
#undef listener_log
#define listener_log(...) ((void)0)
#undef ntohs
#undef htons
static guint16 swap16(guint16 x) { return (x << 8) | (x >> 8); }
#define ntohs swap16
#define htons swap16
GIOStatus vp_read(GIOChannel *c, gchar *b, gsize n, gsize *got, GError **e);
GIOStatus vp_write(GIOChannel *c, const gchar *b, gssize n, gsize *done, GError **e);
#define g_io_channel_read_chars vp_read
#define g_io_channel_write_chars vp_write
#define g_io_channel_flush(a, b) ((void)0)
GIOStatus vp_write(GIOChannel *c, const gchar *b, gssize n, gsize *done, GError **e)
{
	size_t i; __CPROVER_assert(c == &CONN && n >= 0 && n <= 270 && __CPROVER_r_ok(b, n), "VP writes what is there"); nw++; WN = n;
	for (i = 0; i < 4; i++) WB[i] = i < n ? b[i] : 0;
	if (K < n) WB[K] = b[K];
	{ int s; WST = s ? G_IO_STATUS_NORMAL : G_IO_STATUS_ERROR; } *done = n; return WST;
}
GIOStatus vp_read(GIOChannel *c, gchar *b, gsize n, gsize *got, GError **e)
{
	int st; size_t g, i; __CPROVER_assert(c == &CONN && n <= 0x100 && __CPROVER_w_ok(b, n), "VP reads no more than there is room for");
	__CPROVER_assert(nr < NR, "VP few reads"); RC[nr] = n;
	if (n <= 4 && !(bufs & (1 << nr))) { for (i = 0; i < n; i++) { unsigned char x; RB[nr][i] = x; b[i] = x; } }
	else if (buf1 == NULL) { buf1 = b; __CPROVER_array_copy(b, (char *)MB); }
	else { buf2 = b; __CPROVER_array_copy(b, (char *)MB2); }
	__CPROVER_assume(st >= G_IO_STATUS_ERROR && st <= G_IO_STATUS_AGAIN && g <= n); RST[nr] = st; RGOT[nr] = g; nr++; *got = g; return st;
}
#define OK(i) (RST[i] == G_IO_STATUS_NORMAL && RGOT[i] == RC[i])
#ifdef P_DETECT
static char RAW[8]; static size_t Glen; static int Glst, nline, nparse, ncopy, Ghl, rawfree, cvfree, lfree; static gchar CPL[4100]; static gsize cplsz; static char hdr;
#undef g_malloc
#undef g_free
#undef memcpy
void *vp_malloc(gsize n) { __CPROVER_assert(n <= 4096, "VP size"); cplsz = n; return CPL; }
void vp_free(void *p) { if (p == RAW) { rawfree++; } else if (p == CPL) cvfree++; else __CPROVER_assert(p == NULL, "VP frees its own"); }
void *vp_memcpy(void *d, const void *s, size_t n) { __CPROVER_assert(d == CPL + 1 && s == RAW && n == Glen && !rawfree && n + 2 <= cplsz, "VP the rest of the line behind the first character"); ncopy++; return d; }
GIOStatus vp_read_line(GIOChannel *c, gchar **s, gsize *len, gsize *t, GError **e) { __CPROVER_assert(c == &CONN, "VP connection"); nline++; if (Glst != G_IO_STATUS_NORMAL) { *s = NULL; return Glst; } *s = RAW; *len = Glen; return G_IO_STATUS_NORMAL; }
static struct irc_line LN; struct irc_line *irc_parse_line(const char *d) { __CPROVER_assert(d == CPL && ncopy == 1 && !cvfree, "VP parses the whole line"); __CPROVER_assert(CPL[Glen + 1] == 0 && CPL[0] == (hdr ? hdr : (char)RB[0][0]), "VP from its first character"); nparse++; return &LN; }
void free_line(struct irc_line *l) { __CPROVER_assert(l == &LN, "VP line"); lfree++; }
static gboolean hl(struct pending_client *p, const struct irc_line *l) { __CPROVER_assert(p == &PC && l == &LN && !lfree, "VP the line goes on"); return Ghl; }
#define g_malloc vp_malloc
#define g_free vp_free
#define memcpy vp_memcpy
#define g_io_channel_read_line vp_read_line
#endif
#ifdef P_NULTERM
#endif
#if defined(P_NEW) || defined(P_AUTH) || defined(P_NORMAL)
int Gacc, Gh, nh; static gboolean gssapi_acceptable(struct pending_client *p), gssapi_handle_data(struct pending_client *p), pass_handle_data(struct pending_client *p);
#endif
#include "libirc/listener.c"
static void setup(void) { size_t k, w; K = k; W = w; nr = nw = 0; WN = 0; bufs = 0; buf1 = buf2 = NULL; __CPROVER_havoc_object(MB); __CPROVER_havoc_object(MB2); __CPROVER_havoc_object(WB); PC.connection = &CONN; PC.listener = &LI; LI.ops = &OPS; }
#if defined(P_NEW) || defined(P_AUTH) || defined(P_NORMAL)
static gboolean gssapi_acceptable(struct pending_client *p) { __CPROVER_assert(p == &PC, "VP this client"); return Gacc; }
static gboolean pass_handle_data(struct pending_client *p) { __CPROVER_assert(p == &PC, "VP this client"); nh += 1; return Gh; }
static gboolean gssapi_handle_data(struct pending_client *p) { __CPROVER_assert(p == &PC, "VP this client"); nh += 100; return Gh; }
int ncb, Gr; guint16 cbport; const char *cbhost; static gboolean c4(struct pending_client *p) { __CPROVER_assert(p == &PC, "VP this client"); ncb += 1; return Gr; } static gboolean c6(struct pending_client *p) { __CPROVER_assert(p == &PC, "VP this client"); ncb += 100; return Gr; }
static gboolean cf(struct pending_client *p, const char *h, uint16_t port) { __CPROVER_assert(p == &PC && h == buf1 && h[RC[2]] == 0 && (K >= RC[2] || h[K] == MB[K]), "VP the host that was sent"); ncb += 10000; cbport = port; return Gr; }
gboolean listener_socks_error(struct pending_client *pc, guint8 e);
static int nerr, err; gboolean listener_socks_error(struct pending_client *pc, guint8 e) { __CPROVER_assert(pc == &PC, "VP this client"); nerr++; err = e; return FALSE; }
static int mid(struct socks_method *m) { return m->id; }
void H(void)
{
	gboolean r; _Bool a, b, c, d, f, g; int i; setup(); Gacc = a ? 1 : 0; Gh = b ? 1 : 0; Gr = c ? 1 : 0; ncb = nh = nerr = 0; cbhost = NULL;
#ifdef P_NEW
	PC.socks.state = SOCKS_STATE_NEW; { _Bool s; PC.socks.method = s ? &socks_methods[0] : NULL; } bufs = 2;
	r = handle_client_socks_data(&CONN, &PC);
	if (nr < 2 || !OK(0) || !OK(1)) __CPROVER_assert(!r && !nw && PC.socks.state == SOCKS_STATE_NEW, "VP nothing happens before the whole offer is there");
	else {
		__CPROVER_assert(RC[0] == 1 && RC[1] == RB[0][0] && nr == 2 && nw == 1 && WN == 2 && WB[0] == 5, "VP one answer of two bytes");
		if (PC.socks.method == NULL) __CPROVER_assert(WB[1] == 0xff && !r && PC.socks.state == SOCKS_STATE_NEW && !(K < RC[1] && MB[K] == SOCKS_METHOD_USERNAME_PW), "VP refused, unless a method was offered");
		else { __CPROVER_assert(WB[1] == PC.socks.method->id && WB[1] != SOCKS_METHOD_NOAUTH && (WB[1] != SOCKS_METHOD_GSSAPI || Gacc), "VP only methods that prove who it is"); { int any = 0; size_t w; for (w = 0; w < 256; w++) if (w < RC[1] && (unsigned char)MB[w] == WB[1]) any = 1; __CPROVER_assert(any, "VP a method that was offered"); }
			__CPROVER_assert(!r == (WST != G_IO_STATUS_NORMAL) && PC.socks.state == (r ? SOCKS_STATE_AUTH : SOCKS_STATE_NEW), "VP authentication comes next"); }
	}
	__CPROVER_assert(!nh && !ncb && !nerr, "VP nothing else");
#elif defined(P_AUTH)
	PC.socks.state = SOCKS_STATE_AUTH; PC.socks.method = d ? &socks_methods[1] : &socks_methods[2];
	r = handle_client_socks_data(&CONN, &PC);
	__CPROVER_assert(nh == (PC.socks.method->id == SOCKS_METHOD_GSSAPI ? 100 : 1) && !r == !Gh && !nr && !nw && !ncb && !nerr, "VP the method that was agreed on decides");
	for (i = 0; i < 3; i++) __CPROVER_assert(socks_methods[i].handle_data != NULL || socks_methods[i].id == SOCKS_METHOD_NOAUTH, "VP every method but none asks for proof");
#else
	PC.socks.state = SOCKS_STATE_NORMAL; OPS.socks_connect_ipv4 = d ? c4 : NULL; OPS.socks_connect_ipv6 = f ? c6 : NULL; OPS.socks_connect_fqdn = g ? cf : NULL; bufs = 4;
	r = handle_client_socks_data(&CONN, &PC);
	__CPROVER_assert(RC[0] == 4 && !nw && !nh, "VP reads a request");
	if (!OK(0)) __CPROVER_assert(!r && nr == 1 && !ncb && !nerr, "VP an incomplete request");
	else if (RB[0][0] != 5) __CPROVER_assert(nerr == 1 && err == REP_GENERAL_FAILURE && !ncb && !r, "VP wrong version");
	else if (RB[0][1] != CMD_CONNECT) __CPROVER_assert(nerr == 1 && err == REP_CMD_NOT_SUPPORTED && !ncb && !r, "VP only CONNECT");
	else if (RB[0][3] == ATYP_IPV4 && d) __CPROVER_assert(ncb == 1 && !nerr && !r == !Gr, "VP IPv4");
	else if (RB[0][3] == ATYP_IPV6 && f) __CPROVER_assert(ncb == 100 && !nerr && !r == !Gr, "VP IPv6");
	else if (RB[0][3] != ATYP_FQDN) __CPROVER_assert(nerr == 1 && err == REP_ATYP_NOT_SUPPORTED && !ncb && !r, "VP unknown kind of address");
	else {
		__CPROVER_assert(nr < 2 || RC[1] == 1, "VP length of the name"); __CPROVER_assert(nr < 3 || RC[2] == RB[1][0], "VP the name"); __CPROVER_assert(nr < 4 || RC[3] == 2, "VP the port");
		if (nr < 4 || !OK(1) || !OK(2) || !OK(3)) __CPROVER_assert(!r && !ncb && !nerr, "VP an incomplete request");
		else if (!g) __CPROVER_assert(nerr == 1 && err == REP_ATYP_NOT_SUPPORTED && !r, "VP refused");
		else __CPROVER_assert(ncb == 10000 && !nerr && !r == !Gr && cbport == ((RB[3][0] << 8) | RB[3][1]), "VP connects to that host and port");
	}
#endif
	VREACH("handle_client_socks_data");
}
#endif
#ifdef P_PASS
int ncb, Gr, nerr, err; static gboolean auth(struct pending_client *p, const char *u, const char *w, gboolean (*f)(struct pending_client *, gboolean)) { __CPROVER_assert(p == &PC && f == on_socks_pass_accepted && u == buf1 && w == buf2, "VP name and password"); __CPROVER_assert(RC[1] == RB[0][1] && RC[3] == RB[2][0], "VP of the lengths that were sent"); __CPROVER_assert(u[RC[1]] == 0 && w[RC[3]] == 0 && (K >= RC[1] || u[K] == MB[K]) && (K >= RC[3] || w[K] == MB2[K]), "VP as they were sent"); ncb++; return Gr; }
gboolean listener_socks_error(struct pending_client *pc, guint8 e) { nerr++; err = e; return FALSE; }
void H(void)
{
	gboolean r; _Bool a; setup(); Gr = a ? 1 : 0; ncb = nerr = 0; OPS.socks_auth_simple = auth; bufs = 2 | 8; PC.socks.state = SOCKS_STATE_AUTH;
	r = pass_handle_data(&PC);
	if (nr == 4 && OK(0) && OK(1) && OK(2) && OK(3)) __CPROVER_assert(ncb == 1 && !r == !Gr && RC[0] == 2 && RC[2] == 1, "VP name and password are checked once, and the outcome counts");
	else __CPROVER_assert(!ncb && !r, "VP nothing is checked before it is complete");
	__CPROVER_assert(nerr == (OK(0) && RB[0][0] != 5 && RB[0][0] != 1) && !nw && PC.socks.state == SOCKS_STATE_AUTH, "VP wrong version");
	VREACH("pass_handle_data");
}
#endif
#ifdef P_ACC
void H(void) { gboolean r; _Bool a; int acc = a ? 1 : 0; setup(); PC.socks.state = SOCKS_STATE_AUTH; r = on_socks_pass_accepted(&PC, acc); __CPROVER_assert(nw == 1 && WN == 2 && WB[0] == 1 && !WB[1] == acc, "VP the client hears the outcome"); __CPROVER_assert(!r == !(acc && WST == G_IO_STATUS_NORMAL) && PC.socks.state == (r ? SOCKS_STATE_NORMAL : SOCKS_STATE_AUTH), "VP only an accepted client goes on"); VREACH("on_socks_pass_accepted"); }
#endif
#ifdef P_REPLY
void H(void)
{
	gboolean r; guint8 e, at, n; guint16 port; static gchar D[256]; setup(); __CPROVER_havoc_object(D);
	__CPROVER_assume(K < 4 + n + 2);
#ifdef P_ERR
	n = 1; D[0] = 0; at = ATYP_FQDN; port = 0; __CPROVER_assume(e != REP_OK && K < 7); r = listener_socks_error(&PC, e); __CPROVER_assert(!r, "VP refused");
#else
	r = listener_socks_reply(&PC, e, at, n, D, port);
#endif
	__CPROVER_assert(nw == 1 && WN == 6 + n, "VP one reply");
	__CPROVER_assert(WB[K] == (K == 0 ? 5 : K == 1 ? e : K == 2 ? 0 : K == 3 ? at : K < 4 + n ? (unsigned char)D[K - 4] : K == 4 + n ? port >> 8 : port & 255), "VP every byte of the reply");
	__CPROVER_assert(!r == !(e == REP_OK && WST == G_IO_STATUS_NORMAL), "VP success only if there was none");
	VREACH("listener_socks_reply");
}
#endif
#ifdef P_DETECT
void H(void)
{
	gboolean r; size_t n; _Bool a; int st, ty; char fc, first; setup(); Ghl = a ? 1 : 0; __CPROVER_assume(n >= 1 && n <= 4000); Glen = n; __CPROVER_assume(st >= G_IO_STATUS_ERROR && st <= G_IO_STATUS_AGAIN); Glst = st; nline = nparse = ncopy = rawfree = cvfree = lfree = 0; cplsz = 0;
	OPS.handle_client_line = hl; LI.iconv = (GIConv)-1; PC.type = CLIENT_TYPE_UNKNOWN; PC.first_char = fc; PC.socks.state = SOCKS_UNKNOWN; __CPROVER_havoc_object(CPL); __CPROVER_assume(fc == 0 || fc != SOCKS_VERSION);
	hdr = fc;
	r = handle_client_detect(&CONN, &PC);
	__CPROVER_assert(nr == (fc == 0), "VP one character decides");
	if (!fc) { __CPROVER_assume(RGOT[0] == 1 || RST[0] != G_IO_STATUS_NORMAL); first = RB[0][0]; } else first = fc;
	if (!fc && RST[0] != G_IO_STATUS_NORMAL) __CPROVER_assert(!r == (RST[0] != G_IO_STATUS_AGAIN) && PC.type == CLIENT_TYPE_UNKNOWN && PC.first_char == 0 && !nline, "VP nothing has come yet, or nothing will");
	else if (first == SOCKS_VERSION) __CPROVER_assert(r && PC.type == CLIENT_TYPE_SOCKS && PC.socks.state == SOCKS_STATE_NEW && !nline, "VP a SOCKS client");
	else {
		__CPROVER_assert(nline == 1 && PC.socks.state == SOCKS_UNKNOWN, "VP an IRC client");
		if (Glst == G_IO_STATUS_NORMAL) __CPROVER_assert(PC.type == CLIENT_TYPE_REGULAR && nparse == 1 && !r == !Ghl && rawfree == 1 && cvfree == 1 && lfree == 1, "VP its first line, whole, goes on");
		else __CPROVER_assert(!nparse && (Glst == G_IO_STATUS_AGAIN ? r && PC.type == CLIENT_TYPE_UNKNOWN && PC.first_char == first : !r), "VP waits for the rest of the line, keeping what it has");
	}
	VREACH("handle_client_detect");
}
#endif
