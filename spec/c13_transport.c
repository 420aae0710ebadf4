/* C13: lines over a connection, complete, once and in order (libirc/transport_ioc.c,
 * transport.c) under contract. The queue of any length is a pair of counters: the
 * lines number Qh to Qt-1 are queued, the next line accepted is number Qt. */
#include "vp.h"
#include "internals.h"
#include "irc.h"
#include "transport.h"
unsigned char vp_byte;
#undef g_free
#undef g_error_free
#undef g_clear_error
struct irc_transport_data_iochannel;
static struct irc_transport T; static struct irc_line LN, QL; static GIOChannel IOC; static GError ERR; static GQueue Q; static struct irc_transport_callbacks CB;
int Qh, Qt, W, D, dirty, broken, held, watch, wid, nhup, nlog, nerrs, nsent, dupd, sendst, flushst, nclock; /* the watch for writing and its id */
#define BIG 1000000000
#if defined(P_SENDL) || defined(P_QUEUE)
struct irc_line *linedup(const struct irc_line *l) { __CPROVER_assert(l == &LN && !dupd, "VP keeps a copy of the line"); dupd = 1; return &QL; }
void vp_push_tail(GQueue *q, gpointer l) { __CPROVER_assert(q == &Q && l == &QL && dupd == 1, "VP the line goes to the end of the queue"); dupd = 2; Qt++; }
void vp_push_head(GQueue *q, gpointer l) { __CPROVER_assert(q == &Q && l == &QL && held, "VP the line goes back"); held = 0; Qh--; }
gpointer vp_pop_head(GQueue *q) { __CPROVER_assert(q == &Q && !held, "VP one line at a time"); if (Qh == Qt) return NULL; held = 1; Qh++; return &QL; }
gboolean vp_is_empty(GQueue *q) { __CPROVER_assert(q == &Q, "VP the queue"); return Qh == Qt; }
#define g_queue_push_tail vp_push_tail
#define g_queue_push_head vp_push_head
#define g_queue_pop_head vp_pop_head
#define g_queue_is_empty vp_is_empty
#define g_queue_get_length(q) ((guint)(Qt - Qh))
#define g_queue_peek_head(q) (Qh == Qt ? NULL : (gpointer)&QL)
void free_line(struct irc_line *l) { __CPROVER_assert(l == &QL && held, "VP a queued line is released once"); held = 0; }
static int anyst(void) { int s; __CPROVER_assume(s == G_IO_STATUS_ERROR || s == G_IO_STATUS_NORMAL || s == G_IO_STATUS_AGAIN); return s; }
/* assumed of irc_send_line (C01): the whole line or nothing is written, if nothing is left in the buffer */
GIOStatus irc_send_line(GIOChannel *c, GIConv ic, const struct irc_line *l, GError **e)
{
	int s; _Bool eof;
	__CPROVER_assert(c == &IOC && ic == (GIConv)&T, "VP to the other side, in its character set");
	__CPROVER_assert(!dirty || broken, "VP no line is sent before the one before it has left");
#ifdef P_QUEUE
	__CPROVER_assert(l == &QL && held && W + D == Qh - 1, "VP lines are sent in the order they were queued");
#else
	__CPROVER_assert(l == &LN && !nsent && Qh == Qt, "VP a line is sent once, and not before the ones queued");
#endif
	__CPROVER_assert(e == NULL || *e == NULL, "VP no error is pending");
	nsent = 1; s = anyst();
	if (eof) { s = G_IO_STATUS_EOF; D++; }
	if (s == G_IO_STATUS_NORMAL) { W++; dirty = 1; }
	if (s == G_IO_STATUS_ERROR) { D++; if (e) *e = &ERR; nerrs++; }
	sendst = s; return s;
}
GIOStatus vp_flush(GIOChannel *c, GError **e)
{
	int s = anyst(); __CPROVER_assert(c == &IOC && (e == NULL || *e == NULL), "VP flushes, with no error pending");
	if (s == G_IO_STATUS_NORMAL) dirty = 0; if (s == G_IO_STATUS_ERROR) { broken = 1; if (e) { *e = &ERR; nerrs++; } }
	flushst = s; return s;
}
#define g_io_channel_flush vp_flush
gboolean vp_sendq(GIOChannel *ioc, GIOCondition cond, void *t);
guint vp_watch(GIOChannel *c, GIOCondition cond, GIOFunc f, gpointer d);
#define g_io_add_watch vp_watch
gboolean g_source_remove(guint id) { __CPROVER_assert(0, "VP watch left alone"); return 1; }
void g_io_channel_unref(GIOChannel *c) { __CPROVER_assert(c == &IOC, "VP the connection"); }
#ifdef P_QUEUE
int nreally; static void really_disconnect(struct irc_transport_data_iochannel *b);
#endif
static void vp_err(GError *e) { __CPROVER_assert(e == &ERR && nerrs > 0, "VP an error is released once"); nerrs--; }
void vp_cerr(GError **e) { if (e && *e) { vp_err(*e); *e = NULL; } }
#define g_error_free vp_err
#define g_clear_error vp_cerr
static void cb_hangup(struct irc_transport *t) { __CPROVER_assert(t == &T && !nhup, "VP hung up once"); nhup++; }
static void cb_log(struct irc_transport *t, const struct irc_line *l, const GError *e) { __CPROVER_assert(t == &T && e == &ERR && nerrs > 0 && (l == &LN || l == &QL), "VP the failure is reported"); if (nlog < 5) nlog++; }
time_t vp_time(time_t *t) { nclock = 1; return 5; }
#define time vp_time
#include "libirc/transport_ioc.c"
static struct irc_transport_data_iochannel B;
guint vp_watch(GIOChannel *c, GIOCondition cond, GIOFunc f, gpointer d) { __CPROVER_assert(c == &IOC && cond == G_IO_OUT && f == transport_send_queue && d == &T && !watch, "VP one watch for when the connection has room"); watch = 1; return wid; }
#ifdef P_QUEUE
static void really_disconnect(struct irc_transport_data_iochannel *b) { __CPROVER_assert(b == &B && !nreally && !watch, "VP disconnects at the end"); nreally = 1; }
#endif
static void setup(int w) { _Bool pd; int a, b, id; wid = id; T.backend_data = &B; T.callbacks = &CB; CB.hangup = cb_hangup; CB.log = cb_log; B.incoming = &IOC; B.outgoing_iconv = (GIConv)&T; B.pending_lines = &Q; B.pending_disconnect = pd ? 1 : 0; Qh = a; Qt = b; __CPROVER_assume(0 <= a && a <= b && b < BIG); W = Qh; D = 0; __CPROVER_assume(wid > 0); watch = w; B.outgoing_id = w ? wid : 0; dirty = broken = held = nhup = nlog = nerrs = nsent = dupd = nclock = 0; sendst = flushst = -1; }
#endif
#ifdef P_SENDL
void H(void)
{
	gboolean r; _Bool w, g; int q0; GError *e = NULL; setup(w ? 1 : 0); if (w) { _Bool d; dirty = d ? 1 : 0; } else __CPROVER_assume(Qh == Qt); q0 = Qt - Qh;
	r = irc_transport_iochannel_send_line(&T, &LN, g ? &e : NULL);
	__CPROVER_assert((B.outgoing_id != 0) == watch && (!watch || B.outgoing_id == (guint)wid), "VP the watch is known");
	__CPROVER_assert(watch || (Qh == Qt && (!dirty || !r)), "VP without a watch nothing is left to send");
	if (w) __CPROVER_assert(r && !nsent && Qt - Qh == q0 + 1 && dupd == 2, "VP queued behind the others");
	else if (sendst == G_IO_STATUS_AGAIN) __CPROVER_assert(r && watch && dupd == 2 && Qt - Qh == 1, "VP queued until there is room");
	else __CPROVER_assert(nsent && !dupd && r == (sendst == G_IO_STATUS_NORMAL && flushst != G_IO_STATUS_ERROR), "VP sent once, or failed");
	if (sendst == G_IO_STATUS_NORMAL && flushst == G_IO_STATUS_AGAIN) __CPROVER_assert(watch, "VP sent when there is room");
	__CPROVER_assert(nhup == (sendst == G_IO_STATUS_EOF) && (sendst == G_IO_STATUS_EOF ? !r : 1), "VP hung up");
	__CPROVER_assert(nlog == (sendst == G_IO_STATUS_ERROR || flushst == G_IO_STATUS_ERROR), "VP the failure is reported");
	__CPROVER_assert(nerrs == (nlog && g) && (e == NULL || nerrs) && (!nerrs || e == &ERR), "VP the error goes to the caller or is released");
	__CPROVER_assert(nclock == (sendst == G_IO_STATUS_NORMAL), "VP time of the last line");
	VREACH("irc_transport_iochannel_send_line");
}
#endif
#ifdef P_QUEUE
void H(void)
{
	gboolean r; GIOCondition c; int t0; { _Bool d; int st0; setup(1); dirty = d ? 1 : 0; t0 = Qt; } nreally = 0;
	watch = 0; /* while the watch is served; it stays if this returns TRUE */
	r = transport_send_queue(&IOC, c, &T);
	__CPROVER_assert(Qt == t0 && !held && W + D == Qh && nerrs == 0, "VP every line is sent, or reported, or still queued, in order");
	__CPROVER_assert(!watch && (B.outgoing_id != 0) == (r != 0) && (!r || B.outgoing_id == (guint)wid), "VP the watch stays as long as it is needed");
	__CPROVER_assert(r || nhup || (Qh == Qt && (!dirty || broken)), "VP nothing is left to send");
	__CPROVER_assert(!r || dirty || sendst == G_IO_STATUS_AGAIN || flushst == G_IO_STATUS_AGAIN, "VP stops only when there is no room");
	__CPROVER_assert(nhup == (sendst == G_IO_STATUS_EOF) && (!nhup || !r), "VP hung up");
	__CPROVER_assert(nreally == (!r && !nhup && B.pending_disconnect), "VP disconnects when all is sent, if asked to");
	VREACH("transport_send_queue");
}
#endif

#ifdef P_DISC
int nshut, inw, outw, iid, oid, nunref, qfree, bfree, nic, noc; static struct irc_transport_data_iochannel *BP;
gboolean vp_remove(guint id) { __CPROVER_assert((inw && id == (guint)iid) || (outw && id == (guint)oid), "VP a watch is removed once"); if (id == (guint)iid) inw = 0; else outw = 0; return 1; }
#define g_source_remove vp_remove
void vp_unref(GIOChannel *c) { __CPROVER_assert(c == &IOC && !nunref, "VP released once"); nunref = 1; }
#define g_io_channel_unref vp_unref
GIOStatus vp_shut(GIOChannel *c, gboolean f, GError **e) { __CPROVER_assert(c == &IOC && !f && outw && !nshut, "VP nobody is waited for"); nshut = 1; return G_IO_STATUS_NORMAL; }
#define g_io_channel_shutdown vp_shut
gint vp_iclose(GIConv c) { __CPROVER_assert((c == (GIConv)&LN && !noc) || (c == (GIConv)&QL && !nic), "VP closed once"); if (c == (GIConv)&LN) noc = 1; else nic = 1; return 0; }
#define g_iconv_close vp_iclose
static void free_pending_line(void *l, void *u);
void vp_qeach(GQueue *q, GFunc f, gpointer u) { __CPROVER_assert(q == &Q && f == free_pending_line && !qfree, "VP queued lines are released"); qfree = 1; }
#define g_queue_foreach vp_qeach
void vp_qfree(GQueue *q) { __CPROVER_assert(q == &Q && qfree == 1, "VP and the queue"); qfree = 2; }
#define g_queue_free vp_qfree
void vp_free(void *p) { __CPROVER_assert(p == BP && !bfree, "VP released once"); bfree = 1; }
#define g_free vp_free
void free_line(struct irc_line *l) { }
#include "libirc/transport_ioc.c"
static struct irc_transport_data_iochannel B;
static void setup(void) { _Bool a, b, c, d; int i1, i2; iid = i1; oid = i2; BP = &B; B.incoming = &IOC; B.pending_lines = &Q; __CPROVER_assume(iid > 0 && oid > 0 && iid != oid); inw = a ? 1 : 0; outw = b ? 1 : 0; B.incoming_id = a ? iid : 0; B.outgoing_id = b ? oid : 0; B.pending_disconnect = 0; B.outgoing_iconv = c ? (GIConv)&LN : (GIConv)-1; B.incoming_iconv = d ? (GIConv)&QL : (GIConv)-1; nshut = nunref = qfree = bfree = 0; noc = !c; nic = !d; }
void H(void)
{
	setup(); int o = outw;
	irc_transport_iochannel_disconnect(&B);
	__CPROVER_assert(B.pending_disconnect && !irc_transport_iochannel_is_connected(&B), "VP disconnected");
	__CPROVER_assert(!inw && outw == o && (o ? B.incoming == &IOC && !nunref && B.outgoing_id == (guint)oid : B.incoming == NULL && nunref), "VP nothing is received any more; closed as soon as nothing is queued");
	irc_transport_iochannel_free_data(&B);
	__CPROVER_assert(nshut == o, "VP what is queued is dropped without waiting");
	__CPROVER_assert(!inw && !outw && nunref && qfree == 2 && bfree && nic && noc, "VP nothing is left behind that refers to the connection");
	VREACH("disconnect and free");
}
#endif

#ifdef P_RECV
int gone, live, Rn, nrecv, nerr, ncs, Rst, ok, Gerr, done; static struct irc_transport *TP; struct irc_transport_data_iochannel *BP; GIOCondition bc; char *MSG0; static char ETXT[2];
GIOStatus irc_recv_line(GIOChannel *c, GIConv ic, GError **e, struct irc_line **l)
{
	int s; _Bool x; __CPROVER_assert(c == &IOC && ic == (GIConv)&Q && !live && !done && *e == NULL, "VP reads on, line by line"); __CPROVER_assume(s == G_IO_STATUS_ERROR || s == G_IO_STATUS_NORMAL || s == G_IO_STATUS_AGAIN || s == G_IO_STATUS_EOF);
	*l = NULL; Rst = s; if (s == G_IO_STATUS_NORMAL || (s == G_IO_STATUS_ERROR && x)) { *l = &LN; live = 1; } if (s == G_IO_STATUS_ERROR) { *e = &ERR; nerr = 1; } if (s != G_IO_STATUS_NORMAL) done = 1; return s;
}
void free_line(struct irc_line *l) { __CPROVER_assert(l == &LN && live, "VP a line is released once"); live = 0; }
static void vp_err(GError *e) { __CPROVER_assert(e == &ERR && nerr, "VP an error is released once"); nerr = 0; }
void vp_cerr(GError **e) { if (e && *e) { vp_err(*e); *e = NULL; } }
#define g_error_free vp_err
#define g_clear_error vp_cerr
#include "libirc/transport_ioc.c"
static struct irc_transport_data_iochannel B;
static gboolean cb_recv(struct irc_transport *t, const struct irc_line *l) { _Bool r, p; __CPROVER_assert(t == TP && l == &LN && live && Rst == G_IO_STATUS_NORMAL && ok && nrecv == 0, "VP every line is delivered, once"); nrecv = 1; if (!r) { ok = 0; done = 1; gone = 1; return 0; } if (p) { B.pending_disconnect = 1; done = 1; } return 1; }
static void cb_hangup(struct irc_transport *t) { __CPROVER_assert(t == TP && ok && !nhup, "VP hung up once"); nhup = 1; done = 1; }
static void cb_charset(struct irc_transport *t, const char *m) { __CPROVER_assert(t == TP && m == ETXT && !ncs, "VP told"); ncs = 1; }
static gboolean cb_error(struct irc_transport *t, const char *m) { __CPROVER_assert(t == TP && !Gerr && (m == ETXT || Rst == -1), "VP failure"); Gerr = 1; done = 1; return 0; }
GQuark g_convert_error_quark(void) { return 7; }
void H(void)
{
	GIOCondition c; gboolean r; int dom, cod; TP = &T; T.backend_data = &B; B.incoming = &IOC; B.incoming_iconv = (GIConv)&Q; B.pending_disconnect = 0; T.callbacks = &CB; CB.recv = cb_recv; CB.hangup = cb_hangup; CB.charset_error = cb_charset; CB.error = cb_error; ERR.domain = dom; ERR.code = cod; ERR.message = ETXT;
	live = nrecv = nerr = ncs = nhup = Gerr = done = gone = 0; Rst = -1; ok = 1; __CPROVER_assume((c & ~(G_IO_IN | G_IO_HUP)) == 0);
	r = handle_transport_receive(&IOC, c, &T);
	__CPROVER_assert(!live && !nerr, "VP nothing is left behind");
	if (c & G_IO_IN) {
		__CPROVER_assert(done, "VP all there is is read, unless disconnected");
		__CPROVER_assert(nhup == (Rst == G_IO_STATUS_EOF), "VP hung up");
		__CPROVER_assert(Rst != G_IO_STATUS_ERROR || ncs + Gerr == 1, "VP failure is reported");
		__CPROVER_assert(ncs == (Rst == G_IO_STATUS_ERROR && dom == 7 && cod == G_CONVERT_ERROR_ILLEGAL_SEQUENCE), "VP a line that can't be converted is reported");
		__CPROVER_assert(!r == (gone || nhup || Gerr || B.pending_disconnect), "VP goes on unless the connection is gone");
	} else __CPROVER_assert(nhup == ((c & G_IO_HUP) != 0) && r == !nhup && Rst == -1, "VP hung up");
	VREACH("handle_transport_receive");
}
#endif

#ifdef P_CHARSET
static char NM[2]; int no, ni, Fo, Fi, co, ci;
GIConv vp_iopen(const gchar *to, const gchar *from) { if (to == NM) { __CPROVER_assert(from[0] == 'U' && from[1] == 'T' && from[2] == 'F' && from[3] == '-' && from[4] == '8' && !from[5] && !no, "VP from UTF-8 when sending"); if (Fo) return (GIConv)-1; no = 1; return (GIConv)&LN; } __CPROVER_assert(from == NM && to[0] == 'U' && to[3] == '-' && to[4] == '8' && !to[5] && !ni, "VP to UTF-8 when receiving"); if (Fi) return (GIConv)-1; ni = 1; return (GIConv)&QL; }
#define g_iconv_open vp_iopen
gint vp_iclose(GIConv c) { if (c == (GIConv)&LN) { __CPROVER_assert(no, "VP once"); no = 0; } else if (c == (GIConv)&QL) { __CPROVER_assert(ni, "VP once"); ni = 0; } else if (c == (GIConv)&IOC) { __CPROVER_assert(co, "VP once"); co = 0; } else { __CPROVER_assert(c == (GIConv)&Q && ci, "VP once"); ci = 0; } return 0; }
#define g_iconv_close vp_iclose
void free_line(struct irc_line *l) { }
#include "libirc/transport_ioc.c"
static struct irc_transport_data_iochannel B;
void H(void)
{
	_Bool a, b, cc, nn; int c = cc ? 1 : 0, n = nn ? 1 : 0; gboolean r, good; Fo = a ? 1 : 0; Fi = b ? 1 : 0; no = ni = 0; co = ci = c ? 1 : 0; T.backend_data = &B; B.outgoing_iconv = c ? (GIConv)&IOC : (GIConv)-1; B.incoming_iconv = c ? (GIConv)&Q : (GIConv)-1;
	r = irc_transport_iochannel_set_charset(&T, n ? NM : NULL); good = !n || (!Fo && !Fi);
	__CPROVER_assert(!r == !good, "VP whether it worked");
	if (good) __CPROVER_assert(!co && !ci && no == n && ni == n && B.outgoing_iconv == (n ? (GIConv)&LN : (GIConv)-1) && B.incoming_iconv == (n ? (GIConv)&QL : (GIConv)-1), "VP the new character set is used both ways");
	else __CPROVER_assert(co == c && ci == c && !no && !ni && B.outgoing_iconv == (c ? (GIConv)&IOC : (GIConv)-1) && B.incoming_iconv == (c ? (GIConv)&Q : (GIConv)-1), "VP nothing changes if it is not known");
	VREACH("irc_transport_iochannel_set_charset");
}
#endif

#ifdef P_TOP
static struct irc_transport_ops OPS; int con, nd, ncb, ns, nerr, Gr, nset, nact, Gset, cf; static int DATA; static char OLDC[2], NEWC[2], DUPC[2]; static GError *EP;
static gboolean op_con(void *d) { __CPROVER_assert(d == &DATA, "VP of this transport"); return con; }
static void op_disc(void *d) { __CPROVER_assert(d == &DATA && !nd, "VP once"); nd = 1; con = 0; }
static gboolean op_send(struct irc_transport *t, const struct irc_line *l, GError **e) { __CPROVER_assert(t == &T && l == &LN && con && !ns && e == &EP, "VP sends the line once"); ns = 1; return Gr; }
static gboolean op_set(struct irc_transport *t, const char *n) { __CPROVER_assert(t == &T && !nset, "VP once"); nset = 1; return Gset; }
static void cb_disc(struct irc_transport *t) { __CPROVER_assert(t == &T && nd && !ncb, "VP told once"); ncb = 1; }
#undef g_set_error_literal
void vp_seterr(GError **e) { nerr = 1; }
#define g_set_error_literal(e, ...) vp_seterr(e)
#undef g_strdup
char *vp_dup(const char *s) { __CPROVER_assert(s == NEWC, "VP keeps the name"); return DUPC; }
#define g_strdup vp_dup
void vp_free(void *p) { __CPROVER_assert(p == OLDC && !cf, "VP the old name"); cf = 1; }
#define g_free vp_free
#include "libirc/transport.c"
void H(void)
{
	_Bool a, b, c, n; gboolean r; int was; T.backend_ops = &OPS; T.backend_data = &DATA; T.callbacks = &CB; CB.disconnect = cb_disc; OPS.is_connected = op_con; OPS.disconnect = op_disc; OPS.send_line = op_send; OPS.set_charset = op_set; con = was = a ? 1 : 0; Gr = b ? 1 : 0; Gset = c ? 1 : 0; nd = ncb = ns = nerr = nset = cf = 0;
	r = transport_send_line(&T, &LN, &EP);
	__CPROVER_assert(was ? ns && !r == !Gr && !nerr : !ns && !r && nerr, "VP sent exactly while connected");
	T.charset = OLDC; r = transport_set_charset(&T, n ? NEWC : NULL);
	__CPROVER_assert(nset && !r == !Gset && (r ? cf && T.charset == (n ? DUPC : NULL) : !cf && T.charset == OLDC), "VP the character set in use");
	irc_transport_disconnect(&T);
	__CPROVER_assert(nd == was && ncb == was, "VP disconnects once"); irc_transport_disconnect(&T);
	__CPROVER_assert(nd == was && ncb == was, "VP disconnects once");
	VREACH("transport");
}
#endif
#ifdef P_NEW
int nref, nterm; GQueue *vp_qnew(void) { return &Q; }
#define g_queue_new vp_qnew
GIOChannel *vp_ref(GIOChannel *c) { __CPROVER_assert(c == &IOC && !nref, "VP the connection is kept"); nref = 1; return c; }
#define g_io_channel_ref vp_ref
void vp_term(GIOChannel *c, const gchar *s, gint n) { __CPROVER_assert(c == &IOC && n == 1 && s != NULL && s[0] == '\n', "VP a line ends at a newline, and nowhere else"); nterm++; }
#define g_io_channel_set_line_term vp_term
#include "libirc/transport_ioc.c"
void H(void)
{
	struct irc_transport *t; struct irc_transport_data_iochannel *b; nref = nterm = 0; t = irc_transport_new_iochannel(&IOC); __CPROVER_assert(t != NULL && t->backend_ops == &irc_transport_iochannel_ops && !t->callbacks, "VP a connection"); b = t->backend_data;
	__CPROVER_assert(b != NULL && b->incoming == &IOC && nref == 1 && nterm == 1 && b->pending_lines == &Q && !b->outgoing_id && !b->incoming_id && !b->pending_disconnect && b->outgoing_iconv == (GIConv)-1 && b->incoming_iconv == (GIConv)-1, "VP nothing is queued, lines end at newlines");
	VREACH("irc_transport_new_iochannel");
}
#endif
