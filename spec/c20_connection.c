/* C20: the connection to a server (libirc/connection.c) under contract. The invariant
 * that ties the state of the connection to what is kept for it is INV below; every
 * function that changes the state keeps it. */
#include "vp.h"
#if defined(VIRT) || defined(SEPU)
/* CBMC loses pointers to functions in unions: for the virtual networks their data is kept apart */
#include <glib.h>
#include <sys/socket.h>
#include <netdb.h>
#define union struct
#include "libirc/connection.h"
#undef union
#endif
#include "internals.h"
#include "irc.h"
#include "ssl.h"
#include "transport.h"
#include <netdb.h>
#include <errno.h>
unsigned char vp_byte;
static struct irc_network N; static struct network_config NC; static struct irc_network_callbacks CB; static struct irc_network_state ST; static struct irc_transport T; static struct virtual_network_ops OPS; static struct tcp_server_config CS0, CS1, CS2;
static GIOChannel IOC, IOC2; static GError ERR; static struct sockaddr_storage RN, LNM;
/* what is alive: the timer to reconnect, the watch for a connection attempt, the timer to ping */
int rt, ct, pt, rid, cid, pid, tlive, slive, lnlive, rnlive, nquit, ndisc, nfini, stage, nreason;
#undef g_free
#undef g_source_remove
void vp_free(void *p) { if (p == NULL) return; if (p == (void *)&RN) { __CPROVER_assert(rnlive, "VP a name is released once"); rnlive = 0; } else if (p == (void *)&LNM) { __CPROVER_assert(lnlive, "VP a name is released once"); lnlive = 0; } }
#define g_free vp_free
gboolean vp_remove(guint id) { __CPROVER_assert((rt && id == (guint)rid) || (ct && id == (guint)cid) || (pt && id == (guint)pid), "VP only what is there is removed"); if (id == (guint)rid) rt = 0; else if (id == (guint)cid) ct = 0; else pt = 0; return 1; }
#define g_source_remove vp_remove
#define network_log(...) ((void)0)
#define network_report_disconnect(...) ((void)nreason++)
gboolean vp_args(struct irc_network *s, const char *a, const char *b, const char *c, const char *d, const char *e, const char *f);
#define VPA(s, a, b, c, d, e, f, ...) vp_args(s, a, b, c, d, e, f)
#define network_send_args(...) VPA(__VA_ARGS__, NULL, NULL, NULL, NULL, NULL, NULL)
#define log_global(...) ((void)0)
static int streq(const char *a, const char *b) { int i; for (i = 0; i < 9; i++) { if (a[i] != b[i]) return 0; if (!a[i]) return 1; } return 0; }
time_t Gnow; time_t vp_time(time_t *t) { return Gnow; }
#define time vp_time
guint vp_timeout(guint ms, GSourceFunc f, gpointer d);
#define g_timeout_add vp_timeout
#define TCP NETWORK_TCP
#define PEND NETWORK_CONNECTION_STATE_RECONNECT_PENDING
#define NOTC NETWORK_CONNECTION_STATE_NOT_CONNECTED
#define CING NETWORK_CONNECTION_STATE_CONNECTING
#define LOGIN NETWORK_CONNECTION_STATE_LOGIN_SENT
#define MOTD NETWORK_CONNECTION_STATE_MOTD_RECVD
#define STATE (N.connection.state)
#define TC (N.connection.data.tcp)
#define INV ((rt != 0) == (STATE == PEND) && (!rt || N.reconnect_id == (guint)rid) && (ct != 0) == (STATE == CING) && (!ct || (NC.type == TCP && TC.connect_id == cid)) && (slive != 0) == (STATE == LOGIN || STATE == MOTD) && N.external_state == (slive ? &ST : NULL) && (tlive != 0) == (slive && NC.type != NETWORK_VIRTUAL) && N.connection.transport == (tlive ? &T : NULL) && (pt ? NC.type == TCP && slive : 1) && (NC.type == NETWORK_VIRTUAL || (TC.ping_id == (pt ? pid : 0) && (TC.remote_name != NULL) == rnlive && (TC.local_name != NULL) == lnlive && (!rnlive || TC.remote_name == (void *)&RN) && (!lnlive || TC.local_name == (void *)&LNM))) && rnlive == (NC.type == TCP && STATE >= CING) && lnlive == rnlive)
static void setup(void)
{
	int t, s; _Bool a, b; int i1, i2, i3;
	rid = i1; cid = i2; pid = i3; __CPROVER_assume(rid > 0 && cid > 0 && pid > 0 && rid != cid && rid != pid && cid != pid);
#ifdef VIRT /* apart from the others, for it shares a union with them */
	t = NETWORK_VIRTUAL;
#elif defined(TCPLIKE)
	__CPROVER_assume(t != NETWORK_VIRTUAL);
#endif
	__CPROVER_assume(t >= 0 && t <= 3); NC.type = t; N.private_data = &NC; N.callbacks = &CB;
	__CPROVER_assume(s == NOTC || s == PEND || s == CING || s == LOGIN || s == MOTD); __CPROVER_assume(s != CING || t == NETWORK_TCP); STATE = s;
	rt = s == PEND; ct = s == CING; slive = s == LOGIN || s == MOTD; tlive = slive && t != NETWORK_VIRTUAL; rnlive = lnlive = t == NETWORK_TCP && s >= CING; pt = t == NETWORK_TCP && slive; if (pt) pt = a ? 1 : 0;
	{ int x; N.reconnect_id = x; } if (rt) N.reconnect_id = rid; N.external_state = slive ? &ST : NULL; N.connection.transport = tlive ? &T : NULL;
#ifndef TCPLIKE
	if (t == NETWORK_VIRTUAL) N.connection.data.virtual.ops = b ? &OPS : NULL;
#endif
#ifndef VIRT
	if (t != NETWORK_VIRTUAL) { int x; TC.connect_id = ct ? cid : x; TC.ping_id = pt ? pid : 0; TC.remote_name = rnlive ? (void *)&RN : NULL; TC.local_name = lnlive ? (void *)&LNM : NULL; TC.current_server = a ? &CS0 : NULL; }
#endif
	nquit = ndisc = nfini = stage = nreason = 0;
}
#ifdef P_CLOSE
gboolean vp_args(struct irc_network *s, const char *a, const char *b, const char *c, const char *d, const char *e, const char *f) { __CPROVER_assert(s == &N && streq(a, "QUIT") && b == NULL && !nquit && !ndisc && slive && (tlive || NC.type == NETWORK_VIRTUAL), "VP quits, while still connected"); nquit = 1; return nondet_int() ? 1 : 0; }
static void on_disc(struct irc_network *n) { __CPROVER_assert(n == &N && nquit && !ndisc && slive && N.external_state == &ST && (STATE == LOGIN || STATE == MOTD), "VP told of the end once, with the state still there"); ndisc = 1; }
void free_network_state(struct irc_network_state *s) { __CPROVER_assert(s == &ST && slive && (ndisc || !CB.disconnect), "VP the state is released once, afterwards"); slive = 0; }
void irc_transport_disconnect(struct irc_transport *t) { __CPROVER_assert(t == &T && tlive == 1 && nquit, "VP the connection is closed, once"); tlive = 2; }
void free_irc_transport(struct irc_transport *t) { __CPROVER_assert(t == &T && tlive == 2, "VP closed, then released"); tlive = 0; }
static void on_fini(struct irc_network *n) { __CPROVER_assert(n == &N && !nfini && nquit, "VP ended once"); nfini = 1; }
#include "libirc/connection.c"
void H(void)
{
	gboolean r; int s0; _Bool f; _Bool cb; setup(); CB.disconnect = cb ? on_disc : NULL; OPS.fini = f ? on_fini : NULL; s0 = STATE; __CPROVER_assume(INV);
	if (f) { r = close_server(&N); __CPROVER_assert(r == (s0 == LOGIN || s0 == MOTD), "VP tells whether there was a connection"); }
	else { r = disconnect_network(&N); __CPROVER_assert(r == (s0 == LOGIN || s0 == MOTD), "VP tells whether there was a connection"); }
	__CPROVER_assert(STATE == NOTC && !rt && !ct && !pt && !slive && !tlive && !rnlive && !lnlive && INV, "VP nothing of the connection is left");
	__CPROVER_assert(nquit == r && ndisc == (r && CB.disconnect != NULL), "VP quits and tells of it if there was one");
	VREACH("close_server");
}
#endif
#ifdef P_RECON
int nclose, nconn, nnext;
static gboolean close_server(struct irc_network *n); static struct tcp_server_config *network_get_next_tcp_server(struct irc_network *n); static gboolean connect_server(struct irc_network *s);
#include "libirc/connection.c"
static gboolean close_server(struct irc_network *n) { _Bool r; __CPROVER_assert(n == &N && !nclose, "VP closes once"); nclose = 1; rt = ct = pt = slive = tlive = rnlive = lnlive = 0; STATE = NOTC; N.external_state = NULL; N.connection.transport = NULL; if (NC.type != NETWORK_VIRTUAL) { TC.ping_id = 0; TC.remote_name = TC.local_name = NULL; } return r ? 1 : 0; }
static struct tcp_server_config *network_get_next_tcp_server(struct irc_network *n) { __CPROVER_assert(n == &N && NC.type == TCP && nclose && TC.current_server != &CS1, "VP the next server"); nnext = 1; return &CS1; }
static gboolean connect_server(struct irc_network *s) { __CPROVER_assert(s == &N && nclose && NC.type == NETWORK_VIRTUAL && STATE == NOTC && !nconn, "VP a virtual network starts again"); nconn = 1; return nondet_int() ? 1 : 0; }
guint vp_timeout(guint ms, GSourceFunc f, gpointer d) { __CPROVER_assert(ms == (guint)(1000 * N.reconnect_interval) && f == (GSourceFunc)delayed_connect_server && d == &N && nclose && !rt, "VP one attempt, after the interval"); rt = 1; return rid; }
void H(void)
{
	int k; gboolean r; setup(); __CPROVER_assume(INV && N.reconnect_interval >= 0 && N.reconnect_interval <= 1000000 && STATE != PEND); T.userdata = &N; nclose = nconn = nnext = 0;
	if (k == 0) reconnect(&N); else if (k == 1) on_transport_hup(&T); else { r = on_transport_error(&T, "e"); __CPROVER_assert(!r, "VP the connection is not read any more"); }
	__CPROVER_assert(nclose && nconn == (NC.type == NETWORK_VIRTUAL) && nnext == (NC.type == TCP) && (k < 0 || k > 1 || nreason == k), "VP closes, then tries again");
	if (NC.type != NETWORK_VIRTUAL) __CPROVER_assert(rt && STATE == PEND && INV, "VP one attempt is pending");
	if (NC.type == TCP) __CPROVER_assert(TC.current_server == &CS1, "VP with the next server");
	VREACH("reconnect");
}
#endif
#ifdef P_CONNECT
int nconn, was, dispatched;
static gboolean connect_server(struct irc_network *s);
#include "libirc/connection.c"
guint vp_timeout(guint ms, GSourceFunc f, gpointer d) { __CPROVER_assert(ms == (guint)(1000 * N.reconnect_interval) && f == (GSourceFunc)delayed_connect_server && d == &N && !rt && STATE == PEND, "VP one attempt, after the interval"); rt = 1; return rid; }
/* the contract of connect_server, as proved of connect_current_tcp_server */
static gboolean connect_server(struct irc_network *s)
{
	int k; __CPROVER_assert(s == &N && !nconn && (STATE == NOTC || (STATE == PEND && dispatched && rt)), "VP connects once, with no other attempt pending"); nconn = 1;
	if (k == 0) return 0;
	if (k == 1 && STATE == NOTC) { STATE = PEND; rt = 1; N.reconnect_id = rid; return 0; }
	if (k == 2 && NC.type == TCP) { STATE = CING; ct = 1; TC.connect_id = cid; } else { STATE = NC.type == NETWORK_VIRTUAL ? MOTD : LOGIN; slive = 1; N.external_state = &ST; if (NC.type != NETWORK_VIRTUAL) { tlive = 1; N.connection.transport = &T; } }
	if (NC.type == TCP) { rnlive = lnlive = 1; TC.remote_name = (void *)&RN; TC.local_name = (void *)&LNM; } return 1;
}
void H(void)
{
	gboolean r; int s0; _Bool d; setup(); __CPROVER_assume(INV && N.reconnect_interval >= 0 && N.reconnect_interval <= 1000000 && (STATE == PEND || STATE == NOTC)); nconn = 0; s0 = STATE; dispatched = d ? 1 : 0;
	if (!d) { r = connect_network(&N); __CPROVER_assert(nconn && INV, "VP at most one attempt is pending"); __CPROVER_assert(r == (STATE != PEND && STATE != NOTC), "VP tells whether it worked"); __CPROVER_assert(STATE != NOTC || s0 == NOTC, "VP an attempt that was pending stays pending if this fails"); }
	else { __CPROVER_assume(s0 == PEND); r = delayed_connect_server(&N); __CPROVER_assert(nconn && (r != 0) == (STATE == PEND), "VP tries again as long as it fails"); rt = r != 0; __CPROVER_assert(INV, "VP at most one attempt is pending"); }
	VREACH("connect_network");
}
#endif
#ifdef P_FINISH
int nset, nre, setok; static void reconnect(struct irc_network *server);
#define network_set_iochannel vp_set_ioc
gboolean vp_set_ioc(struct irc_network *s, GIOChannel *ioc);
#define g_io_channel_unix_get_sock_error(c) "e"
#include "libirc/connection.c"
gboolean vp_set_ioc(struct irc_network *s, GIOChannel *ioc) { __CPROVER_assert(s == &N && ioc == &IOC && !nset && !nre && STATE == NETWORK_CONNECTION_STATE_CONNECTED && !slive && !tlive, "VP logs in over the connection"); nset = 1; slive = tlive = 1; N.external_state = &ST; N.connection.transport = &T; STATE = LOGIN; return 1; }
static void reconnect(struct irc_network *s) { __CPROVER_assert(s == &N && !nre && !nset && STATE == CING, "VP tries the next server"); nre = 1; }
guint vp_timeout(guint ms, GSourceFunc f, gpointer d) { __CPROVER_assert(ms > 0 && ms <= 10000 && f == (GSourceFunc)ping_server && d == &N && nset && !pt, "VP watches whether the server is silent"); pt = 1; return pid; }
void H(void)
{
	GIOCondition c; gboolean r; _Bool w; setup(); nset = nre = 0; { time_t t; N.connection.last_line_recvd = t; } { time_t t; Gnow = t; } __CPROVER_assume(INV && NC.type == TCP && STATE == CING); __CPROVER_assume(c & (G_IO_OUT | G_IO_ERR | G_IO_HUP)); if (!w) { c = G_IO_OUT; ct = 0; TC.connect_id = 0; }
	r = server_finish_connect(&IOC, c, &N); __CPROVER_assert(!r, "VP the attempt ends"); if (nset) ct = 0;
	__CPROVER_assert(nset == ((c & G_IO_OUT) && !(c & G_IO_ERR)) && nre == !nset && nreason == nre, "VP connected, or the next server is tried");
	if (nset) __CPROVER_assert(STATE == LOGIN && pt && TC.ping_id == pid && TC.connect_id == 0 && N.connection.last_line_recvd == Gnow && INV, "VP connected");
	VREACH("server_finish_connect");
}
#endif
#ifdef P_PING
int nping, nre; static void reconnect(struct irc_network *server);
gboolean vp_args(struct irc_network *s, const char *a, const char *b, const char *c, const char *d, const char *e, const char *f) { __CPROVER_assert(s == &N && streq(a, "PING") && b != NULL && c == NULL && !nping && !nre, "VP asks once whether the server is there"); nping = 1; return nondet_int() ? 1 : 0; }
#include "libirc/connection.c"
static void reconnect(struct irc_network *s) { __CPROVER_assert(s == &N && !nre && pt, "VP a lost connection"); nre = 1; pt = 0; }
void H(void)
{
	gboolean r; time_t t; int d; setup(); nping = nre = 0; __CPROVER_assume(INV && pt && d >= 0 && d < 1000000 && t >= 0 && t < (time_t)1 << 40); N.connection.last_line_recvd = t; Gnow = t + d;
	r = ping_server(&N);
	__CPROVER_assert(nre == (d > MAX_SILENT_TIME) && nping == (d > MIN_SILENT_TIME && !nre) && MIN_SILENT_TIME < MAX_SILENT_TIME, "VP a silent server is asked, then given up");
	__CPROVER_assert((r != 0) == (pt != 0), "VP goes on as long as there is a connection");
	VREACH("ping_server");
}
#endif
#ifdef P_LOGIN
static struct irc_login_details LD; static char NK[4], US[4], MO[4], UN[4], RE[4], PW[4], HO[4]; static struct linestack_context *LS; int seq, nfree, nset;
static struct irc_login_details *details(struct irc_network *s) { __CPROVER_assert(s == &N && seq == 0, "VP as configured"); return &LD; }
const char *get_my_hostname(void) { return HO; }
struct irc_network_state *network_state_init(const char *n, const char *u, const char *h) { __CPROVER_assert(seq == 0 && n == NK && u == US && h == HO && N.external_state == NULL, "VP a fresh state"); seq = 1; return &ST; }
void network_state_set_log_fn(struct irc_network_state *s, void (*fn)(enum log_level, void *, const char *), void *d) { __CPROVER_assert(s == &ST && d == &N, "VP logged"); }
static void on_set(struct irc_network *s) { __CPROVER_assert(s == &N && N.external_state == &ST && seq == 1 && !nset, "VP told of the state before anything is sent"); nset = 1; _Bool l; N.linestack = l ? (void *)&LS : NULL; }
void free_login_details(struct irc_login_details *d) { __CPROVER_assert(d == &LD && !nfree, "VP released once"); nfree = 1; }
gboolean vp_args(struct irc_network *s, const char *a, const char *b, const char *c, const char *d, const char *e, const char *f)
{
	__CPROVER_assert(s == &N && N.external_state == &ST && !nfree && STATE == LOGIN && nset == (CB.state_set != NULL), "VP logs in with the state there");
	if (seq == 1 && LD.password != NULL) { __CPROVER_assert(streq(a, "PASS") && b == PW && c == NULL, "VP the password first"); seq = 2; }
	else if (seq <= 2) { __CPROVER_assert(streq(a, "NICK") && b == NK && c == NULL, "VP then the nick"); seq = 3; }
	else { __CPROVER_assert(seq == 3 && streq(a, "USER") && b == US && c == MO && d == UN && e == RE && f == NULL, "VP then the user"); seq = 4; }
	return nondet_int() ? 1 : 0;
}
#include "libirc/connection.c"
void H(void)
{
	_Bool p, c; setup(); STATE = NETWORK_CONNECTION_STATE_CONNECTED; N.external_state = NULL; N.linestack = NULL; CB.get_login_details = details; CB.state_set = c ? on_set : NULL; LD.nick = NK; LD.username = US; LD.mode = MO; LD.unused = UN; LD.realname = RE; LD.password = p ? PW : NULL;
	__CPROVER_havoc_object(NK); __CPROVER_havoc_object(US); __CPROVER_havoc_object(MO); __CPROVER_havoc_object(UN); __CPROVER_havoc_object(RE); NK[3] = US[3] = MO[3] = UN[3] = RE[3] = 0; __CPROVER_assume(NK[0] && US[0] && MO[0] && UN[0] && RE[0]); seq = nfree = nset = 0;
	server_send_login(&N);
	__CPROVER_assert(seq == 4 && nfree == 1 && STATE == LOGIN && N.external_state == &ST && nset == (c ? 1 : 0), "VP logged in once");
	VREACH("server_send_login");
}
#endif
#ifdef P_SEND
/* of memcpy: copies one line */
#undef memcpy
#define memcpy(d, s, n) do { __CPROVER_assert((n) == sizeof(struct irc_line), "VP a line"); *(struct irc_line *)(d) = *(const struct irc_line *)(s); } while (0)
static struct irc_line L; static char O[3], HM[3], *GA[2]; static struct irc_client C; int nproc, nsent, Gproc, Gsent;
gboolean vp_args(struct irc_network *s, const char *a, const char *b, const char *c, const char *d, const char *e, const char *f) { return 0; }
static gboolean proc(struct irc_network *n, const struct irc_line *l) { __CPROVER_assert(n == &N && !nproc && !nsent && l->origin == (L.origin ? O : HM) && l->args == GA && l->argc == L.argc && l->has_endcolon == L.has_endcolon, "VP seen by the filters first, with its origin"); nproc = 1; return Gproc; }
static gboolean out(const struct irc_line *l) { __CPROVER_assert(!nsent && (!nproc || Gproc) && l->origin == NULL && l->args == GA && l->argc == L.argc && l->has_endcolon == L.has_endcolon, "VP sent once, as it is, with no origin"); nsent = 1; return Gsent; }
gboolean transport_send_line(struct irc_transport *t, const struct irc_line *l, GError **e) { __CPROVER_assert(t == &T && NC.type != NETWORK_VIRTUAL, "VP to the server"); return out(l); }
static gboolean vout(struct irc_network *n, struct irc_client *c, const struct irc_line *l) { __CPROVER_assert(n == &N && c == &C && NC.type == NETWORK_VIRTUAL, "VP to the virtual network, with the client it is from"); return out(l); }
#include "libirc/connection.c"
void H(void)
{
	_Bool o, p, q; int n; gboolean r; struct irc_line W; setup(); __CPROVER_assume(INV); N.connection.data.virtual.ops = &OPS; OPS.to_server = vout; CB.process_to_server = proc; ST.me.hostmask = q ? HM : NULL;
	L.origin = o ? O : NULL; L.args = GA; L.argc = n; { int e; L.has_endcolon = e; } W = L; nproc = nsent = 0; Gproc = p ? 1 : 0; { _Bool s; Gsent = s ? 1 : 0; }
	r = network_send_line(&N, &C, &L);
	__CPROVER_assert(nproc == (o || (slive && q)), "VP the filters see what has an origin");
	__CPROVER_assert(nsent == ((!nproc || Gproc) && (tlive || NC.type == NETWORK_VIRTUAL)), "VP sent unless it is filtered or there is no connection");
	__CPROVER_assert(r == (nsent ? Gsent : nproc && !Gproc), "VP tells whether it was sent");
	__CPROVER_assert(L.origin == W.origin && L.args == W.args && L.argc == W.argc && L.has_endcolon == W.has_endcolon, "VP the line itself is left alone");
	VREACH("network_send_line");
}
#endif
#ifdef P_NEXT
#undef g_list_find
static GList HD, FO, NX; int nfind; _Bool e, f, h, x, y;
gboolean vp_args(struct irc_network *s, const char *a, const char *b, const char *c, const char *d, const char *e, const char *f) { return 0; }
/* of g_list_find: the cell that holds the value, or nothing */
GList *vp_find(GList *l, gconstpointer d) { __CPROVER_assert(l == NC.type_settings.tcp.servers && d == TC.current_server && !nfind, "VP looks for the current server"); nfind = 1; if (!f) return NULL; return h ? &HD : &FO; }
#define g_list_find vp_find
#include "libirc/connection.c"
void H(void)
{
	struct tcp_server_config *w; setup(); __CPROVER_assume(NC.type == TCP || x); nfind = 0; NC.type_settings.tcp.servers = e ? &HD : NULL; HD.data = &CS1; FO.data = TC.current_server; if (f && h) TC.current_server = &CS1; __CPROVER_assume(!f || e); __CPROVER_assume(NC.type != NETWORK_VIRTUAL);
	NX.data = &CS2; HD.next = y ? &NX : NULL; FO.next = y ? &NX : NULL; w = !e ? NULL : f && y ? &CS2 : &CS1;
	if (x) { struct tcp_server_config *o = TC.current_server; irc_network_select_next_server(&N); __CPROVER_assert(TC.current_server == (NC.type == TCP ? w : o), "VP the next server, or the first after the last"); }
	else __CPROVER_assert(network_get_next_tcp_server(&N) == w, "VP the next server, or the first after the last");
	VREACH("network_get_next_tcp_server");
}
#endif
#ifdef P_SETIO
int nenc, nflags, ncb, nlogin, nerr; _Bool encok, flok; static const struct irc_transport_callbacks *cbs;
gboolean vp_args(struct irc_network *s, const char *a, const char *b, const char *c, const char *d, const char *e, const char *f) { return 0; }
#undef g_error_free
static void vp_err(GError *e) { __CPROVER_assert(e == &ERR && nerr == 1, "VP an error is released once"); nerr = 0; }
#define g_error_free vp_err
#undef g_io_channel_set_encoding
#undef g_io_channel_set_flags
#define g_io_channel_set_encoding vp_enc
#define g_io_channel_set_flags vp_flags
#define g_io_channel_set_close_on_unref(c, x) ((void)0)
GIOStatus vp_enc(GIOChannel *c, const char *e, GError **err) { __CPROVER_assert(c == &IOC && e == NULL && *err == NULL, "VP bytes as they are"); nenc = 1; if (encok) return G_IO_STATUS_NORMAL; if (nondet_int()) { nerr = 1; *err = &ERR; } return G_IO_STATUS_ERROR; }
GIOStatus vp_flags(GIOChannel *c, GIOFlags f, GError **err) { __CPROVER_assert(c == &IOC && f == G_IO_FLAG_NONBLOCK && *err == NULL, "VP never waits"); nflags = 1; if (flok) return G_IO_STATUS_NORMAL; if (nondet_int()) { nerr = 1; *err = &ERR; } return G_IO_STATUS_ERROR; }
struct irc_transport *irc_transport_new_iochannel(GIOChannel *c) { __CPROVER_assert(c == &IOC && !tlive && nenc && nflags && encok && flok, "VP one transport for the connection"); tlive = 1; return &T; }
void irc_transport_set_callbacks(struct irc_transport *t, const struct irc_transport_callbacks *c, void *d) { __CPROVER_assert(t == &T && tlive && d == &N && !nlogin, "VP served before anything is sent"); cbs = c; ncb = 1; }
static void server_send_login(struct irc_network *s);
#include "libirc/connection.c"
static gboolean Gr; int nrecv; static struct irc_line L;
static gboolean recv_cb(struct irc_network *n, const struct irc_line *l) { __CPROVER_assert(n == &N && l == &L, "VP this line"); nrecv++; return Gr; }
static void server_send_login(struct irc_network *s) { __CPROVER_assert(s == &N && ncb && !nlogin && N.connection.transport == &T, "VP logs in once, when served"); nlogin = 1; }
void H(void)
{
	gboolean r; _Bool a, b; setup(); STATE = NETWORK_CONNECTION_STATE_CONNECTED; __CPROVER_assume(NC.type != NETWORK_VIRTUAL); N.connection.transport = NULL; tlive = 0; nenc = nflags = ncb = nlogin = nerr = nrecv = 0; encok = a ? 1 : 0; flok = b ? 1 : 0; cbs = NULL;
	r = network_set_iochannel(&N, &IOC);
	__CPROVER_assert((r != 0) == (encok && flok) && nlogin == (r != 0) && nerr == 0 && N.connection.transport == (r ? &T : NULL), "VP logged in if the connection is usable");
	if (r) { { int x; Gr = x; } T.userdata = &N; CB.process_from_server = recv_cb; __CPROVER_assert(cbs == &network_callbacks && cbs->recv == on_transport_recv && cbs->hangup == on_transport_hup && cbs->error == on_transport_error, "VP what arrives is processed, a hangup and an error end it"); __CPROVER_assert(on_transport_recv(&T, &L) == Gr && nrecv == 1, "VP every line is processed"); }
	VREACH("network_set_iochannel");
}
#endif
#ifdef P_TCP
/* the addresses, of any number: the one looked at is AI, with left more after it */
static struct addrinfo AI; static char HO[3], PO[3], BA[3], BB[3]; int left, total, gai, aifree, nsock, nch, refs, watching, finished, wrapped, Gwrap, refs2, bound, vp_errno, progress, nre, connected, gpaired;
gboolean vp_args(struct irc_network *s, const char *a, const char *b, const char *c, const char *d, const char *e, const char *f) { return 0; }
static struct tcp_server_config *network_get_next_tcp_server(struct irc_network *n);
static gboolean server_finish_connect(GIOChannel *ioc, GIOCondition cond, void *data);
static gboolean bindsock(struct irc_network *s, int sock, struct addrinfo *res, const char *address, const char *service);
static void reconnect(struct irc_network *server);
int *__errno_location(void) { return &vp_errno; }
int vp_gai(const char *h, const char *p, const struct addrinfo *hi, struct addrinfo **r) { __CPROVER_assert(h == HO && p == PO && gai == 0 && hi->ai_socktype == SOCK_STREAM && hi->ai_family == PF_UNSPEC, "VP looks up the current server"); gai = 1; if (nondet_int()) return EAI_NONAME; *r = total > 0 ? &AI : NULL; aifree = total > 0; return 0; }
void vp_fai(struct addrinfo *a) { if (a == NULL) return; __CPROVER_assert(a == &AI && aifree == 1, "VP the addresses are released once"); aifree = 2; }
int vp_socket(int a, int b, int c) { __CPROVER_assert(a == AI.ai_family && b == AI.ai_socktype && c == AI.ai_protocol && !nsock && !nch, "VP one socket at a time"); if (nondet_int()) { vp_errno = nondet_int(); return -1; } nsock = 1; bound = 0; return 7; }
static gboolean bindsock(struct irc_network *s, int sock, struct addrinfo *res, const char *address, const char *service) { __CPROVER_assert(s == &N && sock == 7 && nsock == 1 && res == &AI && address == (CS1.bind_address ? CS1.bind_address : NC.type_settings.tcp.default_bind_address) && address != NULL && service == NULL && !bound, "VP bound to the address configured"); bound = 1; return nondet_int() ? 1 : 0; }
#undef g_io_channel_unix_new
#undef g_io_channel_unref
#undef g_io_add_watch
#undef g_io_channel_set_flags
#undef g_memdup
#undef g_malloc
GIOChannel *vp_new(int s) { __CPROVER_assert(s == 7 && nsock == 1 && !nch, "VP one channel for the socket"); nch = 1; refs = 1; return &IOC; }
void vp_unref(GIOChannel *c) { if (c == &IOC2) { __CPROVER_assert(refs2 > 0, "VP released once"); refs2--; } else { __CPROVER_assert(c == &IOC && refs > 0, "VP released once"); refs--; if (refs == 0) nch = nsock = 0; } }
int vp_connect(int s, const struct sockaddr *a, socklen_t l) { __CPROVER_assert(s == 7 && nsock && nch && a == AI.ai_addr && l == AI.ai_addrlen && !connected && bound == (CS1.bind_address || NC.type_settings.tcp.default_bind_address), "VP connects to this address"); int r; if (r == 0) { connected = 1; return 0; } vp_errno = r; if (r == EINPROGRESS) { connected = 2; } return -1; }
int vp_getsockname(int s, struct sockaddr *a, socklen_t *l) { __CPROVER_assert(s == 7 && nsock && (void *)a == (void *)&LNM && *l <= sizeof(LNM), "VP the local name"); return 0; }
gpointer vp_memdup(gconstpointer p, guint n) { __CPROVER_assert(p == AI.ai_addr && n == AI.ai_addrlen && !rnlive && connected, "VP the remote name"); rnlive = 1; return &RN; }
gpointer vp_malloc(gsize n) { __CPROVER_assert(n <= sizeof(LNM) && n >= sizeof(struct sockaddr_storage) && !lnlive, "VP the local name"); lnlive = 1; return &LNM; }
GIOChannel *ssl_wrap_iochannel(GIOChannel *c, SSLType t, const char *h, gpointer cr) { __CPROVER_assert(c == &IOC && t == SSL_TYPE_CLIENT && h == HO && cr == N.ssl_credentials && CS1.ssl && !wrapped && connected, "VP wrapped once, if so configured"); wrapped = 1; if (!Gwrap) return NULL; refs++; refs2 = 1; return &IOC2; }
guint vp_watch(GIOChannel *c, GIOCondition cond, GIOFunc f, gpointer d);
#define g_io_channel_unix_new vp_new
#define g_io_channel_unref vp_unref
#define g_io_add_watch vp_watch
#define g_io_channel_set_flags(c, f, e) (G_IO_STATUS_NORMAL)
#define g_io_channel_set_close_on_unref(c, x) ((void)0)
#define g_memdup vp_memdup
#define g_malloc vp_malloc
#define getaddrinfo vp_gai
#define freeaddrinfo vp_fai
#define socket vp_socket
#define connect vp_connect
#define getsockname vp_getsockname
#define gai_strerror(e) "e"
#undef VISIT
#define VISIT do { VREACH("loop body"); left--; struct addrinfo vp_a; AI = vp_a; AI.ai_next = left > 0 ? &AI : NULL; } while (0)
#include "libirc/connection.c"
static struct tcp_server_config *network_get_next_tcp_server(struct irc_network *n) { _Bool e; __CPROVER_assert(n == &N, "VP the next server"); return e ? &CS1 : NULL; }
guint vp_watch(GIOChannel *c, GIOCondition cond, GIOFunc f, gpointer d) { __CPROVER_assert(c == (wrapped ? &IOC2 : &IOC) && (cond & (G_IO_OUT|G_IO_ERR|G_IO_HUP)) == (G_IO_OUT|G_IO_ERR|G_IO_HUP) && f == server_finish_connect && d == &N && connected == 2 && !watching && !finished && STATE == CING, "VP waits until it is connected"); watching = 1; ct = 1; if (wrapped) refs2++; else refs++; return cid; }
static gboolean server_finish_connect(GIOChannel *c, GIOCondition cond, void *d) { __CPROVER_assert(c == (wrapped ? &IOC2 : &IOC) && cond == G_IO_OUT && d == &N && connected == 1 && !watching && !finished && STATE == CING && lnlive && rnlive, "VP is connected"); finished = 1; STATE = LOGIN; if (wrapped) refs2++; else refs++; return 0; }
static void reconnect(struct irc_network *s) { __CPROVER_assert(s == &N && STATE == NOTC && !nre, "VP tries again once, unless an attempt is pending"); nre = 1; STATE = PEND; }
void H(void)
{
	gboolean r; int s0; _Bool b1, b2, cs, w, ss; setup(); __CPROVER_assume(NC.type == TCP && INV && (STATE == NOTC || STATE == PEND)); s0 = STATE; TC.current_server = cs ? &CS1 : NULL; CS1.host = HO; CS1.port = PO; CS1.bind_address = b1 ? BA : NULL; CS1.ssl = ss ? 1 : 0; NC.type_settings.tcp.default_bind_address = b2 ? BB : NULL; Gwrap = w ? 1 : 0;
	{ int t; total = left = t; __CPROVER_assume(t >= 0 && t <= 1000000000); } { struct addrinfo a; AI = a; AI.ai_next = left > 1 ? &AI : NULL; }
	gai = aifree = nsock = nch = refs = refs2 = watching = finished = wrapped = bound = nre = connected = 0;
	r = connect_current_tcp_server(&N);
	__CPROVER_assert(aifree != 1, "VP the addresses are released"); if (r) rt = 0; /* which delayed_connect_server ends */
	if (!r) __CPROVER_assert(!nsock && !nch && !lnlive && !rnlive && !watching && !finished && !ct && (nre ? s0 == NOTC : STATE == s0), "VP a failed attempt leaves nothing");
	else __CPROVER_assert(nsock && nch && lnlive && rnlive && watching + finished == 1 && (watching ? STATE == CING && TC.connect_id == cid && ct && INV : STATE == LOGIN) && TC.current_server == &CS1 && wrapped == CS1.ssl && (wrapped ? refs2 == 1 : refs == 1), "VP one attempt, connected or to be waited for");
	VREACH("connect_current_tcp_server");
}
#endif
