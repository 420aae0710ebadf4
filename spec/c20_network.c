/* C20: what is done with lines from and to a server (src/network.c) under contract. */
#include "vp.h"
#include "internals.h"
#include "irc.h"
#include "ssl.h"
unsigned char vp_byte;
#define LOGIN NETWORK_CONNECTION_STATE_LOGIN_SENT
#define MOTD NETWORK_CONNECTION_STATE_MOTD_RECVD
#define STATE (N.connection.state)
static struct irc_network N; static struct network_config NC; static struct irc_network_state ST; static struct irc_network_info INFO, RINFO; static struct global G; static struct ctrlproxy_config GC;
static struct irc_line L, DL, PL, CL; static char *GA[4], A0[9], A1[3], A2[9], ORIG[2], NICK[3], TMP[3], CSN[2], HOST[2], SRV[2]; static size_t NA; static struct linestack_context *LS; static struct query_stack *QS; static GList CLI;
#undef g_free
#undef g_strdup_printf
#undef g_list_length
static int lo(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int ci(const char *a, const char *b, int n) { int i; for (i = 0; i < n && i < 9; i++) { if (lo(a[i]) != lo(b[i])) return 1; if (!a[i]) return 0; } return 0; }
int base_strcmp(const char *a, const char *b) { __CPROVER_assert(a == A0, "VP compares the command"); return ci(a, b, 9); }
int base_strncmp(const char *a, const char *b, size_t n) { __CPROVER_assert(a == A2, "VP compares the text"); return ci(a, b, n); }
#define network_log(...) ((void)0)
#define log_network_line(...) ((void)0)
gboolean vp_args(struct irc_network *s, const char *a, const char *b, const char *c, const char *d);
#define VPA(s, a, b, c, d, ...) vp_args(s, a, b, c, d)
#define network_send_args(...) VPA(__VA_ARGS__, NULL, NULL, NULL, NULL)
time_t Gnow; time_t vp_time(time_t *t) { return Gnow; }
#define time vp_time
int fil, hnd, npong, nnick, nset, ms, ncmd, nsentc, owed, left, total, ndup, nred, nfilt, nsend, npfx, nreq, nresp, nins, Gred, Gfilt, resp, NCMD, dlive, tlive, clive, plive, Gins;
#ifdef P_FROM
#define MAXC 20
static struct channel_config CC; static GList CELL; static char *AC[MAXC + 1]; static char CN[2], CK[2];
#undef atoi
int vp_atoi(const char *s) { __CPROVER_assert(s == A0, "VP the reply code"); return resp; }
#define atoi vp_atoi
struct irc_line *linedup(const struct irc_line *l) { __CPROVER_assert(l == &L && !dlive, "VP a copy of this line"); dlive = 1; return &DL; }
void free_line(struct irc_line *l) { if (l == NULL) return; if (l == &CL) { __CPROVER_assert(clive, "VP released once"); clive = 0; } else { __CPROVER_assert(l == &DL && dlive, "VP released once"); dlive = 0; } }
gboolean run_log_filter(struct irc_network *n, const struct irc_line *l, enum data_direction d) { __CPROVER_assert(n == &N && l == &DL && dlive && d == FROM_SERVER && !fil && !hnd, "VP logged first"); fil = 1; return 1; }
gboolean state_handle_data(struct irc_network_state *s, const struct irc_line *l) { __CPROVER_assert(s == &ST && l == &L && fil && !hnd, "VP the state follows every line, before anyone sees it"); hnd = 1; return 1; }
#define DONE(k) __CPROVER_assert(hnd && ms == (k) && STATE == MOTD, "VP in order after the MOTD"); ms = (k) + 1
gboolean vp_args(struct irc_network *s, const char *a, const char *b, const char *c, const char *d)
{
	__CPROVER_assert(s == &N && hnd, "VP answered after the state");
	if ((a[0] == 'P' && a[1] == 'O' && a[2] == 'N' && a[3] == 'G' && !a[4])) { __CPROVER_assert(!npong && b == GA[1] && c == NULL && ms == 0, "VP the same token back"); npong = 1; }
	else if ((a[0] == 'N' && a[1] == 'I' && a[2] == 'C' && a[3] == 'K' && !a[4])) { __CPROVER_assert(!nnick && b == TMP && tlive && c == NULL && ms == 0, "VP another nick"); nnick = 1; }
	else if ((a[0] == 'U' && a[1] == 'S' && a[2] == 'E' && a[3] == 'R' && a[4] == 'H' && a[5] == 'O' && a[6] == 'S' && a[7] == 'T' && !a[8])) { DONE(5); __CPROVER_assert(b == NICK && c == NULL, "VP asks for the host"); }
	else { __CPROVER_assert((a[0] == 'J' && a[1] == 'O' && a[2] == 'I' && a[3] == 'N' && !a[4]) && ms == 6 && owed == 1 && b == CN && c == CC.key && d == NULL && AC[ncmd] == NULL, "VP rejoins the channel, after the commands"); owed = 0; }
	return nondet_int() ? 1 : 0;
}
char *vp_fmt(const char *f, const char *n) { __CPROVER_assert(f[0] == '%' && f[1] == 's' && f[2] == '_' && !f[3] && n == (NA > 2 ? A2 : NICK) && !tlive, "VP the nick and an underscore"); tlive = 1; return TMP; }
#define g_strdup_printf vp_fmt
void vp_free(void *p) { if (p == (void *)TMP) { __CPROVER_assert(tlive, "VP released once"); tlive = 0; } }
#define g_free vp_free
void vp_setnick(struct network_nick *n, const char *nick) { __CPROVER_assert(n == &ST.me && nick == TMP && tlive && nnick && !nset, "VP known by that nick"); nset = 1; }
#define network_nick_set_nick vp_setnick
const char *get_charset(const struct irc_network_info *i) { __CPROVER_assert(i == &INFO, "VP the network's character set"); return CSN; }
gboolean network_set_charset(struct irc_network *n, const char *c) { DONE(0); __CPROVER_assert(n == &N && c == CSN, "VP the character set"); return nondet_int() ? 1 : 0; }
static gboolean network_update_isupport(struct irc_network_info *a, struct irc_network_info *b);
gboolean linestack_insert_state(struct linestack_context *c, const struct irc_network_state *s) { DONE(2); __CPROVER_assert(c == (void *)&LS && s == &ST, "VP the state is stored"); return nondet_int() ? 1 : 0; }
void nickserv_identify_me(struct irc_network *n, char *nick) { DONE(3); __CPROVER_assert(n == &N && nick == NICK, "VP identifies"); }
gboolean clients_send_state(GList *c, struct irc_network_state *s) { DONE(4); __CPROVER_assert(c == N.clients && s == &ST, "VP clients get the state"); return 1; }
struct irc_line *irc_parse_line(const char *d) { int n; __CPROVER_assert(ms == 6 && !clive && AC[ncmd] != NULL && d == AC[ncmd], "VP the next command"); ncmd++; if (nondet_int()) return NULL; clive = 1; CL.argc = n; __CPROVER_assume(n >= 0); return &CL; }
gboolean network_send_line(struct irc_network *n, struct irc_client *c, const struct irc_line *l) { __CPROVER_assert(n == &N && c == NULL && l == &CL && clive == 1 && CL.argc > 0, "VP the command is sent once"); clive = 2; return 1; }
gboolean redirect_response(struct query_stack *q, struct irc_network *n, const struct irc_line *l) { __CPROVER_assert(q == (void *)&QS && n == &N && l == &L && resp && hnd && STATE == MOTD && !nred && (ms == 0 || ms == 6) && !owed, "VP replies go to who asked"); nred = 1; return Gred; }
gboolean run_server_filter(struct irc_network *n, const struct irc_line *l, enum data_direction d) { __CPROVER_assert(n == &N && l == &L && d == FROM_SERVER && !resp && hnd && STATE == MOTD && !nfilt && N.clients, "VP the filters"); nfilt = 1; return Gfilt; }
void clients_send(GList *c, const struct irc_line *l, const struct irc_client *e) { __CPROVER_assert(c == &CLI && e == NULL && nfilt && Gfilt && !nsend && (l == &L || (l == &DL && dlive && npfx)), "VP all clients, once"); nsend = 1; }
gboolean line_prefix_time(struct irc_line *l, time_t t) { __CPROVER_assert(l == &DL && dlive && !npfx && t == Gnow + GC.report_time_offset, "VP with the time"); npfx = 1; return 1; }
gboolean ctcp_process_request(struct irc_network *n, const struct irc_line *l) { __CPROVER_assert(n == &N && l == &L && !N.clients && hnd && !nreq, "VP a request is answered when no client can"); nreq = 1; return 1; }
gboolean ctcp_network_redirect_response(struct irc_network *n, const struct irc_line *l) { __CPROVER_assert(n == &N && l == &L && !N.clients && hnd && !nresp, "VP a CTCP reply"); nresp = 1; return 1; }
guint g_list_length(GList *l) { __CPROVER_assert(l == NULL, "VP the clients"); return 0; }
gboolean linestack_insert_line(struct linestack_context *c, const struct irc_line *l, enum data_direction d, const struct irc_network_state *s) { __CPROVER_assert(c == (void *)&LS && l == &L && d == FROM_SERVER && s == &ST && hnd && STATE == MOTD && !nins, "VP the line is stored once"); nins = 1; return Gins; }
struct linestack_context *new_linestack(struct irc_network *n, const char *d);
#define VISIT do { VREACH("loop body"); __CPROVER_assert(!owed, "VP the channel before was joined"); left--; struct channel_config vp_c; CC = vp_c; CC.name = CN; { _Bool k; CC.key = k ? CK : NULL; } CELL.data = &CC; CELL.next = left > 0 ? &CELL : NULL; owed = CC.autojoin != 0; } while (0)
#include "src/network.c"
static gboolean network_update_isupport(struct irc_network_info *a, struct irc_network_info *b) { DONE(1); __CPROVER_assert(a == &INFO && b == &RINFO, "VP what the server supports is known"); return 1; }
#define IS(w) (!ci(A0, w, 9))
void H(void)
{
	gboolean r; int s0; size_t n; _Bool vx, c, d, e, f, g, h; int b1, x; time_t t0, tn; x = vx ? 1 : 0; __CPROVER_havoc_object(A0); A0[8] = 0; __CPROVER_havoc_object(A2); A2[8] = 0; NA = n; __CPROVER_assume(NA <= 3); GA[0] = NA > 0 ? A0 : NULL; GA[1] = NA > 1 ? A1 : NULL; GA[2] = NA > 2 ? A2 : NULL; GA[3] = NULL; L.args = GA; L.argc = NA; L.origin = ORIG;
	{ int s; s0 = s; __CPROVER_assume(s == LOGIN || s == MOTD || s == NETWORK_CONNECTION_STATE_NOT_CONNECTED); } STATE = s0; N.private_data = &NC; N.info = &INFO; N.external_state = x ? &ST : NULL; ST.info = &RINFO; ST.me.nick = NICK; N.linestack = (void *)&LS; N.queries = (void *)&QS; N.clients = c ? &CLI : NULL; N.global = &G; G.config = &GC; { int o, p; GC.report_time = o; GC.report_time_offset = p; __CPROVER_assume(p >= -1000000 && p <= 1000000); } { guint le; N.linestack_errors = le; }
	__CPROVER_assume(tn >= 0 && tn < (time_t)1 << 40); Gnow = tn; N.connection.last_line_recvd = 0; { int k; resp = k; } __CPROVER_assume(!resp || (A0[0] >= '0' && A0[0] <= '9')); Gred = d ? 1 : 0; Gfilt = e ? 1 : 0; Gins = h ? 1 : 0;
	{ int k; NCMD = k; } __CPROVER_assume(NCMD >= 0 && NCMD <= MAXC); __CPROVER_havoc_object(AC); AC[NCMD] = NULL; NC.autocmd = f ? AC : NULL; if (!f) AC[0] = NULL;
	{ int t; total = left = t; } __CPROVER_assume(total >= 0 && total <= 1000000000); CELL.next = left > 1 ? &CELL : NULL; CELL.data = &CC; NC.channels = left > 0 ? &CELL : NULL; NC.implicit = g ? -1 : 0;
	fil = hnd = npong = nnick = nset = ms = ncmd = owed = ndup = nred = nfilt = nsend = npfx = nreq = nresp = nins = dlive = tlive = clive = 0;
	r = process_from_server(&N, &L);
	__CPROVER_assert(!dlive && !tlive && !clive && L.args == GA && L.argc == NA && L.origin == ORIG, "VP nothing is kept of the line");
	if (NA == 0) { __CPROVER_assert(r && !fil && !hnd && !nins && STATE == s0, "VP an empty line is dropped"); VREACH("empty"); return; }
	__CPROVER_assert(N.connection.last_line_recvd == Gnow && (r != 0) == (x ? 1 : 0) && fil == x && hnd == x, "VP every line of a connected server counts");
	if (!x) { __CPROVER_assert(!npong && !nnick && !ms && !nins && !nred && !nfilt && STATE == s0, "VP dropped"); VREACH("disconnected"); return; }
	__CPROVER_assert(npong == IS("PING"), "VP a PING is answered");
	if (IS("PING") || IS("PONG")) { __CPROVER_assert(!nnick && !ms && !nins && !nred && !nfilt && !nreq && !nresp && STATE == s0, "VP that is all"); return; }
	__CPROVER_assert(nnick == (resp == ERR_NICKNAMEINUSE && s0 == LOGIN && !IS("ERROR")) && nset == nnick, "VP another nick is tried");
	if ((resp == RPL_ENDOFMOTD || resp == ERR_NOMOTD) && s0 == LOGIN && !IS("ERROR")) { VREACH("login"); __CPROVER_assert(ms == 6 && STATE == MOTD && NC.implicit == 0 && AC[ncmd] == NULL && !owed && (NC.channels == NULL || left == 0), "VP everything is done after the MOTD"); }
	else __CPROVER_assert(ms == 0 && STATE == s0 && ncmd == 0, "VP only then, and once");
	if (STATE != MOTD) { __CPROVER_assert(!nins && !nred && !nfilt && !nreq && !nresp, "VP clients see nothing of the login"); return; }
	__CPROVER_assert(nred == (resp != 0), "VP replies go to who asked");
	__CPROVER_assert(nfilt == (!resp && N.clients != NULL) && nsend == (nfilt && Gfilt), "VP other lines go to all clients, unless filtered");
	if (nsend) __CPROVER_assert(npfx == (A0[0] == 'P' && A0[1] == 'R' && IS("PRIVMSG") && A0[2] == 'I' && A0[3] == 'V' && A0[4] == 'M' && A0[5] == 'S' && A0[6] == 'G' && GC.report_time == REPORT_TIME_ALWAYS), "VP with the time if so configured");
	b1 = !resp && !c && NA > 2 && A2[0] == '\001';
	__CPROVER_assert(nreq == (b1 && IS("PRIVMSG") && ci(A2, "\001ACTION", 7)) && nresp == (b1 && IS("NOTICE")), "VP CTCP is handled when there are no clients");
	__CPROVER_assert(nins == !(nred && Gred), "VP the line is stored, unless it was for one client");
	VREACH("process_from_server");
}
#endif
#ifdef P_TO
gboolean vp_args(struct irc_network *s, const char *a, const char *b, const char *c, const char *d) { return 0; }
struct irc_line *linedup(const struct irc_line *l) { __CPROVER_assert(l == &L && !dlive, "VP a copy of this line"); dlive = 1; return &DL; }
void free_line(struct irc_line *l) { __CPROVER_assert(l == &DL && dlive, "VP released once"); dlive = 0; }
gboolean run_server_filter(struct irc_network *n, const struct irc_line *l, enum data_direction d) { __CPROVER_assert(n == &N && l == &L && d == TO_SERVER && !nfilt, "VP the filters"); nfilt = 1; return Gfilt; }
gboolean run_log_filter(struct irc_network *n, const struct irc_line *l, enum data_direction d) { __CPROVER_assert(n == &N && l == &DL && dlive && d == TO_SERVER && !fil && nfilt && Gfilt, "VP logged if not filtered"); fil = 1; return 1; }
gboolean linestack_insert_line(struct linestack_context *c, const struct irc_line *l, enum data_direction d, const struct irc_network_state *s) { __CPROVER_assert(c == (void *)&LS && l == &L && d == TO_SERVER && s == &ST && nfilt && Gfilt && !nins, "VP stored once"); nins = 1; return nondet_int() ? 1 : 0; }
#include "src/network.c"
void H(void)
{
	gboolean r; _Bool f; N.external_state = &ST; N.linestack = (void *)&LS; L.args = GA; Gfilt = f ? 1 : 0; nfilt = fil = nins = dlive = 0;
	r = process_to_server(&N, &L);
	__CPROVER_assert(nfilt == 1 && fil == Gfilt && nins == Gfilt && r == Gfilt && !dlive, "VP what the filters let through is logged, stored and sent");
	VREACH("process_to_server");
}
#endif
#ifdef P_END
gboolean vp_args(struct irc_network *s, const char *a, const char *b, const char *c, const char *d) { return 0; }
int nsplit, ncfg, qlive, llive;
const char *get_my_hostname(void) { return HOST; }
gboolean clients_send_netsplit(GList *c, const char *m, const char *s) { __CPROVER_assert(c == N.clients && m == HOST && s == SRV && !nsplit && STATE == MOTD, "VP clients see everyone leave, once"); nsplit = 1; return 1; }
void network_update_config(struct irc_network_state *s, struct network_config *nc, struct ctrlproxy_config *gc) { __CPROVER_assert(s == &ST && nc == &NC && gc == &GC && !ncfg && STATE == MOTD, "VP the channels are kept for the next time"); ncfg = 1; }
void query_stack_free(struct query_stack *q) { __CPROVER_assert(q == (void *)&QS && qlive, "VP nobody waits for a reply any more"); qlive = 0; }
void free_linestack_context(struct linestack_context *l) { __CPROVER_assert(l == (void *)&LS && llive, "VP the linestack is closed once"); llive = 0; }
struct linestack_context *new_linestack(struct irc_network *n, const char *d) { __CPROVER_assert(n == &N && d == GC.linestack_dir && !llive, "VP a new linestack"); if (nondet_int()) return NULL; llive = 1; return (void *)&LS; }
struct query_stack *new_query_stack(void (*a)(void *), void (*b)(void *)) { __CPROVER_assert(!qlive, "VP a new query stack"); qlive = 1; return (void *)&QS; }
#include "src/network.c"
void H(void)
{
	_Bool a, b, c; int s; STATE = s; N.private_data = &NC; N.global = &G; G.config = &GC; GC.linestack_dir = HOST; N.external_state = &ST; ST.info = &INFO; INFO.server = SRV; N.clients = a ? &CLI : NULL; nsplit = ncfg = 0;
	if (c) { qlive = a ? 1 : 0; llive = b ? 1 : 0; N.queries = qlive ? (void *)&QS : NULL; N.linestack = llive ? (void *)&LS : NULL;
		handle_network_disconnect(&N);
		__CPROVER_assert(nsplit == (STATE == MOTD) && ncfg == nsplit && !qlive && !llive && N.queries == NULL && N.linestack == NULL && STATE == s, "VP the end is told, and nothing is left"); VREACH("handle_network_disconnect"); }
	else { qlive = llive = 0; N.queries = NULL; N.linestack = NULL; handle_network_state_set(&N); __CPROVER_assert(qlive && N.queries == (void *)&QS && N.linestack == (llive ? (void *)&LS : NULL), "VP starts with nobody waiting"); VREACH("handle_network_state_set"); }
}
#endif
#ifdef P_DETAILS
gboolean vp_args(struct irc_network *s, const char *a, const char *b, const char *c, const char *d) { return 0; }
static char SA[20], DA[20], UN[2], RL[2]; static struct irc_login_details LD; static struct tcp_server_config CS; int nnew;
#undef g_strdup
#undef g_new0
#undef g_get_user_name
#undef g_get_real_name
char *vp_strdup(const char *s) { if (s == NULL) return NULL; if (s == UN) return DA + 15; if (s == RL) return DA + 16; if (__CPROVER_same_object(s, DA)) return (char *)s; if (__CPROVER_same_object(s, SA)) return DA + (s - SA); __CPROVER_assert(s[0] == 'a' && !s[1], "VP a placeholder"); return DA + 17; }
void vp_free(void *p) { }
#define g_free vp_free
#define g_strdup vp_strdup
#define g_get_user_name() UN
#define g_get_real_name() RL
void *vp_new0(size_t n) { __CPROVER_assert(n == sizeof LD && !nnew, "VP one"); nnew = 1; static const struct irc_login_details Z; LD = Z; return &LD; }
#define g_new0(t, n) ((t *)vp_new0(sizeof(t) * (n)))
#include "src/network.c"
#define OPT(lv, k) do { _Bool vp_h; lv = vp_h ? SA + (k) : NULL; } while (0)
#define D(p) ((p) ? DA + ((p) - SA) : NULL)
void H(void)
{
	struct irc_login_details *r; int t; __CPROVER_assume(t >= 0 && t <= 3); N.private_data = &NC; NC.type = t; NC.global = &GC; N.connection.data.tcp.current_server = &CS; nnew = 0; { _Bool e; RL[0] = e ? 'x' : 0; } RL[1] = 0;
	OPT(NC.username, 0); OPT(NC.fullname, 1); OPT(NC.nick, 2); OPT(NC.password, 3); OPT(GC.default_username, 4); OPT(GC.default_realname, 5); OPT(GC.default_nick, 6); OPT(CS.password, 7); __CPROVER_havoc_object(DA); DA[16] = RL[0]; DA[19] = 0; __CPROVER_assume(DA[17] == 0);
	r = get_login_details(&N);
	__CPROVER_assert(r == &LD && r->username == (NC.username ? D(NC.username) : GC.default_username ? D(GC.default_username) : DA + 15), "VP the user name of the network, or the default");
	__CPROVER_assert(r->nick == (NC.nick ? D(NC.nick) : GC.default_nick ? D(GC.default_nick) : DA + 15), "VP the nick of the network, or the default");
	__CPROVER_assert(r->realname == (NC.fullname ? D(NC.fullname) : GC.default_realname ? D(GC.default_realname) : RL[0] ? DA + 16 : r->username), "VP the real name of the network, or the default");
	__CPROVER_assert(r->password == (NC.type == NETWORK_TCP && CS.password ? D(CS.password) : D(NC.password)), "VP the password of the server, or the network");
	__CPROVER_assert(r->mode == DA + 17 && r->unused == DA + 17, "VP never empty");
	VREACH("get_login_details");
}
#endif
