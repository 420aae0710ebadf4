/* C22: which commands of a client go to the server (src/client.c
 * process_from_client, src/network.c network_forward_line) under contract. */
#include "vp.h"
#include "internals.h"
#include "irc.h"
unsigned char vp_byte;
#define MAXN 30
static struct irc_line L; static char *GA[MAXN + 2], A0[12], A1[2], A2[12], ORIG[2], MASK[2], DM[2], NAME[2], ADM[2], MSG[2], WHY[2]; size_t NA;
static struct irc_client C; static struct irc_network N; static struct irc_network_state CS, XS; static struct network_config NC; static struct global G; static struct ctrlproxy_config CFG;
int Gadm, Gcache, Gcr; int nquit, npong, n461, n462, noff, nadm, nrec, nfpriv, nfpub, ncache, nfree, admoff; const struct irc_line *Lseen; gboolean Gfr;
static int lo(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int ci(const char *a, const char *b, size_t n) { size_t i; for (i = 0; i < n && i < 12; i++) { if (lo(a[i]) != lo(b[i])) return 1; if (!a[i]) return 0; } return 0; }
int base_strcmp(const char *a, const char *b) { __CPROVER_assert(a != NULL && b != NULL, "VP compares two strings"); if (a == ADM || b == ADM) { __CPROVER_assert(NA > 1 && (a == A1 || b == A1), "VP the target of the message"); return !Gadm; } __CPROVER_assert(a == A0, "VP compares the command"); return ci(a, b, 12); }
int base_strncmp(const char *a, const char *b, size_t n) { __CPROVER_assert(NA > 2 && a == A2 && n < 12, "VP looks at the text"); return ci(a, b, n); }
#undef g_free
#undef g_strdup
void vp_free(void *p) { if (p == DM) { __CPROVER_assert(!nfree, "VP origin freed once"); nfree = 1; } else __CPROVER_assert(p == NULL || p == MSG, "VP frees only its own strings"); }
char *vp_strdup(const char *s) { if (s == MASK) return DM; return MSG; }
char *vp_printf(const char *f, ...) { return MSG; }
#define g_free vp_free
#define g_strdup vp_strdup
#define g_strdup_printf vp_printf
void log_client_line(const struct irc_client *n, const struct irc_line *l, gboolean from) { }
static int isl(const struct irc_line *l) { return l->args == GA && l->argc == NA && l->origin == DM && !nfree; }

#ifdef P_GATE
void client_disconnect(struct irc_client *c, const char *r) { __CPROVER_assert(c == &C, "VP this client"); nquit++; }
gboolean vp_args(struct irc_client *c, const char *a, const char *b, const char *d, const char *e) { __CPROVER_assert(c == &C && a[0] == 'P' && a[1] == 'O' && a[2] == 'N' && a[3] == 'G' && !a[4] && b == NAME && d == GA[1] && e == NULL, "VP answers with what was asked"); npong++; return nondet_int() ? 1 : 0; }
gboolean vp_resp(struct irc_client *c, int r, const char *a) { __CPROVER_assert(c == &C, "VP this client"); if (r == 461) n461++; else if (r == 462) n462++; else { __CPROVER_assert(r == 401 || r == 403 || r == 442 || r == 421, "VP an error reply"); noff++; } return nondet_int() ? 1 : 0; }
#define VPA(c, a, b, d, e, ...) vp_args(c, a, b, d, e)
#define client_send_args(...) VPA(__VA_ARGS__, NULL, NULL, NULL, NULL)
#define VPR(c, r, a, ...) vp_resp(c, r, a)
#define client_send_response(...) VPR(__VA_ARGS__, NULL)
gboolean admin_process_command(struct irc_client *c, struct irc_line *l, int o) { __CPROVER_assert(c == &C && isl(l), "VP this line"); nadm++; admoff = o; return 1; }
gboolean ctcp_client_request_record(struct irc_client *c, struct irc_line *l) { __CPROVER_assert(c == &C && isl(l) && NA > 2, "VP this line"); nrec++; return nondet_int() ? 1 : 0; }
gboolean network_forward_line(struct irc_network *n, struct irc_client *c, const struct irc_line *l, gboolean p) { __CPROVER_assert(n == &N && c == &C && isl(l) && N.external_state != NULL, "VP this line, to a network that is there"); if (p) nfpriv++; else nfpub++; return nondet_int() ? 1 : 0; }
gboolean client_try_cache(struct irc_client *c, struct irc_network_state *s, struct irc_line *l, struct cache_settings *cs) { __CPROVER_assert(c == &C && s == N.external_state && isl(l) && cs == &CFG.cache, "VP this line and state"); ncache++; return Gcache; }
time_t vp_time(time_t *t) { return 77; }
#define time vp_time
#include "src/client.c"
static int is(const char *w) { return !ci(A0, w, 12); }
void H(void)
{
	size_t n; _Bool x, ad, ga, gc, dc, why; int st; gboolean r; int ctcp, total;
	__CPROVER_havoc_object(GA); __CPROVER_havoc_object(A0); __CPROVER_havoc_object(A2); A0[11] = 0; A2[11] = 0; NA = n; __CPROVER_assume(NA >= 1 && NA < MAXN); GA[0] = A0; if (NA > 1) GA[1] = A1; if (NA > 2) GA[2] = A2; GA[NA] = NULL;
	L.args = GA; L.argc = NA; L.origin = ORIG; C.network = &N; C.state = &CS; CS.me.hostmask = MASK; N.name = NAME; N.private_data = &NC; N.global = &G; G.config = &CFG;
	__CPROVER_assume(st >= NETWORK_CONNECTION_STATE_NOT_CONNECTED && st <= NETWORK_CONNECTION_STATE_MOTD_RECVD);
	/* the state of a network exists exactly while it is logged in or logging in */
	N.connection.state = st; N.external_state = st >= NETWORK_CONNECTION_STATE_LOGIN_SENT ? &XS : NULL; CFG.admin_user = ad ? ADM : NULL; Gadm = ga ? 1 : 0; Gcache = gc ? 1 : 0; NC.disable_cache = dc ? -1 : 0; N.connection.data.tcp.last_disconnect_reason = why ? WHY : NULL;
	nquit = npong = n461 = n462 = noff = nadm = nrec = nfpriv = nfpub = ncache = nfree = 0; C.last_pong = 5;
	r = process_from_client(&C, &L);
	total = nquit + npong + n461 + n462 + noff + nadm + nfpriv + nfpub;
	__CPROVER_assert(nfree == 1 && L.origin == ORIG && L.args == GA, "VP the line is as it was, nothing leaks");
	__CPROVER_assert(!r == is("QUIT") && (C.last_pong == (is("PONG") && NA >= 2 ? 77 : 5)), "VP only QUIT ends the connection");
	ctcp = NA > 2 && A2[0] == 1;
	if (is("QUIT")) __CPROVER_assert(total == 1 && nquit == 1, "VP QUIT is between client and proxy");
	else if (is("PING")) __CPROVER_assert(total == 1 && npong == 1, "VP PING is answered by the proxy");
	else if (is("PONG")) __CPROVER_assert(NA < 2 ? total == 1 && n461 == 1 : total == 0, "VP PONG stays with the proxy");
	else if (is("USER") || is("PASS")) __CPROVER_assert(total == 1 && n462 == 1, "VP no second registration");
	else if (is("CTRLPROXY")) __CPROVER_assert(total == 1 && nadm == 1 && admoff == 1, "VP an administration command");
	else if (ad && is("PRIVMSG") && NA > 1 && Gadm) __CPROVER_assert(total == 1 && nadm == 1 && admoff == 2, "VP an administration command");
	else if (N.external_state && is("PRIVMSG") && ctcp && ci(A2, "\001ACTION", 7)) __CPROVER_assert(total == 1 && nfpriv == 1 && nrec == 1, "VP a CTCP request goes out and its answer is expected");
	else if (N.external_state && is("NOTICE") && ctcp) __CPROVER_assert(total == 1 && nfpriv == 1 && nrec == 0, "VP a CTCP answer goes out");
	else if (is("")) __CPROVER_assert(total == 0, "VP an empty command does nothing");
	else if (st == NETWORK_CONNECTION_STATE_MOTD_RECVD) __CPROVER_assert(ncache == (dc ? 0 : 1) && (ncache && Gcache ? total == 0 : total == 1 && nfpub == 1), "VP answered from memory or sent to the server, once");
	else if (st == NETWORK_CONNECTION_STATE_NOT_CONNECTED) __CPROVER_assert(total == 1 && noff == 1, "VP the client is told that there is no server");
	else __CPROVER_assert(total == 0, "VP nothing is sent while connecting");
	if (!(N.external_state && is("PRIVMSG"))) __CPROVER_assert(nrec == 0, "VP only requests are recorded");
	VREACH("process_from_client");
}
#endif
#ifdef P_FORWARD
static struct irc_line D; static char DORIG[2]; static struct query_stack Q; static GList CL; int ndup, nsend, nall, nq, ndfree, npre, Gq; static char *DA[MAXN + 2];
struct irc_line *linedup(const struct irc_line *l) { __CPROVER_assert(l == &L && !ndup, "VP one copy"); ndup = 1; D.args = DA; D.argc = NA; D.origin = NULL; return &D; }
void free_line(struct irc_line *l) { __CPROVER_assert(l == &D && nall == 1 && !ndfree, "VP the copy is released after use"); ndfree = 1; }
gboolean line_prefix_time(struct irc_line *l, time_t t) { __CPROVER_assert(l == &D && !nall, "VP the copy gets the time"); npre++; return 1; }
void clients_send(GList *c, const struct irc_line *l, const struct irc_client *x) { __CPROVER_assert(c == &CL && l == &D && D.origin == DM && x == &C && !nall, "VP the other clients see it as coming from us"); nall = 1; }
gboolean query_stack_record(struct query_stack *q, void *u, const struct irc_line *l) { __CPROVER_assert(q == &Q && u == &C && l == &L && !nq && !nsend, "VP the question is recorded before it is sent"); nq = 1; return Gq; }
gboolean network_send_line(struct irc_network *n, struct irc_client *c, const struct irc_line *l) { __CPROVER_assert(n == &N && l == &L && !nsend, "VP sent to the server, once"); nsend = 1; return Gfr; }
#define client_log(...) ((void)0)
#define network_log(...) ((void)0)
time_t vp_time(time_t *t) { return 77; }
#define time vp_time
#include "src/network.c"
void H(void)
{
	size_t n; _Bool p, q, f; gboolean r; int rt, pub;
	__CPROVER_havoc_object(GA); __CPROVER_havoc_object(A0); A0[11] = 0; NA = n; __CPROVER_assume(NA >= 1 && NA < MAXN); GA[0] = A0;
	L.args = GA; L.argc = NA; L.origin = ORIG; N.external_state = &XS; XS.me.hostmask = MASK; N.clients = &CL; N.queries = &Q; N.global = &G; G.config = &CFG; CFG.report_time = rt; Gq = q ? 1 : 0; Gfr = f ? 1 : 0; ndup = nsend = nall = nq = ndfree = npre = nfree = 0;
	r = network_forward_line(&N, &C, &L, p);
	pub = !p && (!ci(A0, "PRIVMSG", 12) || !ci(A0, "NOTICE", 12));
	__CPROVER_assert(nsend == 1 && nq == 1 && !r == !Gfr, "VP sent to the server, once");
	__CPROVER_assert(nall == pub && ndup == pub && ndfree == pub && npre == (pub && rt == REPORT_TIME_ALWAYS), "VP other clients see messages that are not private");
	VREACH("network_forward_line");
}
#endif
