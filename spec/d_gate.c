/* C22: what happens to the commands of a client, against an independent table. */
#include "vp.h"
#include "src/client.c"
#include "admin.h"
#include <stdarg.h>
static struct irc_client C, C2; static struct irc_network N; static struct irc_network_state CS, XS; static struct network_config NC; static struct global G; static struct ctrlproxy_config CFG; static struct query_stack *QS;
enum { QUIT = 1, PONGED, NUM, ADMIN, PRIVATE, PUBLIC }; static int ev[16], arg[16], ne, nrec, ncache, cacheans; static const struct irc_line *orig;
static struct irc_client *who;
static void event(int e, int a) { VASSERT(ne < 16, "few effects"); ev[ne] = e; arg[ne++] = a; }
static void same(const struct irc_line *l) { int i; VASSERT(l->argc == orig->argc, "the client's line"); for (i = 0; i < l->argc; i++) VASSERT(!strcmp(l->args[i], orig->args[i]), "the client's line"); VASSERT(l->origin && !strcmp(l->origin, "me!u@h"), "coming from the client"); }
void __wrap_client_disconnect(struct irc_client *c, const char *r) { event(QUIT, 0); }
gboolean __wrap_client_send_args(struct irc_client *c, ...) { va_list ap; const char *a, *b, *x; va_start(ap, c); a = va_arg(ap, char *); VASSERT(c == &C && !strcmp(a, "PONG"), "PONG to the client"); b = va_arg(ap, char *); VASSERT(!strcmp(b, "net"), "PONG names the network"); x = va_arg(ap, char *); if (orig->argc > 1) { VASSERT(x && !strcmp(x, orig->args[1]), "PONG answers what was asked"); VASSERT(!va_arg(ap, char *), "end"); } else VASSERT(!x, "end"); va_end(ap); event(PONGED, 0); return TRUE; }
gboolean __wrap_client_send_response(struct irc_client *c, int r, ...) { VASSERT(c == &C, "to the client"); event(NUM, r); return TRUE; }
gboolean __wrap_admin_process_command(struct irc_client *c, struct irc_line *l, int o) { VASSERT(c == &C, "client"); same(l); event(ADMIN, o); return TRUE; }
gboolean __wrap_ctcp_client_request_record(struct irc_client *c, struct irc_line *l) { VASSERT(c == &C && l->argc > 2, "client"); same(l); nrec++; return TRUE; }
static int realfwd; gboolean __real_network_forward_line(struct irc_network *n, struct irc_client *c, const struct irc_line *l, gboolean p);
gboolean __wrap_network_forward_line(struct irc_network *n, struct irc_client *c, const struct irc_line *l, gboolean p) { VASSERT(n == &N && c == &C, "network"); same(l); event(p ? PRIVATE : PUBLIC, 0); return __real_network_forward_line(n, c, l, p); }
gboolean __wrap_client_try_cache(struct irc_client *c, struct irc_network_state *s, struct irc_line *l, struct cache_settings *cs) { VASSERT(c == &C && s == &XS && cs == &CFG.cache, "cache"); same(l); ncache++; return cacheans; }
static int nsent, nbc, nrecq; static char *bc; gboolean __wrap_network_send_line(struct irc_network *n, struct irc_client *c, const struct irc_line *l) { int i; VASSERT(n == &N, "network"); VASSERT(l->argc == orig->argc, "line"); for (i = 0; i < l->argc; i++) VASSERT(!strcmp(l->args[i], orig->args[i]), "text sent to the server unchanged"); nsent++; return TRUE; }
gboolean __wrap_query_stack_record(struct query_stack *s, void *u, const struct irc_line *l) { VASSERT(s == QS && s != NULL && u == &C && !nsent, "question recorded before it is sent"); nrecq++; return TRUE; }
void __wrap_clients_send(GList *cl, const struct irc_line *l, const struct irc_client *x) { VASSERT(x == &C && cl == N.clients, "to the other clients"); nbc++; bc = irc_line_string(l); }
void __wrap_log_client_line(const struct irc_client *n, const struct irc_line *l, gboolean from) { }
static int eqi(const char *a, const char *b) { return !g_ascii_strcasecmp(a, b); }
VP_HARNESS(gate)
{
	static const char *cmd[] = { "QUIT", "PING", "PONG", "USER", "PASS", "CTRLPROXY", "PRIVMSG", "NOTICE", "", "JOIN", "PART", "MODE", "pRivmsg", "quit", "PRIVMSGX", "NICK" }, *tx[] = { "hello", "\001VERSION\001", "\001ACTION waves\001", "\001", "", "\001action x\001", "\001PING 1\001" }, *tg[] = { "#chan", "ctrlproxy", "someone", "CTRLPROXY" };
	struct irc_line *l = g_new0(struct irc_line, 1), *cp; int n = 1 + ND_BELOW(4), i, st = ND_BELOW(6), adm = ND_BOOL(), want = 0, warg = 0, wrec = 0, pub; gboolean r; time_t t0;
	memset(&C, 0, sizeof C); memset(&N, 0, sizeof N); memset(&NC, 0, sizeof NC); memset(&CFG, 0, sizeof CFG); memset(&XS, 0, sizeof XS); memset(&CS, 0, sizeof CS);
	N.name = "net"; N.global = &G; G.config = &CFG; N.private_data = &NC; C.network = &N; C.state = &CS; CS.me.hostmask = "me!u@h"; XS.me.hostmask = "me!u@real"; N.connection.state = st; CFG.admin_user = adm ? "ctrlproxy" : NULL; CFG.report_time = ND_BOOL() ? REPORT_TIME_ALWAYS : REPORT_TIME_NEVER;
	if (st >= NETWORK_CONNECTION_STATE_LOGIN_SENT) { N.external_state = &XS; N.queries = QS = (struct query_stack *)&G; } else QS = NULL;
	N.connection.data.tcp.last_disconnect_reason = ND_BOOL() ? "broken" : NULL; NC.disable_cache = -(int)ND_BOOL(); cacheans = ND_BOOL(); N.clients = g_list_append(NULL, &C);
	l->args = g_new0(char *, n + 1); l->argc = n; l->args[0] = g_strdup(cmd[ND_BELOW(16)]); for (i = 1; i < n; i++) l->args[i] = g_strdup(i == 1 ? tg[ND_BELOW(4)] : tx[ND_BELOW(7)]); l->origin = ND_BOOL() ? g_strdup("fake!a@b") : NULL;
	cp = linedup(l); orig = cp; ne = nrec = ncache = nsent = nbc = nrecq = 0; bc = NULL; t0 = C.last_pong = 5;
	{ char *s = irc_line_string(l); vp_note("state %d admin %d line \"%s\" (%d arguments)\n", st, adm, s, n); g_free(s); }
	r = process_from_client(&C, l);
	{ const char *c = cp->args[0]; int ctcp = n > 2 && cp->args[2][0] == 1, act = ctcp && eqi("\001ACTION", ({ char b[8]; strncpy(b, cp->args[2], 7); b[7] = 0; g_strdup(b); }));
	if (eqi(c, "QUIT")) want = QUIT; else if (eqi(c, "PING")) want = PONGED; else if (eqi(c, "PONG")) { if (n < 2) { want = NUM; warg = 461; } } else if (eqi(c, "USER") || eqi(c, "PASS")) { want = NUM; warg = 462; }
	else if (eqi(c, "CTRLPROXY")) { want = ADMIN; warg = 1; } else if (adm && eqi(c, "PRIVMSG") && n > 1 && eqi(cp->args[1], "ctrlproxy")) { want = ADMIN; warg = 2; }
	else if (N.external_state && eqi(c, "PRIVMSG") && ctcp && !act) { want = PRIVATE; wrec = 1; } else if (N.external_state && eqi(c, "NOTICE") && ctcp) want = PRIVATE; else if (!*c) ;
	else if (st == NETWORK_CONNECTION_STATE_MOTD_RECVD) { VASSERT(ncache == !NC.disable_cache, "asked the cache"); if (!ncache || !cacheans) want = PUBLIC; } else if (st == NETWORK_CONNECTION_STATE_NOT_CONNECTED) { want = NUM; warg = eqi(c, "JOIN") ? 403 : eqi(c, "PART") ? 442 : eqi(c, "PRIVMSG") || eqi(c, "NOTICE") ? 401 : 421; }
	VASSERT(!r == !!eqi(c, "QUIT"), "only QUIT ends the connection");
	VASSERT(ne == (want != 0), "one effect, if any"); if (want) VASSERT(ev[0] == want && arg[0] == warg, "the effect the command should have");
	VASSERT(nrec == wrec, "CTCP requests are remembered, nothing else is"); VASSERT(C.last_pong == 5 || (eqi(c, "PONG") && n > 1), "last PONG");
	if (eqi(c, "PONG") && n > 1) VASSERT(C.last_pong > 5, "PONG noted");
	pub = want == PUBLIC && (eqi(c, "PRIVMSG") || eqi(c, "NOTICE"));
	VASSERT(nsent == (want == PRIVATE || want == PUBLIC) && nrecq == nsent, "sent to the server exactly when it should be");
	VASSERT(nbc == pub, "other clients see public messages only"); if (bc) { VASSERT(g_str_has_prefix(bc, ":me!u@real "), "as coming from us"); g_free(bc); } }
	VASSERT(l->argc == n && (!l->origin || !strcmp(l->origin, "fake!a@b")), "the line is left alone"); for (i = 0; i < n; i++) VASSERT(!strcmp(l->args[i], cp->args[i]), "the line is left alone");
	free_line(l); free_line(cp); g_list_free(N.clients);
}
