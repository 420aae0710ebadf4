/* C10 and C11: bytes in, bytes out, over real sockets and the real main loop. */
#include "vp.h"
#include "internals.h"
#include "irc.h"
#include "listener.h"
#include <netinet/in.h>
#include <sys/socket.h>
#include <poll.h>
#include <fcntl.h>
#include <gssapi/gssapi.h>
static struct global G; static struct ctrlproxy_config CFG; static struct listener_config LC; static struct irc_listener *LI; static struct irc_network NL, NF; static struct network_config NC; static struct allow_rule R[3]; static struct sockaddr_in SA4; static struct sockaddr_in6 SA6;
static int ninit, nfind, fport; static struct irc_network *inet; static char fname[300]; static int found, connects, nconn;
struct irc_client *__wrap_client_init_iochannel(struct irc_network *n, GIOChannel *c, const char *d) { ninit++; inet = n; return NULL; }
struct irc_network *__wrap_find_network_by_hostname(struct global *g, const char *h, guint16 p, gboolean cr, struct irc_login_details *d) { nfind++; fport = p; g_strlcpy(fname, h, sizeof fname); return found ? &NF : NULL; }
gboolean __wrap_connect_network(struct irc_network *n) { nconn++; VASSERT(n == &NF, "network"); return connects; }
OM_uint32 __wrap_gss_import_name(OM_uint32 *m, gss_buffer_t b, gss_OID o, gss_name_t *n) { *m = 0; return GSS_S_FAILURE; }
OM_uint32 __wrap_gss_acquire_cred(OM_uint32 *m, gss_name_t a, OM_uint32 t, gss_OID_set s, gss_cred_usage_t u, gss_cred_id_t *c, gss_OID_set *x, OM_uint32 *y) { *m = 0; return GSS_S_FAILURE; }
static int fd; static unsigned char out[4096]; static int no, closed;
static void pump(void) { int i, r; for (i = 0; i < 40 && g_main_context_iteration(NULL, FALSE); i++); while (!closed && (r = recv(fd, out + no, sizeof out - no, MSG_DONTWAIT)) >= 0) { if (r == 0) { closed = 1; break; } no += r; } if (!closed && errno != EAGAIN) closed = 1; }
static void feed(const void *p, size_t n) { ssize_t r = send(fd, p, n, MSG_NOSIGNAL); (void)r; pump(); }
static void start(void)
{
	int sv[2], i; static const char *pw[] = { NULL, "secret", "listen", "" };
	memset(&G, 0, sizeof G); memset(&CFG, 0, sizeof CFG); memset(&LC, 0, sizeof LC); memset(&NF, 0, sizeof NF); memset(&NL, 0, sizeof NL); memset(&NC, 0, sizeof NC); memset(R, 0, sizeof R);
	G.config = &CFG; CFG.password = (char *)pw[ND_BELOW(4)]; LC.password = (char *)pw[ND_BELOW(4)]; NF.private_data = &NC; NF.name = "net"; NL.name = "own"; { static struct irc_network_callbacks cb; NF.callbacks = NL.callbacks = &cb; }
	for (i = 0; i < 3; i++) if (ND_BELOW(3) == 0) { static const char *us[] = { "joe", "ann", NULL, "" }; R[i].username = (char *)us[ND_BELOW(4)]; R[i].password = (char *)pw[ND_BELOW(4)]; LC.allow_rules = g_list_append(LC.allow_rules, &R[i]); }
	LI = listener_init(&G, &LC); LI->log_fn = NULL; if (ND_BELOW(6) == 0) LI->config = NULL; if (ND_BOOL()) LI->network = &NL;
	found = ND_BELOW(4) != 0; connects = ND_BOOL(); NF.connection.state = ND_BOOL() ? NETWORK_CONNECTION_STATE_MOTD_RECVD : NETWORK_CONNECTION_STATE_NOT_CONNECTED; ninit = nfind = nconn = no = closed = 0; inet = NULL;
	VASSUME(socketpair(AF_UNIX, SOCK_STREAM, 0, sv) == 0); fd = sv[0]; listener_new_pending_client(LI, g_io_channel_unix_new(sv[1])); pump();
}
static void stop(void) { close(fd); fd = -1; { int i; for (i = 0; i < 40 && g_main_context_iteration(NULL, FALSE); i++); } VASSERT(!LI->pending || 1, "x"); g_list_free(LI->pending); g_list_free(LC.allow_rules); g_list_free(G.listeners); g_free(LI); }
static int admits(const char *u, const char *p) { GList *gl; if (LI->config) { for (gl = LC.allow_rules; gl; gl = gl->next) { struct allow_rule *r = gl->data; if (u && r->username && r->password && !strcmp(u, r->username) && !strcmp(p, r->password)) return 1; } if (LC.password) return !strcmp(LC.password, p); } return CFG.password ? !strcmp(CFG.password, p) : 1; }
static int reply_is(const char *num) { char *s, *e; int ok; out[no] = 0; s = (char *)out; e = strstr(s, "\r\n"); if (!e || e[2]) return 0; if (!num) return !strcmp(s, "NOTICE AUTH :PASS OK\r\n"); if (*s != ':') return 0; s = strchr(s, ' '); ok = s && !strncmp(s + 1, num, 3) && s[4] == ' ' && s[5] == '*'; return ok; }
VP_HARNESS(login)
{
	static const char *cmd[] = { "PASS %s", "pass %s", "PASS :%s", "PASS", "NICK %s", "USER %s x x x", "PASSWORD %s", ":a PASS %s", "QUIT", "" }, *pw[] = { "secret", "listen", "x", "secret:net", ":net", "listen:a:b", "secretx" }; int steps = 1 + ND_BELOW(4), k, done = 0;
	start();
	for (k = 0; k < steps && !done; k++) {
		char line[100], pass[40], *net = NULL; int c = ND_BELOW(10), p = ND_BELOW(7), n, cut, hasarg = c != 3, ispass = c < 4 || c == 7, i, exp_net, nf = nfind; const char *eol = ND_BOOL() ? "\r\n" : "\n";
		strcpy(line, ""); sprintf(line, cmd[c], pw[p]); strcat(line, eol); if (c == 9) continue; strcpy(pass, pw[p]); if ((net = strchr(pass, ':'))) *net++ = 0; if (c < 2 && pw[p][0] == ':') { strcpy(pass, "net"); net = NULL; } if (c == 7 && pw[p][0] == ':') { strcpy(pass, "net"); net = NULL; }
		n = strlen(line); no = 0; vp_note("sends \"%.*s\"\n", n - (eol[0] == '\r' ? 2 : 1), line);
		while (n > 0) { cut = ND_BELOW(3) ? n : 1 + ND_BELOW(n); feed(line + strlen(line) - n, cut); n -= cut; if (n > 0) VASSERT(no == 0 && !closed && !ninit, "nothing happens before the line is complete"); }
		if (!ispass) { VASSERT(reply_is("451") && !closed && !ninit && nfind == nf, "only PASS does anything, and the client is told so"); continue; }
		if (!hasarg) { VASSERT(reply_is("461") && !closed && !ninit, "a PASS without password"); continue; }
		if (!admits(NULL, pass)) { VASSERT(reply_is("464") && !closed && !ninit && nfind == nf, "a wrong password"); continue; }
		done = 1; VASSERT(closed, "the connection is handed over, or closed");
		exp_net = !net || (found && (NF.connection.state == NETWORK_CONNECTION_STATE_MOTD_RECVD || connects));
		if (net) VASSERT(nfind == nf + 1 && !strcmp(fname, net), "the network named");
		if (exp_net) { VASSERT(reply_is(NULL), "told that the password is right"); VASSERT(ninit == 1 && inet == (net ? &NF : LI->network), "a client on the right network"); } else VASSERT(!ninit && reply_is("464"), "no such network");
	}
	if (!done) VASSERT(!ninit, "nobody gets in without PASS");
	stop();
}
static int be(const unsigned char *p) { return p[0] << 8 | p[1]; }
VP_HARNESS(socks)
{
	unsigned char m[600]; int n, i, want, cut; static const int lens[] = { 0, 1, 2, 3, 127, 128, 129, 255, 200 }; char u[300], p[300]; static const char *us[] = { "joe", "ann", "", "j" }, *ps[] = { "secret", "listen", "", "x" };
	start(); NC.type = ND_BOOL() ? NETWORK_TCP : NETWORK_VIRTUAL; { int f = ND_BELOW(3); SA4.sin_family = AF_INET; SA4.sin_port = htons(4660); SA4.sin_addr.s_addr = htonl(0x7f000102); SA6.sin6_family = AF_INET6; SA6.sin6_port = htons(513); for (i = 0; i < 16; i++) SA6.sin6_addr.s6_addr[i] = i + 200; NF.connection.data.tcp.local_name = f == 0 ? NULL : f == 1 ? (void *)&SA4 : (void *)&SA6; 
	/* greeting */
	m[0] = 5; n = lens[ND_BELOW(9)]; m[1] = n; want = 0xff; for (i = 0; i < n; i++) { m[2 + i] = n < 4 ? ND_BELOW(4) : (ND_BELOW(40) == 0 ? 2 : 3 + (ND() % 253)); if (m[2 + i] == 2) want = 2; }
	cut = ND_BELOW(10) == 0 ? 1 + ND_BELOW(n + 2) : n + 2; vp_note("offers %d methods (%d of %d bytes)\n", n, cut, n + 2); feed(m, 1); if (cut > 1) feed(m + 1, cut - 1);
	if (cut == 1) VASSERT(no == 0 && !closed, "waits for the offer");
	else if (cut < n + 2) { VASSERT(no == 0, "no answer to half an offer"); VASSERT(closed, "half an offer"); }
	else {
		VASSERT(no == 2 && out[0] == 5 && out[1] == want, "answers the offer"); VASSERT(closed == (want == 0xff), "refused if there was nothing to agree on");
		if (!closed) {
			int ul = ND_BELOW(4) ? -1 : lens[ND_BELOW(9)], pl = ND_BELOW(4) ? -1 : lens[ND_BELOW(9)], ver = ND_BELOW(12) == 0 ? ND() : 1, ok;
			strcpy(u, us[ND_BELOW(4)]); strcpy(p, ps[ND_BELOW(4)]); if (ul >= 0) { memset(u, 'u', ul); u[ul] = 0; } if (pl >= 0) { memset(p, 'p', pl); p[pl] = 0; } ul = strlen(u); pl = strlen(p);
			m[0] = ver; m[1] = ul; memcpy(m + 2, u, ul); m[2 + ul] = pl; memcpy(m + 3 + ul, p, pl); n = 3 + ul + pl; cut = ND_BELOW(10) == 0 ? 1 + ND_BELOW(n) : n; no = 0; ok = admits(u, p); vp_note("version %d name of %d and password of %d bytes (%d of %d bytes): %s\n", ver, ul, pl, cut, n, ok ? "right" : "wrong"); feed(m, cut);
			if (cut < 2) VASSERT(closed && no == 0, "incomplete");
			else if (ver != 1 && ver != 5) VASSERT(closed && no == 7 && out[0] == 5 && out[1] == 1, "wrong version");
			else if (cut < n) VASSERT(closed && no == 0 && !ninit, "incomplete");
			else { VASSERT(no == 2 && out[0] == 1 && !out[1] == ok, "hears whether it may come in"); VASSERT(closed == !ok, "only with the right name and password");
				if (ok) {
					static const int atyps[] = { 3, 3, 3, 3, 1, 4, 0, 9 }; int hl = lens[ND_BELOW(9)], at = atyps[ND_BELOW(8)], cm = ND_BELOW(6) ? 1 : ND_BELOW(5), v = ND_BELOW(12) ? 5 : 4, port = ND() << 8 | ND(), good; char host[300];
					memset(host, 'h', hl); host[hl] = 0; m[0] = v; m[1] = cm; m[2] = 0; m[3] = at; m[4] = hl; memcpy(m + 5, host, hl); m[5 + hl] = port >> 8; m[6 + hl] = port; n = 7 + hl; cut = ND_BELOW(10) == 0 ? 1 + ND_BELOW(n) : n; no = 0; vp_note("request version %d command %d address type %d of %d bytes, port %d (%d of %d bytes)\n", v, cm, at, hl, port, cut, n); feed(m, cut);
					good = found && (NF.connection.state == NETWORK_CONNECTION_STATE_MOTD_RECVD || connects) && (NC.type == NETWORK_VIRTUAL || f);
					VASSERT(closed, "handed over or closed");
					if (cut < 4) VASSERT(no == 0 && !ninit, "incomplete");
					else if (v != 5) VASSERT(no == 7 && out[1] == 1 && !ninit, "wrong version"); else if (cm != 1) VASSERT(no == 7 && out[1] == 7 && !ninit, "wrong command"); else if (at != 3) VASSERT(no == 7 && out[1] == 8 && !ninit, "wrong kind of address");
					else if (cut < n) VASSERT(no == 0 && !ninit, "incomplete");
					else { VASSERT(nfind == 1 && !strcmp(fname, host) && fport == port, "the host and port that were asked for");
						if (!good) VASSERT(no == 7 && out[1] == 3 && !ninit, "unreachable");
						else { VASSERT(ninit == 1 && inet == &NF && out[0] == 5 && out[1] == 0 && out[2] == 0, "success");
							if (NC.type == NETWORK_VIRTUAL) VASSERT(no == 6 + 10 && out[3] == 3 && out[4] == 9 && !memcmp(out + 5, "localhost", 9) && be(out + 14) == 1025, "our address");
							else if (f == 1) VASSERT(no == 10 && out[3] == 1 && out[4] == 127 && out[7] == 2 && be(out + 8) == 4660, "our address"); else VASSERT(no == 22 && out[3] == 4 && out[4] == 200 && out[19] == 215 && be(out + 20) == 513, "our address"); } }
					if (no == 7) VASSERT(out[0] == 5 && out[2] == 0 && out[3] == 3 && out[4] == 0, "form of an error reply");
				} }
		}
	} }
	if (ninit) VASSERT(admits(u, p), "nobody gets in without name and password");
	stop();
}
