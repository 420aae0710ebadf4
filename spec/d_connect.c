/* C20: a network and up to three servers on the loopback interface that come and go. */
#define _GNU_SOURCE
#include "vp.h"
#include "internals.h"
#include "irc.h"
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <dirent.h>
#include <ftw.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
enum { NOT = 0, PEND, UP, IN };
static struct { int lfd, port, up; struct tcp_server_config c; } S[3]; static int ns, afd, sync_, nconnect, nt; static time_t now; static struct { guint id, ms; GSourceFunc f; gpointer d; } TM[50]; static char out[20000], dir[64]; static int no; static struct irc_network *N; static int eof, base;
time_t __wrap_time(time_t *t) { if (t) *t = now; return now; }
guint __real_g_timeout_add(guint ms, GSourceFunc f, gpointer d);
guint __wrap_g_timeout_add(guint ms, GSourceFunc f, gpointer d) { VASSERT(nt < 50, "timers are removed"); TM[nt].id = __real_g_timeout_add(100000000, f, d); TM[nt].ms = ms; TM[nt].f = f; TM[nt].d = d; return TM[nt++].id; }
static void timers(void) { int i, j; for (i = j = 0; i < nt; i++) if (g_main_context_find_source_by_id(NULL, TM[i].id)) TM[j++] = TM[i]; nt = j; }
static int fire(guint ms) { int i; timers(); for (i = 0; i < nt; i++) if (TM[i].ms == ms) { guint id = TM[i].id; if (!TM[i].f(TM[i].d)) { timers(); if (g_main_context_find_source_by_id(NULL, id)) g_source_remove(id); } timers(); return 1; } return 0; }
int __real_connect(int s, const struct sockaddr *a, socklen_t l);
int __wrap_connect(int s, const struct sockaddr *a, socklen_t l) { int one = 1, r; setsockopt(s, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); r = __real_connect(s, a, l); nconnect++; sync_ = r < 0 && errno != EINPROGRESS; return r; }
static int rmf(const char *p, const struct stat *s, int t, struct FTW *f) { return remove(p); }
static int socks(void) { DIR *d = opendir("/proc/self/fd"); struct dirent *e; int k = 0; char p[300], l[100]; while ((e = readdir(d))) { int n; snprintf(p, sizeof p, "/proc/self/fd/%s", e->d_name); n = readlink(p, l, sizeof l - 1); if (n > 0) { l[n] = 0; k += !strncmp(l, "socket:", 7); } } closedir(d); return k; }
/* an address of this process alone, and ports that no connection gets by chance */
static unsigned addr, nport; static char addrs[20];
static void up(int i) { struct sockaddr_in a; int one = 1; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(addr); a.sin_port = htons(S[i].port); S[i].lfd = socket(AF_INET, SOCK_STREAM, 0); setsockopt(S[i].lfd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one); { int t = S[i].port ? 99 : 0; if (!S[i].port) { S[i].port = 2000 + (nport += 1) % 20000; a.sin_port = htons(S[i].port); } while (bind(S[i].lfd, (void *)&a, sizeof a) != 0) { VASSUME(++t < 100); S[i].port = 2000 + (nport += 1) % 20000; a.sin_port = htons(S[i].port); } } VASSUME(listen(S[i].lfd, 5) == 0); fcntl(S[i].lfd, F_SETFL, O_NONBLOCK); S[i].up = 1; }
static void down(int i) { close(S[i].lfd); S[i].lfd = -1; S[i].up = 0; }
static void rd(void) { int r; while (afd >= 0 && (r = recv(afd, out + no, sizeof out - 1 - no, MSG_DONTWAIT)) >= 0) { if (r == 0) { eof = 1; break; } no += r; } out[no] = 0; }
static void pump(void) { int i, k; for (k = 0; k < 8; k++) { for (i = 0; i < 60 && g_main_context_iteration(NULL, FALSE); i++); rd(); usleep(k < 6 ? 0 : 200); } rd(); }
static void norm(char *p) { char *q = p; for (; *p; p++) { *q++ = *p; if (p[0] == ' ' && p[1] == ':') p++; } *q = 0; }
static int nlen(const char *p) { int k = 0; for (; *p; p++, k++) if (p[0] == ' ' && p[1] == ':') p++; return k; }
static const char *nicks[] = { "joe", "ann", "x_" }, *chs[] = { "#a", "#b", "#c" };
VP_HARNESS(servers)
{
	static struct global G; static struct ctrlproxy_config CFG; struct network_config *nc; int i, k, st = NOT, cur = -1, steps = 3 + ND_BELOW(40), conn_i = -1; char nick[60], cfgnick[60]; time_t last = 0; int on[3] = { 0 }, aj[3] = { 0 }, inlist[3] = { 0 }; const char *key[3] = { 0 }, *ckey[3] = { 0 }; char *cmds[4] = { NULL }; int dirok = ND_BELOW(8) != 0;
	signal(SIGPIPE, SIG_IGN); { unsigned p = getpid(); addr = 0x7f000002u + (p & 0x3fffff) * 2; sprintf(addrs, "127.%u.%u.%u", addr >> 16 & 255, addr >> 8 & 255, addr & 255); } base = socks(); memset(&G, 0, sizeof G); memset(&CFG, 0, sizeof CFG); nt = 0; afd = -1; no = 0; now = 1000000; strcpy(dir, "/tmp/vp-ls-XXXXXX"); VASSUME(mkdtemp(dir)); G.config = &CFG; CFG.linestack_dir = dirok ? g_strdup(dir) : g_strdup("/proc/no/such"); nc = network_config_init(&CFG); nc->name = g_strdup("net"); nc->nick = g_strdup(nicks[ND_BELOW(3)]); strcpy(nick, nc->nick); strcpy(cfgnick, nick); nc->username = g_strdup("user"); nc->fullname = g_strdup("real name"); nc->password = ND_BOOL() ? g_strdup("npass") : NULL; nc->reconnect_interval = ND_BELOW(3); nc->type = NETWORK_TCP; nc->autoconnect = 0;
	ns = 1 + ND_BELOW(3); for (i = 0; i < ns; i++) { S[i].port = 0; up(i); memset(&S[i].c, 0, sizeof S[i].c); S[i].c.host = addrs; S[i].c.port = g_strdup_printf("%d", S[i].port); S[i].c.password = ND_BELOW(3) == 0 ? (char *)"spass" : NULL; nc->type_settings.tcp.servers = g_list_append(nc->type_settings.tcp.servers, &S[i].c); if (ND_BELOW(4) == 0) down(i); }
	for (i = 0; i < 3; i++) if (ND_BOOL()) { struct channel_config *cc = g_new0(struct channel_config, 1); cc->name = g_strdup(chs[i]); inlist[i] = 1; if (ND_BOOL()) { cc->key = g_strdup("k1"); ckey[i] = "k1"; } aj[i] = cc->autojoin = ND_BOOL(); nc->channels = g_list_append(nc->channels, cc); }
	{ static const char *cv[] = { "PRIVMSG q :hello there", "MODE me +i", ":o!u@h WHO x", ":none", ":nothing" }; int n = ND_BELOW(4); nc->autocmd = g_new0(char *, 5); for (i = 0; i < n; i++) nc->autocmd[i] = g_strdup(cv[ND_BELOW(5)]); for (i = k = 0; i < n; i++) { if (nc->autocmd[i][0] == 'P' || nc->autocmd[i][0] == 'M') cmds[k++] = nc->autocmd[i]; else if (nc->autocmd[i][0] == ':' && nc->autocmd[i][1] == 'o') cmds[k++] = "WHO x"; } }
	N = load_network(&G, nc);
	for (k = 0; k < steps; k++) {
		GString *want = g_string_new(NULL); char *joins[3]; int nj = 0, a = k == 0 ? 0 : ND_BELOW(12), tried = 0, was = st, ok, closed = 0; no = 0; out[0] = 0; nconnect = 0; eof = 0;
		switch (a) {
		case 0: if (st > PEND) break; if (cur < 0) cur = 0; ok = connect_network(N); tried = 1; (void)ok; vp_note("connect\n"); break;
		case 1: if (st != PEND) break; VASSERT(fire(1000 * nc->reconnect_interval), "there is a timer"); tried = 1; vp_note("timer\n"); break;
		case 2: i = ND_BELOW(ns); if (S[i].up) down(i); else up(i); vp_note("server %d %s\n", i, S[i].up ? "up" : "down"); break;
		case 3: if (st < UP) break; close(afd); afd = -1; closed = 1; vp_note("hangup\n"); break;
		case 4: ok = disconnect_network(N); VASSERT(ok == (st >= UP), "disconnected"); if (st >= UP) { g_string_append(want, "QUIT\r\n"); closed = 2; } else st = NOT; vp_note("disconnect\n"); break;
		case 5: if (st < UP) break; { int d = ND_BELOW(4) * 200; now += d; vp_note("silent %d\n", (int)(now - last)); VASSERT(fire(5000), "pings"); if (now - last > MAX_SILENT_TIME) { g_string_append(want, "QUIT\r\n"); closed = 3; } else if (now - last > MIN_SILENT_TIME) g_string_append(want, "PING ctrlproxy\r\n"); } break;
		case 6: irc_network_select_next_server(N); cur = (cur + 1) % ns; break;
		default: if (st < UP) break; { char *l; int c = ND_BELOW(3);
			switch (ND_BELOW(9)) {
			case 0: l = g_strdup_printf("PING :%s", c ? "tok en" : "t"); g_string_append_printf(want, c ? "PONG :tok en\r\n" : "PONG t\r\n"); break;
			case 1: l = g_strdup_printf(ND_BOOL() ? ":srv 433 * %s :in use" : ":srv 433 * %s", nick); if (st == UP) { strcat(nick, "_"); if (strlen(nick) > 40) nick[3] = 0; g_string_append_printf(want, "NICK %s\r\n", nick); } break;
			case 2: case 3: case 4: l = g_strdup_printf(ND_BOOL() ? ":srv 376 %s :End" : ":srv 422 %s :No", nick); if (st == UP) { st = IN; g_string_append_printf(want, "USERHOST %s\r\n", nick); for (i = 0; cmds[i]; i++) g_string_append_printf(want, "%s\r\n", cmds[i]); for (i = 0; i < 3; i++) if (aj[i]) joins[nj++] = g_strdup_printf("JOIN %s%s%s\r\n", chs[i], ckey[i] ? " " : "", ckey[i] ? ckey[i] : ""); } break;
			case 5: l = g_strdup_printf(":%s!user@h JOIN %s", nick, chs[c]); if (!on[c]) key[c] = NULL; on[c] = 1; break;
			case 6: l = g_strdup_printf(":%s!user@h PART %s", nick, chs[c]); on[c] = 0; break;
			case 7: l = g_strdup_printf(":srv 324 %s %s +k s%d", nick, chs[c], c); if (on[c]) key[c] = c == 0 ? "s0" : c == 1 ? "s1" : "s2"; break;
			default: l = g_strdup(ND_BOOL() ? ":o!u@h PRIVMSG joe :hi" : ":srv PONG x"); break;
			}
			vp_note("< %s\n", l); { char *b = g_strconcat(l, "\r\n", NULL); ssize_t r = send(afd, b, strlen(b), MSG_NOSIGNAL); (void)r; g_free(b); } g_free(l); now += ND_BELOW(3); last = now; }
		}
		pump();
		if (closed) { if (was == IN) { strcpy(cfgnick, nick); for (i = 0; i < 3; i++) { aj[i] = on[i]; if (on[i]) { ckey[i] = key[i]; inlist[i] = 1; } } } for (i = 0; i < 3; i++) on[i] = 0; if (closed != 1) { int t; for (t = 0; t < 200 && !eof; t++) { usleep(1000); pump(); } VASSERT(eof, "the connection is closed"); } if (afd >= 0) close(afd); afd = -1; if (closed == 2) st = NOT; else { st = PEND; cur = (cur + 1) % ns; } conn_i = -1; strcpy(nick, cfgnick); }
		if (tried) { int j;
			VASSERT(nconnect == 1, "one attempt to connect");
			if (!S[cur].up) { if (sync_) st = was; else { st = PEND; cur = (cur + 1) % ns; } }
			else { afd = accept(S[cur].lfd, NULL, NULL); VASSERT(afd >= 0, "connects to the server"); { int one = 1; setsockopt(afd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); } conn_i = cur; st = UP; last = now; rd(); strcpy(nick, cfgnick); if (S[cur].c.password) g_string_append(want, "PASS spass\r\n"); else if (nc->password) g_string_append(want, "PASS npass\r\n"); g_string_append_printf(want, "NICK %s\r\nUSER user a a :real name\r\n", nick); }
			for (j = 0; j < ns; j++) if (S[j].up) { int x = accept(S[j].lfd, NULL, NULL); VASSERT(x < 0, "connects to nothing else"); }
		}
		norm(want->str); want->len = strlen(want->str); { int t, w = strlen(want->str); for (i = 0; i < nj; i++) w += strlen(joins[i]); for (t = 0; t < 200 && nlen(out) < w && afd >= 0; t++) { usleep(1000); pump(); } } norm(out); if (strncmp(out, want->str, want->len)) vp_note("WANT %s\nGOT %s\n", want->str, out);
		{ char *p; VASSERT(!strncmp(out, want->str, want->len), "what is sent"); p = out + want->len; while (nj) { for (i = 0; i < nj && strncmp(p, joins[i], strlen(joins[i])); i++); if (i >= nj) vp_note("WANT %s.\nGOT %s\nJOIN %s", want->str, out, joins[0]); VASSERT(i < nj, "rejoins"); p += strlen(joins[i]); g_free(joins[i]); joins[i] = joins[--nj]; } VASSERT(!*p, "and nothing more is sent"); }
		g_string_free(want, TRUE); timers(); if (getenv("VP_TRACE")) fprintf(stderr, "state %d model %d\n", N->connection.state, st);
		VASSERT(N->connection.state == (st == NOT ? NETWORK_CONNECTION_STATE_NOT_CONNECTED : st == PEND ? NETWORK_CONNECTION_STATE_RECONNECT_PENDING : st == UP ? NETWORK_CONNECTION_STATE_LOGIN_SENT : NETWORK_CONNECTION_STATE_MOTD_RECVD), "state of the connection");
		VASSERT(nt == (st == NOT ? 0 : 1) && (!nt || TM[0].ms == (st == PEND ? 1000 * nc->reconnect_interval : 5000)), "one timer, to reconnect or to ping");
		VASSERT((N->external_state != NULL) == (st >= UP) && (N->queries != NULL) == (st >= UP) && (N->connection.transport != NULL) == (st >= UP) && (N->linestack != NULL) == (st >= UP && dirok), "what is kept for a connection");
		VASSERT(cur < 0 || N->connection.data.tcp.current_server == &S[cur].c || (was == NOT && N->connection.data.tcp.current_server == NULL), "current server");
		if (st >= UP) VASSERT(!strcmp(N->external_state->me.nick, nick), "nick");
		{ int w = base; for (i = 0; i < ns; i++) w += S[i].up; if (st >= UP) w += 2; VASSERT(socks() == w, "no socket is left open"); }
	}
	if (st != NOT) disconnect_network(N); pump(); if (afd >= 0) close(afd); for (i = 0; i < ns; i++) { if (S[i].up) down(i); g_free(S[i].c.port); } timers(); VASSERT(nt == 0, "no timer is left"); g_list_free(nc->type_settings.tcp.servers); nc->type_settings.tcp.servers = NULL;
	G.networks = NULL; irc_network_unref(N); nftw(dir, rmf, 10, FTW_DEPTH | FTW_PHYS); while (nc->channels) { struct channel_config *cc = nc->channels->data; g_free(cc->name); g_free(cc->key); g_free(cc); nc->channels = g_list_delete_link(nc->channels, nc->channels); } g_strfreev(nc->autocmd); g_free(nc->name); g_free(nc->nick); g_free(nc->username); g_free(nc->fullname); g_free(nc->password); g_list_free(CFG.networks); g_free(CFG.linestack_dir); g_free(nc); (void)conn_i;
}
