/* C12: lines in, state of the client out, over a real connection. */
#include "vp.h"
#include "internals.h"
#include "irc.h"
#include "client.h"
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <sys/socket.h>
static int fd, nproc, nwel, ncon, cport, ndis, no; static char chost[100], out[4096]; static gboolean wel; static struct irc_client *C;
static gboolean proc(struct irc_client *c, const struct irc_line *l) { VASSERT(c == C && c->authenticated, "only a welcome client is served"); nproc++; return TRUE; }
static gboolean welcome(struct irc_client *c) { VASSERT(c == C && c->state && !c->authenticated, "welcomed before it is a client"); nwel++; if (!wel) client_disconnect(c, "no"); return wel; }
static void conn(struct irc_client *c, const char *h, guint16 p) { ncon++; cport = p; g_strlcpy(chost, h, sizeof chost); }
static void disc(struct irc_client *c) { ndis++; }
static const struct irc_client_callbacks cb = { .process_from_client = proc, .welcome = welcome, .on_connect = conn, .disconnect = disc };
static void pump(void) { int i, r; for (i = 0; i < 40 && g_main_context_iteration(NULL, FALSE); i++); while ((r = recv(fd, out + no, sizeof out - 1 - no, MSG_DONTWAIT)) > 0) no += r; out[no] = 0; }
static int eq(const char *a, const char *b) { return a == b || (a && b && !strcmp(a, b)); }
VP_HARNESS(registration)
{
	static const char *cmd[] = { "NICK", "USER", "PASS", "CONNECT", "nick", "uSeR", "JOIN", "QUIT", "PRIVMSG", "" }, *av[] = { "joe", "ann", "x", "irc.example.org", "6668", "#c", "99999" };
	int sv[2], k, steps = 1 + ND_BELOW(7), reg = 0, gone = 0; char n[40] = "", u[5][40] = { "" }, p[40] = ""; int hp = 0;
	VASSUME(socketpair(AF_UNIX, SOCK_STREAM, 0, sv) == 0); fd = sv[0]; { GIOChannel *ch = g_io_channel_unix_new(sv[1]); g_io_channel_set_flags(ch, G_IO_FLAG_NONBLOCK, NULL); g_io_channel_set_close_on_unref(ch, TRUE); C = irc_client_new(irc_transport_new_iochannel(ch), "srv", "d", &cb); g_io_channel_unref(ch); }
	nproc = nwel = ncon = ndis = no = 0; wel = ND_BELOW(4) != 0;
	for (k = 0; k < steps && !gone; k++) {
		int c = ND_BELOW(10), na = ND_BELOW(7), i, np = nproc, nc = ncon; const char *a[7]; char line[300]; const char *nm = cmd[c]; int is_n = !g_ascii_strcasecmp(nm, "NICK"), is_u = !g_ascii_strcasecmp(nm, "USER"), is_p = !strcmp(nm, "PASS"), is_c = !strcmp(nm, "CONNECT"), want = 0;
		strcpy(line, ND_BELOW(5) == 0 ? ":o!u@h " : ""); strcat(line, nm); if (!*nm) na = 0; for (i = 0; i < na; i++) { a[i] = av[ND_BELOW(7)]; strcat(line, " "); strcat(line, a[i]); } if (!*nm && line[0]) continue;
		vp_note("%s\n", line); strcat(line, ND_BOOL() ? "\r\n" : "\n"); no = 0; { ssize_t r = send(fd, line, strlen(line), MSG_NOSIGNAL); (void)r; } pump();
		if (!*nm) { VASSERT(nproc == np && ncon == nc && no == 0, "an empty line does nothing"); continue; }
		if (reg) { VASSERT(nproc == np + 1 && ncon == nc && no == 0, "a client's line is served"); continue; }
		VASSERT(nproc == np, "not a client yet");
		if (is_n) { if (na < 1) want = 461; else strcpy(n, a[0]); } else if (is_u) { if (na < 4) want = 461; else for (i = 0; i < 4; i++) strcpy(u[i], a[i]); } else if (is_p) { hp = na >= 1; if (hp) strcpy(p, a[0]); } else if (is_c) { if (na < 1) want = 461; } else want = 451;
		VASSERT(ncon == nc + (is_c && na >= 1), "CONNECT"); if (ncon > nc) VASSERT(!strcmp(chost, a[0]) && cport == (guint16)(na > 1 ? atoi(a[1]) : 6667), "host and port");
		if (want) { char num[10]; sprintf(num, " %d * ", want); VASSERT(strstr(out, num) && strchr(out, '\n') == out + no - 1, "one error"); }
		VASSERT(nwel == (*n && *u[0]), "welcomed once nick and user are known");
		if (nwel) { VASSERT(C->state && eq(C->state->me.nick, n) && eq(C->state->me.username, u[0]), "as the nick and user given last"); if (!wel) { gone = 1; VASSERT(ndis == 1 && !C->authenticated, "refused"); } else { reg = 1; VASSERT(C->authenticated, "a client now"); VASSERT(no == 0, "quiet"); } } else { VASSERT(!C->state && !C->authenticated, "not a client"); if (!want) VASSERT(no == 0, "quiet"); }
		VASSERT(eq(C->login_details->nick, *n ? n : NULL) && eq(C->login_details->username, *u[0] ? u[0] : NULL) && eq(C->login_details->realname, *u[0] ? u[3] : NULL) && eq(C->login_details->mode, *u[0] ? u[1] : NULL) && eq(C->login_details->unused, *u[0] ? u[2] : NULL) && eq(C->login_details->password, hp ? p : NULL), "what was given last counts");
	}
	close(fd); fd = -1; { int i; for (i = 0; i < 40 && g_main_context_iteration(NULL, FALSE); i++); } VASSERT(ndis == 1 && !C->connected, "gone"); client_unref(C);
}
