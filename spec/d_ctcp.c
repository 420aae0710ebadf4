/* C09: CTCP answers and the routing of CTCP replies, against a model. */
#include "vp.h"
#include "src/ctcp.c"
#undef strcasecmp
#include "irc.h"
#include <stdarg.h>
static struct irc_network N[2]; static struct irc_network_state XS; static struct irc_network_info INFO; static struct irc_client CL[3]; static struct global G; static struct ctrlproxy_config CFG;
static int nsend; static char scmd[16], sto[64], stext[2048]; static struct irc_network *sn;
gboolean __wrap_network_send_args(struct irc_network *n, ...) { va_list ap; const char *c, *t, *m; va_start(ap, n); c = va_arg(ap, char *); t = va_arg(ap, char *); m = va_arg(ap, char *); VASSERT(c && t && m && !va_arg(ap, char *), "command, target and text"); va_end(ap); nsend++; sn = n; strcpy(scmd, c); VASSERT(strlen(t) < 60 && strlen(m) < 2000, "length"); strcpy(sto, t); strcpy(stext, m); return TRUE; }
static int nto; static struct irc_client *to; static const struct irc_line *tol; gboolean __wrap_client_send_line(struct irc_client *c, const struct irc_line *l, GError **e) { nto++; to = c; tol = l; return TRUE; }
static int eqi(const char *a, const char *b) { return !g_ascii_strcasecmp(a, b); }
static int h1, h2; static char w1[64]; static char *RA[6]; static int rn;
static void reply_n(struct ctcp_handle *h) { switch (rn) { case 1: ctcp_reply(h, RA[0], NULL); break; case 2: ctcp_reply(h, RA[0], RA[1], NULL); break; case 3: ctcp_reply(h, RA[0], RA[1], RA[2], NULL); break; default: ctcp_reply(h, RA[0], RA[1], RA[2], RA[3], RA[4], NULL); } }
static struct ctcp_handle *lh;
static void myfn(struct ctcp_handle *h, const char **a) { h1++; strcpy(w1, a[0]); VASSERT(ctcp_get_network(h) == &N[0], "network of the request"); VASSERT(!strcmp(ctcp_get_nick(h), "joe"), "who asks"); reply_n(h); }
static void myfn2(struct ctcp_handle *h, const char **a) { h2++; }
static struct irc_line *mk(const char *cmd, const char *tgt, const char *text, const char *origin) { struct irc_line *l = g_new0(struct irc_line, 1); l->args = g_new0(char *, 5); l->args[0] = g_strdup(cmd); l->args[1] = g_strdup(tgt); l->args[2] = g_strdup(text); l->argc = 3; l->origin = g_strdup(origin); return l; }
static void setup(void) { memset(N, 0, sizeof N); memset(&XS, 0, sizeof XS); memset(&INFO, 0, sizeof INFO); memset(CL, 0, sizeof CL); N[0].external_state = N[1].external_state = &XS; N[0].info = N[1].info = &INFO; INFO.chantypes = "#&"; XS.info = &INFO; XS.me.fullname = "Full Name"; N[0].name = "a"; N[1].name = "b"; { static struct irc_network_callbacks nc; static struct irc_client_callbacks cc; N[0].callbacks = N[1].callbacks = &nc; CL[0].callbacks = CL[1].callbacks = CL[2].callbacks = &cc; } }
VP_HARNESS(answer)
{
	static const char *names[] = { "VERSION", "version", "CLIENTINFO", "SOURCE", "PING", "FINGER", "TIME", "ACTION", "FOO", "", "MINE", "NOFN", "VERSIONX", "DCC", "PINGS", "ERRMSG" }, *args[] = { NULL, "123", "", "a b", "x" }, *words[] = { "X", "", "some words", "\002b", "a-rather-long-word-that-goes-on" };
	char text[200], want[400]; const char *c, *a; int over, end, i; struct irc_line *l; gboolean r; static struct ctcp_handler hv = { "MINE", myfn }, hn = { "NOFN", NULL }, ho = { "PING", myfn2 }, ho2 = { "mine", myfn2 };
	setup(); while (cmds) { g_free(cmds->data); cmds = g_list_delete_link(cmds, cmds); }
	over = ND_BELOW(3); if (over) { ctcp_register_handler(&hv); ctcp_register_handler(&hn); } if (over == 2) { ctcp_register_handler(&ho); ctcp_register_handler(&ho2); }
	rn = 1 + ND_BELOW(4); for (i = 0; i < 5; i++) RA[i] = (char *)words[ND_BELOW(5)];
	c = names[ND_BELOW(16)]; a = args[ND_BELOW(5)]; end = ND_BELOW(8) != 0;
	sprintf(text, "\001%s%s%s%s%s", c, a ? " " : "", a ? a : "", end ? "\001" : "", end && ND_BELOW(5) == 0 ? "trailing\001" : "");
	l = mk("PRIVMSG", "me", text, "joe!u@h"); nsend = h1 = h2 = 0; vp_note("request \"%s\" registered %d\n", text, over);
	r = ctcp_process_request(&N[0], l);
	VASSERT(!strcmp(l->args[2], text) && l->argc == 3, "the line is left alone");
	if (nsend) { VASSERT(nsend == 1 && sn == &N[0] && !strcmp(scmd, "NOTICE") && !strcmp(sto, "joe"), "one answer, a NOTICE to who asked"); VASSERT(stext[0] == 1 && stext[strlen(stext) - 1] == 1 && !memchr(stext + 1, 1, strlen(stext) - 2), "a quoted answer"); }
	strcpy(want, "");
	if (!end || !(*c || a)) { VASSERT(!r && !nsend && !h1 && !h2, "malformed requests get no answer"); }
	else if (over && eqi(c, "MINE")) { VASSERT(r && h1 == 1 && !h2 && !strcmp(w1, "MINE"), "the registered handler, once"); strcpy(want, "\001"); for (i = 0; i < (rn == 4 ? 5 : rn); i++) { if (i) strcat(want, " "); strcat(want, RA[i]); } strcat(want, "\001"); VASSERT(!strcmp(want, stext), "the words of the answer"); }
	else if (over && eqi(c, "NOFN")) VASSERT(r && !nsend && !h1 && !h2, "no function, no answer");
	else if (over == 2 && eqi(c, "PING")) VASSERT(r && h2 == 1 && !h1 && !nsend, "registered handlers go before builtin ones");
	else { VASSERT(!h1 && !h2, "no registered handler");
		if (eqi(c, "ACTION")) VASSERT(r && !nsend, "no answer to an action");
		else { VASSERT(nsend == 1, "an answer");
		if (eqi(c, "VERSION")) { VASSERT(r && g_str_has_prefix(stext, "\001VERSION ctrlproxy:"), "version"); }
		else if (eqi(c, "SOURCE")) VASSERT(r && g_str_has_prefix(stext, "\001SOURCE www"), "source");
		else if (eqi(c, "FINGER")) VASSERT(r && !strcmp(stext, "\001FINGER Full Name\001"), "finger");
		else if (eqi(c, "TIME")) VASSERT(r && g_str_has_prefix(stext, "\001TIME ") && !strchr(stext, '\n'), "time");
		else if (eqi(c, "CLIENTINFO")) { static const char *b[] = { "VERSION", "CLIENTINFO", "SOURCE", "PING", "FINGER", "TIME", "ACTION" }; char **v; VASSERT(r && g_str_has_prefix(stext, "\001CLIENTINFO "), "clientinfo"); stext[strlen(stext) - 1] = 0; v = g_strsplit(stext + 12, " ", 0); VASSERT(g_strv_length(v) == 7 + (over > 0) * 2 + (over > 1) * 2, "every command"); for (i = 0; i < 7; i++) VASSERT(g_strv_contains((const gchar * const *)v, b[i]), "every command"); if (over) VASSERT(g_strv_contains((const gchar * const *)v, "MINE") && g_strv_contains((const gchar * const *)v, "NOFN"), "registered ones too"); g_strfreev(v); }
		else if (eqi(c, "PING")) { char **v = g_strsplit(a ? a : "", " ", 0); if (!a) strcpy(want, "\001PING\001"); else sprintf(want, "\001PING %s\001", v[0] ? v[0] : ""); VASSERT(r && !strcmp(stext, want), "ping"); g_strfreev(v); }
		else VASSERT(!r && !strcmp(stext, "\001ERRMSG\001"), "unknown"); } }
	free_line(l);
}
struct pend { int c; char nick[16], cmd[16]; }; 
VP_HARNESS(route)
{
	static const char *cm[] = { "VERSION", "PING", "X", "version" }, *ni[] = { "joe", "ann", "#chan", "Joe" }; struct pend P[12]; int np = 0, i, k, steps = 1 + ND_BELOW(12), ok; struct irc_line *l; char text[60]; gboolean r;
	setup(); CL[0].network = CL[1].network = &N[0]; CL[2].network = &N[1];
	for (k = 0; k < steps; k++) {
		const char *c = cm[ND_BELOW(4)], *n = ni[ND_BELOW(4)]; int form = ND_BELOW(4);
		if (form == 3) sprintf(text, "\001%s", c); else sprintf(text, form == 0 ? "\001%s\001" : form == 1 ? "\001%s 1 2\001" : "\001%s more", c);
		ok = form != 3;
		if (ND_BOOL()) {
			int w = ND_BELOW(3); l = mk("PRIVMSG", n, text, NULL); vp_note("client %d asks %s: %s\n", w, n, text + 1); r = ctcp_client_request_record(&CL[w], l); VASSERT(!r == !ok, "remembers well-formed requests");
			if (ok) { P[np].c = w; strcpy(P[np].nick, n); strcpy(P[np++].cmd, c); }
		} else {
			int net = ND_BELOW(2); char *o; if (n[0] == '#') n = "joe"; o = g_strdup_printf("%s!u@h", n); l = mk("NOTICE", "me", text, o); g_free(o); nto = 0; vp_note("%s answers on %d: %s\n", n, net, text + 1); r = ctcp_network_redirect_response(&N[net], l); VASSERT(!r == !ok, "takes well-formed replies");
			for (i = 0; ok && i < np; i++) if ((P[i].c == 2) == net && (P[i].nick[0] == '#' || !strcmp(P[i].nick, n)) && !strcmp(P[i].cmd, c)) break;
			if (ok && i < np) { VASSERT(nto == 1 && to == &CL[P[i].c] && tol == l, "goes to the client that asked first"); memmove(P + i, P + i + 1, (np - i - 1) * sizeof *P); np--; } else VASSERT(nto == 0, "goes to nobody");
		}
		free_line(l);
	}
	/* forget the rest */
	for (i = 0; i < np; i++) { sprintf(text, "\001%s 1\001", P[i].cmd); l = mk("NOTICE", "me", text, P[i].nick[0] == '#' ? "joe!u@h" : P[i].nick); nto = 0; ctcp_network_redirect_response(CL[P[i].c].network, l); VASSERT(nto == 1, "every request can be answered"); free_line(l); }
}
