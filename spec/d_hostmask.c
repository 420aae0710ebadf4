/* C19: what a client is shown of its own host mask, against an independent reading. */
#include "vp.h"
#include "internals.h"
#include "irc.h"
static int fold(int c) { if (c >= 'A' && c <= 'Z') return c + 32; if (c == '[') return '{'; if (c == ']') return '}'; if (c == '\\') return '|'; if (c == '~' || c == '^') return '~'; return c; }
static int same(const char *a, const char *b) { for (;; a++, b++) { if (fold((unsigned char)*a) != fold((unsigned char)*b)) return 0; if (!*a) return 1; } }
static void nick(struct network_nick *n, const char *ni, const char *u, const char *h) { memset(n, 0, sizeof *n); n->nick = (char *)ni; n->username = (char *)u; n->hostname = (char *)h; n->hostmask = g_strdup_printf("%s!%s@%s", ni, u, h); }
static struct irc_line *mk(const char *origin, int n, char **a) { struct irc_line *l = g_new0(struct irc_line, 1); int i; l->origin = g_strdup(origin); l->args = g_new0(char *, n + 2); for (i = 0; i < n; i++) l->args[i] = g_strdup(a[i]); l->argc = n; return l; }
static int eq(const struct irc_line *a, const struct irc_line *b) { int i; if (!a->origin != !b->origin || (a->origin && strcmp(a->origin, b->origin))) return 0; if (a->argc != b->argc) return 0; for (i = 0; i < a->argc; i++) if (strcmp(a->args[i], b->args[i])) return 0; return a->args[a->argc] == NULL; }
static const char *NICKS[] = { "me", "ME", "other", "m", "mee", "Me^", "me~", "", "me*" }, *HOSTS[] = { "host.old", "host.new", "elsewhere" };
static struct irc_line *expect(const struct irc_line *l, const char *on, const char *oh, const char *nu, const char *nh, const char *nmask, int *maybe)
{
	char *a[16]; int i, n = l->argc, own = 0; char *bang, *on2; struct irc_line *r;
	for (i = 0; i < n; i++) a[i] = l->args[i];
	*maybe = 0;
	if (l->origin) { on2 = g_strdup(l->origin); bang = strchr(on2, '!'); if (bang) *bang = 0; own = same(on2, on); g_free(on2); if (own) return mk(nmask, n, a); }
	if (!strcmp(a[0], "302") && n > 2) {
		GString *s = g_string_new(""); char **v = g_strsplit(a[2], " ", 0); int k, any = 0;
		for (k = 0; v[k]; k++) {
			char *e = strchr(v[k], '='), *nk; int star;
			if (k) g_string_append_c(s, ' ');
			if (!e || !e[1]) { g_string_append(s, v[k]); continue; }
			nk = g_strndup(v[k], e - v[k]); star = nk[0] && nk[strlen(nk) - 1] == '*'; if (star) nk[strlen(nk) - 1] = 0;
			if (same(nk, on)) { any = 1; g_string_append_printf(s, "%s%s=%c%s@%s", nk, star ? "*" : "", e[1], nu, nh); } else g_string_append(s, v[k]);
			g_free(nk);
		}
		if (any && !strstr(a[2], oh)) *maybe = 1;	/* our entry shows another host than we know of */
		a[2] = s->str; r = mk(l->origin, n, a); g_string_free(s, TRUE); g_strfreev(v); return r;
	}
	if (!strcmp(a[0], "352") && n > 6 && same(a[6], on)) { a[3] = (char *)nu; a[4] = (char *)nh; }
	if ((!strcmp(a[0], "311") || !strcmp(a[0], "314")) && n > 4 && same(a[2], on)) { a[3] = (char *)nu; a[4] = (char *)nh; }
	return mk(l->origin, n, a);
}
VP_HARNESS(hostmask)
{
	static const char *cmds[] = { "302", "352", "311", "314", "PRIVMSG", "001", "354", "319" }; struct network_nick o, w; struct irc_line *l, *r, *x, *c; char *a[10], buf[10][120], org[60]; int n, i, k, maybe; 
	nick(&o, "me", "olduser", HOSTS[0]); if (ND_BELOW(8) == 0) nick(&w, "ME", "OLDUSER", "HOST.old"); else nick(&w, "me", "newuser", HOSTS[1]);
	strcpy(buf[0], cmds[ND_BELOW(8)]); n = 1 + ND_BELOW(9);
	for (i = 1; i < n; i++) {
		a[i] = buf[i]; strcpy(buf[i], ND_BELOW(3) ? NICKS[ND_BELOW(9)] : HOSTS[ND_BELOW(3)]);
		if (i == 2 && !strcmp(buf[0], "302")) { buf[i][0] = 0; for (k = ND_BELOW(4); k > 0; k--) { strcat(buf[i], NICKS[ND_BELOW(9)]); if (ND_BELOW(4)) strcat(buf[i], "*" + !(ND_BELOW(3) == 0)); switch (ND_BELOW(6)) { case 0: break; case 1: strcat(buf[i], "="); break; default: strcat(buf[i], ND_BOOL() ? "=+u@" : "=-x@"); strcat(buf[i], HOSTS[ND_BELOW(3)]); } if (k > 1 || ND_BELOW(4) == 0) strcat(buf[i], " "); } }
	}
	a[0] = buf[0]; sprintf(org, ND_BOOL() ? "%s!u@h" : "%s", NICKS[ND_BELOW(9)]); if (ND_BELOW(3) == 0) strcpy(org, "irc.server");
	l = mk(ND_BELOW(5) ? org : NULL, n, a); c = mk(l->origin, n, a);
	{ char *s = irc_line_string(l); vp_note("line %s\n", s); g_free(s); }
	r = irc_line_replace_hostmask(l, NULL, &o, &w);
	VASSERT(eq(l, c) , "the line of the server is not changed");
	if (same(o.hostmask, w.hostmask)) VASSERT(r == NULL, "nothing to replace");
	else {
		x = expect(l, "me", HOSTS[0], w.username, w.hostname, w.hostmask, &maybe);
		if (!r) VASSERT(eq(x, l) || maybe, "own host mask replaced");
		else { if (!strcmp(a[0], "302") && n > 2 && eq(r, x) == 0) { g_strstrip(x->args[2]); if (maybe) { g_free(x->args[2]); x->args[2] = g_strstrip(g_strdup(l->args[2])); } } VASSERT(eq(r, x), "own host mask replaced and nothing else"); free_line(r); }
		free_line(x);
	}
	free_line(l); free_line(c); g_free(o.hostmask); g_free(w.hostmask);
}
/* delivery: every client but one, each with its own mask, the line unchanged */
static struct irc_client *got[8]; static int ngot; static char *seen[8];
gboolean __wrap_client_send_line(struct irc_client *c, const struct irc_line *l, GError **e) { VASSERT(ngot < 8, "each client once"); seen[ngot] = irc_line_string(l); got[ngot++] = c; return ND_BELOW(4) != 0; }
VP_HARNESS(deliver)
{
	struct irc_network N; struct irc_network_state S; struct irc_client C[4]; struct irc_network_state CS[4]; GList *gl = NULL; int n = ND_BELOW(5), i, ex = ND_BELOW(6), want = 0, haveext = ND_BELOW(4) != 0; char h[20]; struct irc_line *l; char *txt; char *a[] = { "JOIN", "#x" }; int own = ND_BOOL();
	memset(&N, 0, sizeof N); memset(&S, 0, sizeof S); memset(C, 0, sizeof C); memset(CS, 0, sizeof CS); ngot = 0;
	nick(&S.me, "me", "u", "h"); if (haveext) N.external_state = &S;
	for (i = 0; i < n; i++) { sprintf(h, "c%d", i); nick(&CS[i].me, "me", "cu", g_strdup(h)); C[i].network = &N; C[i].state = &CS[i]; gl = g_list_append(gl, &C[i]); }
	l = mk(own ? "me!u@h" : "you!u@h", 2, a); txt = irc_line_string(l);
	clients_send(gl, l, ex < 4 ? &C[ex] : NULL);
	for (i = 0; i < n; i++) if (i != ex) { char *e = own && haveext ? g_strdup_printf(":%s JOIN #x", CS[i].me.hostmask) : g_strdup(txt); VASSERT(want < ngot && got[want] == &C[i], "every client once, in order, but not the excluded one"); VASSERT(!strcmp(seen[want], e), "with its own host mask"); g_free(e); want++; }
	VASSERT(want == ngot, "no other client");
	{ char *s = irc_line_string(l); VASSERT(!strcmp(s, txt), "the line itself is unchanged"); g_free(s); }
	for (i = 0; i < ngot; i++) g_free(seen[i]); for (i = 0; i < n; i++) { g_free(CS[i].me.hostname); g_free(CS[i].me.hostmask); } g_free(S.me.hostmask); g_free(txt); free_line(l); g_list_free(gl);
}
