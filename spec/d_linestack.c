/* C14: a linestack against a list of lines and copies of the state. */
#include "vp.h"
#include "internals.h"
#include "irc.h"
#include "linestack.h"
#include <string.h>
#include <unistd.h>
#include <glib/gstdio.h>
#define SAME(g, w, m) do { if (strcmp(g, w)) vp_note("WANT %s\nGOT %s", w, g); VASSERT(!strcmp(g, w), m); } while (0)
#define NL 2600
static char dir[64]; static char *rec[NL]; static int nrec;
static void rmtree(const char *p) { GDir *d = g_dir_open(p, 0, NULL); const char *f; if (!d) return; while ((f = g_dir_read_name(d))) { char *q = g_build_filename(p, f, NULL); if (g_file_test(q, G_FILE_TEST_IS_DIR) && !g_file_test(q, G_FILE_TEST_IS_SYMLINK)) rmtree(q); else g_unlink(q); g_free(q); } g_dir_close(d); g_rmdir(p); }
static void dm(GString *s, const gboolean *m) { int i; for (i = 0; i < MAXMODES; i++) if (m[i]) g_string_append_printf(s, "%c", i); }
static void dn(GString *s, const struct network_nick *n) { g_string_append_printf(s, "nick %s!%s@%s=%s %s %s +", n->nick, n->username ? n->username : "-", n->hostname ? n->hostname : "-", n->hostmask ? n->hostmask : "-", n->fullname ? n->fullname : "-", n->server ? n->server : "-"); dm(s, n->modes); g_string_append_c(s, '\n'); }
static char *dump(const struct irc_network_state *st)
{
	GString *s = g_string_new(NULL); GList *l, *m; int i; g_string_append_printf(s, "cm%d pfx%s cmodes%s ct%s\n", (int)st->info->casemapping, st->info->prefix, st->info->chanmodes ? st->info->chanmodes_b : "", st->info->chantypes); dn(s, &st->me);
	for (l = st->channels; l; l = l->next) { struct irc_channel_state *c = l->data; VASSERT(c->network == st, "channel belongs to its state"); g_string_append_printf(s, "chan %s '%s' by %s at %ld mode%d cr%ld n%d b%d i%d e%d mr%d +", c->name, c->topic ? c->topic : "(none)", c->topic_set_by ? c->topic_set_by : "-", (long)c->topic_set_time, c->mode, (long)c->creation_time, c->namreply_started, c->banlist_started, c->invitelist_started, c->exceptlist_started, c->mode_received); dm(s, c->modes);
		for (i = 0; i < MAXMODES; i++) { if (c->chanmode_option[i]) g_string_append_printf(s, " %c=%s", i, c->chanmode_option[i]); if (c->chanmode_nicklist_present[i]) g_string_append_printf(s, " %c!", i); for (m = c->chanmode_nicklist[i]; m; m = m->next) { struct nicklist_entry *e = m->data; g_string_append_printf(s, " %c:%s", i, e->hostmask); } }
		for (m = c->nicks; m; m = m->next) { struct channel_nick *n = m->data; VASSERT(n->channel == c && g_list_find(n->global_nick->channel_nicks, n), "member is linked"); g_string_append_c(s, '('); dn(s, n->global_nick); dm(s, n->modes); g_string_append_c(s, ')'); } g_string_append_c(s, '\n'); }
	return g_string_free(s, FALSE);
}
/* what's told of the lines on the way: the time isn't under our control */
struct tr { int at, bad, stop, n; const char *obj; };
static int names(const char *l, const char *obj) { struct irc_line *p = irc_parse_line(l); int r = 0; if (p->argc > 1) { char **v = g_strsplit(p->args[1], ",", 0); int i; for (i = 0; v[i]; i++) if (!strcmp(v[i], obj)) r = 1; g_strfreev(v); } free_line(p); return r; }
static time_t t0, t1;
static gboolean hnd(struct irc_line *l, time_t t, void *u)
{
	struct tr *d = u; char *s = irc_line_string(l); if (d->obj) while (d->at < nrec && !names(rec[d->at], d->obj)) d->at++;
	if (d->at >= nrec || strcmp(s, rec[d->at]) || t < t0 || t > t1 + 1) d->bad = 1; g_free(s); d->at++; d->n++;
	return !(d->stop && d->n == d->stop);
}
static int mode; static struct tr snd; static int off, refuse;
gboolean __wrap_client_send_line(struct irc_client *c, const struct irc_line *l, GError **e)
{
	const char *w; struct irc_line *p; char *s = irc_line_string(l), *q; int txt; (void)e; VASSERT(c == (void *)&snd, "the client");
	for (;; snd.at++) { if (snd.at >= nrec) { snd.bad = 1; g_free(s); return TRUE; } if (snd.obj && !names(rec[snd.at], snd.obj)) continue; w = rec[snd.at]; p = irc_parse_line(w); txt = (!g_ascii_strcasecmp(p->args[0], "PRIVMSG") || !g_ascii_strcasecmp(p->args[0], "NOTICE")) && p->argc > 2; if ((mode & 1) && !txt) { free_line(p); continue; } break; }
	if ((mode & 2) && txt) { VASSERT(l->argc > 2 && strlen(l->args[2]) >= strlen(p->args[2]), "text"); q = l->args[2] + strlen(l->args[2]) - strlen(p->args[2]); if (g_str_has_prefix(p->args[2], "\001ACTION ")) { VASSERT(g_str_has_prefix(l->args[2], "\001ACTION [") && !strcmp(l->args[2] + strlen(l->args[2]) - strlen(p->args[2] + 8), p->args[2] + 8), "action with time"); } else VASSERT(l->args[2][0] == '[' && !strcmp(q, p->args[2]), "time, then the text"); }
	else if (strcmp(s, w)) snd.bad = 1;
	free_line(p); g_free(s); snd.at++; snd.n++; return !(refuse && snd.n == refuse);
}
static const char *nk(void) { static const char *n[] = { "me", "alice", "Bob", "carol", "d[e]", "D{E}", "eve" }; return n[ND_BELOW(7)]; }
static const char *ch(void) { static const char *n[] = { "#a", "#B", "#b", "#x[", "#x{" }; return n[ND_BELOW(5)]; }
static char *mk(void)
{
	static const char *tx[] = { "hi there", "\001ACTION waves\001", "\001VERSION\001", ":-)", "x", "line\xe2\x80\xa9two", " lead", "tail " };
	switch (ND_BELOW(22)) {
	case 0: case 1: return g_strdup_printf(":%s!u@h%d JOIN %s", nk(), ND_BELOW(3), ch());
	case 2: return g_strdup_printf(":%s!u@h PART %s :%s", nk(), ch(), tx[ND_BELOW(8)]);
	case 3: return g_strdup_printf(":%s!u@h QUIT :%s", nk(), tx[ND_BELOW(8)]);
	case 4: return g_strdup_printf(":%s!u@h KICK %s %s :out", nk(), ch(), nk());
	case 5: return g_strdup_printf(":%s!u@h NICK %s", nk(), nk());
	case 6: case 7: return g_strdup_printf(":%s!u@h MODE %s %s%s %s", nk(), ch(), ND_BOOL() ? "+" : "-", ND_BOOL() ? "o" : "v", nk());
	case 8: return g_strdup_printf(":%s!u@h MODE %s +ntl %d", nk(), ch(), ND_BELOW(100));
	case 9: return g_strdup_printf(":%s!u@h MODE %s %sb *!*@h%d", nk(), ch(), ND_BOOL() ? "+" : "-", ND_BELOW(4));
	case 10: return g_strdup_printf(":%s!u@h TOPIC %s :%s", nk(), ch(), tx[ND_BELOW(8)]);
	case 11: return g_strdup_printf(":srv 353 me = %s :@%s +%s %s", ch(), nk(), nk(), nk());
	case 12: return g_strdup_printf(":srv 366 me %s :End", ch());
	case 13: return g_strdup_printf(":srv 332 me %s :%s", ch(), tx[ND_BELOW(8)]);
	case 14: return g_strdup_printf(":srv 333 me %s %s %d", ch(), nk(), 1000 + ND_BELOW(2000000000));
	case 15: return g_strdup_printf(":srv 324 me %s +nk key", ch());
	case 16: return g_strdup_printf(":srv 329 me %s %d", ch(), 5 + ND_BELOW(2000000000));
	case 17: return g_strdup_printf(":srv 331 me %s :No topic", ch());
	case 18: return g_strdup_printf(":%s!u@h NOTICE %s%s%s :%s", nk(), ND_BOOL() ? nk() : ch(), ND_BOOL() ? "," : "", ch(), tx[ND_BELOW(8)]);
	case 19: return g_strdup(ND_BOOL() ? ":srv 372 me :motd" : ":srv PONG x");
	default: { int x = ND_BELOW(8); return g_strdup_printf(":%s!u@h PRIVMSG %s :%s", nk(), ND_BOOL() && x != 2 ? nk() : ch(), tx[x]); }
	}
}
static int wanted(const struct irc_line *l, int from)
{
	static const char *k[] = { "NICK", "JOIN", "QUIT", "PART", "PRIVMSG", "NOTICE", "KICK", "MODE", "TOPIC", "353", "366", "331", "333", "332", "324", "329" }; unsigned i; int txt = !strcmp(l->args[0], "PRIVMSG") || !strcmp(l->args[0], "NOTICE");
	if (!from && !txt) return 0; if (txt && l->argc > 2 && l->args[2][0] == 1 && strncmp(l->args[2], "\001ACTION", 7)) return 0;
	for (i = 0; i < G_N_ELEMENTS(k); i++) if (!strcmp(k[i], l->args[0])) return 1; return 0;
}
#define NS 40
static void body(int n)
{
	struct linestack_context *ctx; struct irc_network_state *st = network_state_init("me", "u", "h"), *g; struct { linestack_marker m; int at; char *d; } sn[NS]; int ns = 0, i, k, a, b; char *d; struct irc_line *l; struct tr tr;
	strcpy(dir, "/tmp/vp-ls-XXXXXX"); VASSUME(mkdtemp(dir)); nrec = 0; t0 = time(NULL); mode = 0;
	ctx = create_linestack(dir, TRUE, st); VASSUME(ctx != NULL);
	if (ND_BOOL()) { l = irc_parse_line(ND_BOOL() ? ":s 005 me PREFIX=(qov)~@+ CASEMAPPING=ascii CHANMODES=beI,k,l,imnpst :are supported" : ":s 005 me CASEMAPPING=strict-rfc1459 CHANTYPES=# :are supported"); VASSUME(state_handle_data(st, l)); free_line(l); VASSERT(linestack_insert_state(ctx, st), "stored"); }
	for (i = 0; i < n; i++) {
		int from = ND_BELOW(8) != 0; char *s = mk(); l = irc_parse_line(s); g_free(s); if (!strcmp(l->args[0], "NICK") && find_network_nick(st, l->args[1])) { free_line(l); continue; } if (!from) { g_free(l->origin); l->origin = g_strdup_printf("%s!u@h", st->me.nick); } s = irc_line_string(l); if (n < 200) vp_note("%s\n", s); g_free(s);
		if (from) state_handle_data(st, l);
		VASSERT(linestack_insert_line(ctx, l, from ? FROM_SERVER : TO_SERVER, st), "accepted"); if (wanted(l, from)) rec[nrec++] = irc_line_string(l); free_line(l);
		if (ns < (n > 200 ? 6 : NS) && ND_BELOW(1 + n / (n > 200 ? 6 : 30)) == 0) { sn[ns].m = linestack_get_marker(ctx); sn[ns].at = nrec; sn[ns].d = dump(st); ns++; }
		if (ND_BELOW(200) == 0) { free_linestack_context(ctx); ctx = create_linestack(dir, FALSE, st); VASSERT(ctx != NULL, "reopened"); }
		if (ns && ND_BELOW(n > 200 ? 800 : 40) == 0) { k = ND_BELOW(ns); g = linestack_get_state(ctx, sn[k].m); VASSERT(g != NULL, "a state"); d = dump(g); SAME(d, sn[k].d, "the state at the marker, while lines are added"); g_free(d); free_network_state(g); }
	}
	t1 = time(NULL);
	for (k = 0; k < ns; k++) { VASSERT(*sn[k].m == (guint64)sn[k].at, "marker"); g = linestack_get_state(ctx, sn[k].m); VASSERT(g != NULL, "a state"); d = dump(g); SAME(d, sn[k].d, "the state at the marker"); g_free(d);
		VASSERT(linestack_replay(ctx, sn[k].m, NULL, g), "replays"); { char *e = dump(st); d = dump(g); SAME(d, e, "replaying leads to the current state"); g_free(d); g_free(e); } free_network_state(g); }
	g = linestack_get_state(ctx, NULL); VASSERT(g != NULL, "a state"); d = dump(g); { char *e = dump(st); SAME(d, e, "the current state"); g_free(e); } g_free(d); free_network_state(g);
	for (k = n > 200 ? 5 : 0; k < 6; k++) {
		int x = ns ? ND_BELOW(ns) : 0, y = ns ? ND_BELOW(ns) : 0; linestack_marker f = NULL, t = NULL; a = 0; b = nrec; if (ns && ND_BOOL()) { f = sn[x].m; a = sn[x].at; } if (ns && ND_BOOL()) { t = sn[y].m; b = sn[y].at; } if (b < a) b = a;
		memset(&tr, 0, sizeof tr); tr.at = a; VASSERT(linestack_traverse(ctx, f, t, hnd, &tr) && !tr.bad && tr.n == b - a, "all lines between the markers, in order");
		if (b > a) { memset(&tr, 0, sizeof tr); tr.at = a; tr.stop = 1 + ND_BELOW(b - a); VASSERT(!linestack_traverse(ctx, f, t, hnd, &tr) && !tr.bad && tr.n == tr.stop, "stops when told"); }
		{ const char *o = ND_BOOL() ? ch() : nk(); int want = 0; for (i = a; i < b; i++) want += names(rec[i], o); memset(&tr, 0, sizeof tr); tr.at = a; tr.obj = o; VASSERT(linestack_traverse_object(ctx, o, f, t, hnd, &tr) && !tr.bad && tr.n == want, "the object's lines, in order");
		  mode = ND_BELOW(4); memset(&snd, 0, sizeof snd); snd.at = a; refuse = 0; if (ND_BOOL()) snd.obj = o; off = 0; for (i = a, want = 0; i < b; i++) { struct irc_line *p = irc_parse_line(rec[i]); int txt = (!strcmp(p->args[0], "PRIVMSG") || !strcmp(p->args[0], "NOTICE")) && p->argc > 2; free_line(p); want += (!(mode & 1) || txt) && (!snd.obj || names(rec[i], o)); }
		  VASSERT((snd.obj ? linestack_send_object(ctx, o, f, t, (void *)&snd, mode & 1, (mode & 2) != 0, 0) : linestack_send(ctx, f, t, (void *)&snd, mode & 1, (mode & 2) != 0, 0)) && !snd.bad && snd.n == want, "sent"); }
	}
	{ guint64 z = nrec + 1 + ND_BELOW(50); memset(&tr, 0, sizeof tr); tr.at = nrec; VASSERT(linestack_get_state(ctx, &z) == NULL, "no state for a marker of something else"); VASSERT(linestack_traverse(ctx, &z, NULL, hnd, &tr) && tr.n == 0, "no lines either"); z = 0; if (0) linestack_free_marker(&z); }
	for (k = 0; k < ns; k++) { linestack_free_marker(sn[k].m); g_free(sn[k].d); } for (i = 0; i < nrec; i++) g_free(rec[i]);
	free_linestack_context(ctx); free_network_state(st); rmtree(dir);
}
VP_HARNESS(history) { body(1 + ND_BELOW(120)); }
VP_HARNESS(longhistory) { body(1000 + ND_BELOW(1200)); }
VP_HARNESS(damage)
{
	struct linestack_context *ctx; struct irc_network_state *st = network_state_init("me", "u", "h"), *g; int i, n = ND_BELOW(30); struct irc_line *l; char *p, *c; gsize len; strcpy(dir, "/tmp/vp-ls-XXXXXX"); VASSUME(mkdtemp(dir)); ctx = create_linestack(dir, TRUE, st); VASSUME(ctx);
	for (i = 0; i < n; i++) { char *s = mk(); l = irc_parse_line(s); g_free(s); state_handle_data(st, l); VASSERT(linestack_insert_line(ctx, l, FROM_SERVER, st), "accepted"); free_line(l); } VASSERT(linestack_insert_state(ctx, st), "stored");
	p = g_strdup_printf("%s/states/%d", dir, (int)*(linestack_marker)(c = (char *)linestack_get_marker(ctx))); g_free(c); VASSUME(g_file_get_contents(p, &c, &len, NULL) && len > 0); i = ND_BELOW(len); if (ND_BOOL()) len = i; else { int k = 1 + ND_BELOW(8); for (; k > 0 && i < (int)len; k--, i++) c[i] = ND_BOOL() ? '\n' : ' ' + ND_BELOW(90); } VASSUME(g_file_set_contents(p, c, len, NULL)); g_free(c); g_free(p);
	g = linestack_get_state(ctx, NULL); free_network_state(g); { struct tr tr; memset(&tr, 0, sizeof tr); (void)tr; }
	free_linestack_context(ctx); free_network_state(st); rmtree(dir);
}
