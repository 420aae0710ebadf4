/* C16: NickServ passwords learned, used, saved and loaded for two networks. */
#define _GNU_SOURCE
#include "vp.h"
#include "internals.h"
#include "irc.h"
#include "keyfile.h"
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <stdio.h>
#include <stdlib.h>
static GString *sent; static struct irc_network N[2]; static struct global G; static struct ctrlproxy_config CFG;
struct ent { char nick[8], net[8], pass[12]; }; static struct ent M[60]; static int nm;
static void lg(enum log_level l, const struct irc_network *n, const char *m) { }
static struct irc_network_callbacks CB = { .log = lg };
gboolean __wrap_network_send_args(struct irc_network *s, ...)
{
	va_list ap; char *a, *args[6]; int n = 0; struct irc_line L; va_start(ap, s); while ((a = va_arg(ap, char *)) && n < 5) args[n++] = g_strdup(a); va_end(ap); args[n] = NULL; memset(&L, 0, sizeof L); L.args = args; L.argc = n; g_string_append_printf(sent, "%d", (int)(s - N)); { int i; for (i = 0; i < n; i++) g_string_append_printf(sent, "|%s", args[i]); } g_string_append_c(sent, '\n');
	VASSERT(run_server_filter(s, &L, TO_SERVER), "what is sent isn't stopped"); { int i; for (i = 0; i < n; i++) g_free(args[i]); } return TRUE;
}
static int lw(int c, int ascii) { if (c >= 'A' && c <= 'Z') return c + 32; if (!ascii && c >= '[' && c <= '^') return c + 32; return c; }
static int same(const char *a, const char *b, int ascii) { for (; lw(*a, ascii) == lw(*b, ascii); a++, b++) if (!*a) return 1; return 0; }
static int pre(const char *a, const char *b, int ascii) { for (; *b; a++, b++) if (lw(*a, ascii) != lw(*b, ascii)) return 0; return 1; }
static int spec(int n, const char *nick) { int i; for (i = 0; i < nm; i++) if (M[i].net[0] && same(M[i].net, N[n].name, 1) && same(M[i].nick, nick, n)) return i; return -1; }
static const char *find(int n, const char *nick) { int i = spec(n, nick); if (i >= 0) return M[i].pass; for (i = 0; i < nm; i++) if (!M[i].net[0] && same(M[i].nick, nick, n)) return M[i].pass; return NULL; }
static void learn(int n, const char *nick, const char *p) { const char *o = find(n, nick); int i; if (!CFG.learn_nickserv || (o && !strcmp(o, p))) return; i = spec(n, nick); if (i < 0) { memmove(M + 1, M, sizeof M[0] * nm); nm++; i = 0; strcpy(M[0].nick, nick); strcpy(M[0].net, N[n].name); } strcpy(M[i].pass, p); }
static void chk(void) { int i; GList *l; for (i = 0, l = G.nickserv_nicks; l; l = l->next, i++) { struct keyfile_entry *e = l->data; vp_note("have %s %s %s, want %s %s %s\n", e->nick, e->network ? e->network : "*", e->pass, i < nm ? M[i].nick : "-", i < nm ? M[i].net : "-", i < nm ? M[i].pass : "-"); VASSERT(i < nm && !strcmp(e->nick, M[i].nick) && !strcmp(e->pass, M[i].pass) && !strcmp(e->network ? e->network : "", M[i].net), "what is known is what was learned"); } VASSERT(i == nm, "nothing is forgotten"); }
static void clr(void) { while (G.nickserv_nicks) { struct keyfile_entry *e = G.nickserv_nicks->data; g_free(e->nick); g_free(e->pass); g_free(e->network); g_free(e); G.nickserv_nicks = g_list_delete_link(G.nickserv_nicks, G.nickserv_nicks); } }
const char *nickserv_find_nick(struct irc_network *n, const char *nick);
VP_HARNESS(nickserv)
{
	static int init; static char att[20]; static int hasatt; char dir[] = "/tmp/vp-ns-XXXXXX", fn[64]; int k, steps = 3 + ND_BELOW(30), i; static struct irc_network_info INFO[2]; static struct irc_network_state ST[2]; static const char *nicks[] = { "joe", "Joe", "ann", "x[", "X{" }, *nets[] = { "alpha", "beta" }, *pw[] = { "pa", "pb", "Pa", "p c", "" };
	if (!init) { init_nickserv(); init = 1; } sent = g_string_new(NULL); nm = 0; memset(&G, 0, sizeof G); memset(&CFG, 0, sizeof CFG); G.config = &CFG; VASSUME(mkdtemp(dir)); CFG.config_dir = dir; CFG.learn_nickserv = ND_BELOW(4) != 0; sprintf(fn, "%s/nickserv", dir);
	{ struct irc_line L; char *a[2] = { "NICK", NULL }; memset(&L, 0, sizeof L); L.args = a; L.argc = 1; memset(N, 0, sizeof N); N[0].global = &G; run_server_filter(&N[0], &L, TO_SERVER); hasatt = 0; }
	for (i = 0; i < 2; i++) { memset(&INFO[i], 0, sizeof INFO[i]); memset(&ST[i], 0, sizeof ST[i]); N[i].name = (char *)nets[i]; N[i].info = &INFO[i]; N[i].external_state = &ST[i]; ST[i].info = &INFO[i]; N[i].global = &G; N[i].callbacks = &CB; INFO[i].casemapping = i ? CASEMAP_ASCII : CASEMAP_RFC1459; ST[i].me.nick = (char *)nicks[ND_BELOW(5)]; }
	if (ND_BOOL()) { FILE *f = fopen(fn, "w"); int n = ND_BELOW(4); VASSUME(f); if (ND_BOOL()) fprintf(f, "# comment\tx\ty\n"); for (i = 0; i < n; i++) { struct ent *e = &M[nm++]; strcpy(e->nick, nicks[ND_BELOW(5)]); strcpy(e->pass, pw[ND_BELOW(4)]); strcpy(e->net, ND_BELOW(3) ? nets[ND_BELOW(2)] : ""); fprintf(f, "%s\t%s\t%s\n", e->nick, e->pass, e->net[0] ? e->net : "*"); } fclose(f); VASSERT(nickserv_load(&G), "loaded"); } else VASSERT(!nickserv_load(&G), "no file");
	chk();
	for (k = 0; k < steps; k++) {
		struct irc_line L; char *a[5] = { NULL }, txt[40]; int n = ND_BELOW(2), argc = 0, dir_ = TO_SERVER; const char *nick = nicks[ND_BELOW(5)], *p = pw[ND_BELOW(5)], *fp; GString *want = g_string_new(NULL); g_string_truncate(sent, 0); memset(&L, 0, sizeof L); L.args = a;
		switch (ND_BELOW(9)) {
		case 0: a[argc++] = ND_BOOL() ? "NICK" : "nick"; if (ND_BELOW(8)) a[argc++] = (char *)nick; hasatt = argc > 1; if (hasatt) strcpy(att, nick); break;
		case 1: dir_ = FROM_SERVER; a[argc++] = "NICK"; if (ND_BELOW(8)) a[argc++] = (char *)nick; ST[n].me.nick = (char *)nick; if (argc > 1 && hasatt && same(att, nick, n) && !ST[n].me.modes['R'] && (fp = find(n, nick))) g_string_append_printf(want, "%d|PRIVMSG|NickServ|IDENTIFY %s\n", n, fp), learn(n, nick, fp); break;
		case 2: case 3: a[argc++] = (char *)(const char *[]){ "PRIVMSG", "privmsg", "NOTICE", "PRIVMSG" }[ND_BELOW(4)]; { const char *to = (const char *[]){ "NickServ", "nickserv", "ChanServ", "NickServ" }[ND_BELOW(4)]; const char *w = (const char *[]){ "IDENTIFY ", "identify ", "IDENTIFY", "INFO ", "IDENTIFY " }[ND_BELOW(5)]; int c = ND_BELOW(8); if (c) a[argc++] = (char *)to; sprintf(txt, "%s%s", w, p); if (c > 1) a[argc++] = txt; if (argc == 3 && same(to, "nickserv", 1) && pre(txt, "identify ", 1)) learn(n, ST[n].me.nick, p = txt + 9); } break;
		case 4: a[argc++] = ND_BOOL() ? "NS" : "ns"; { const char *w = ND_BELOW(4) ? "IDENTIFY" : "INFO"; int c = ND_BELOW(8); if (c) a[argc++] = (char *)w; if (c > 1) a[argc++] = (char *)p; if (argc == 3 && w[1] == 'D') learn(n, ST[n].me.nick, p); } break;
		case 5: dir_ = FROM_SERVER; a[argc++] = ND_BELOW(4) ? "433" : "432"; a[argc++] = "*"; a[argc++] = (char *)nick; if (a[0][2] == '3' && hasatt && (fp = find(n, att))) g_string_append_printf(want, "%d|PRIVMSG|NickServ|GHOST %s %s\n%d|NICK|%s\n", n, att, fp, n, att); break;
		case 6: dir_ = FROM_SERVER; a[argc++] = "PRIVMSG"; a[argc++] = "NickServ"; a[argc++] = "IDENTIFY secret"; break;
		case 7: ST[n].me.modes['R'] = ND_BOOL(); ST[n].me.nick = (char *)nick; if (!ST[n].me.modes['R'] && (fp = find(n, nick))) g_string_append_printf(want, "%d|PRIVMSG|NickServ|IDENTIFY %s\n", n, fp); nickserv_identify_me(&N[n], (char *)nick); break;
		default: { int j, bad = 0; for (j = 0; j < nm; j++) if (!M[j].pass[0] && 0) bad = 1; (void)bad; } VASSERT(nickserv_save(&G, dir), "saved"); VASSERT((access(fn, F_OK) == 0) == (nm > 0), "no file if there is nothing to save"); clr(); if (nm) VASSERT(nickserv_load(&G), "loaded again"); break;
		}
		L.argc = argc; if (argc) { vp_note("%d %s %s %s %s\n", n, dir_ == TO_SERVER ? "to" : "from", a[0], a[1] ? a[1] : "-", argc > 2 ? a[2] : "-"); VASSERT(run_server_filter(&N[n], &L, dir_), "lines aren't stopped"); }
		vp_note("SENT %s WANT %s\n", sent->str, want->str); VASSERT(!strcmp(sent->str, want->str), "passwords go to NickServ on their own network only, when needed"); chk(); { const char *q = nickserv_find_nick(&N[n], nick), *w = find(n, nick); VASSERT((q != NULL) == (w != NULL) && (!q || !strcmp(q, w)), "the password for a nick"); } g_string_free(want, TRUE);
	}
	clr(); unlink(fn); rmdir(dir); g_string_free(sent, TRUE);
}
