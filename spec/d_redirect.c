/* C08: reply routing against a model of the pending queries. Stand-ins for
 * client_send_line and clients_send record who was sent what. */
#include "vp.h"
#include "internals.h"
#include "irc.h"
static const struct row { const char *name; int r[20], e[20], x[20]; int topic; } T[] = {
#include "redirect_table.h"
};
#define NT (int)(sizeof T / sizeof *T)
static int has(const int *v, int n) { for (; *v; v++) if (*v == n) return 1; return 0; }
static int produces(int t, int n) { return has(T[t].r, n) || has(T[t].e, n) || has(T[t].x, n); }
static struct irc_client CL[3]; static int refs[3], sent_one, sent_all; static struct irc_client *sent_to; static const struct irc_line *sent_line; static GList *all_list;
static void ref(void *p) { if (p) refs[(struct irc_client *)p - CL]++; }
static void unref(void *p) { if (p) refs[(struct irc_client *)p - CL]--; }
static struct irc_network_callbacks CB; static void nolog(enum log_level l, const void *n, const char *d) { }
gboolean __wrap_client_send_line(struct irc_client *c, const struct irc_line *l, GError **e) { VASSERT(c >= CL && c < CL + 3, "sent to a client"); sent_one++; sent_to = c; sent_line = l; return TRUE; }
void __wrap_clients_send(GList *cl, const struct irc_line *l, const struct irc_client *except) { sent_all++; VASSERT(except == NULL && cl == all_list, "sent to every client of the network"); sent_line = l; }
static struct { int c, t; } Q[64]; static int nq;
static struct irc_line *mk(const char *cmd, int extra)
{
	struct irc_line *l = g_new0(struct irc_line, 1); int i;
	l->args = g_new0(char *, extra + 2); l->args[0] = g_strdup(cmd); for (i = 0; i < extra; i++) l->args[i + 1] = g_strdup("x"); l->argc = extra + 1; return l;
}
static int find_t(const char *n) { int i; for (i = 0; i < NT - 1; i++) if (!strcmp(T[i].name, n)) return i; return NT - 1; }
static void record(struct query_stack *s, int c, int t, int extra, int lower)
{
	char b[40]; struct irc_line *l; int i; gboolean r;
	strcpy(b, T[t].name ? T[t].name : "FOOBAR"); if (lower) for (i = 0; b[i]; i++) b[i] = tolower(b[i]);
	l = mk(b, extra); r = query_stack_record(s, c < 3 ? &CL[c] : NULL, l);
	vp_note("client %d: %s with %d arguments\n", c, b, extra);
	VASSERT(!!r == (T[t].name != NULL), "known command");
	if (!(T[t].topic && extra > 1)) { Q[nq].c = c; Q[nq++].t = t; }
	free_line(l);
}
static void check(struct query_stack *s)
{
	int i, k, n = 0; GList *gl = s->entries; int rc[4] = { 0 };
	for (i = 0; i < nq; i++, gl = gl->next) {
		struct query_stack_entry *e = gl ? gl->data : NULL;
		VASSERT(e, "pending query kept");
		VASSERT(e->userdata == (Q[i].c < 3 ? &CL[Q[i].c] : NULL), "query belongs to its client, in order");
		VASSERT(T[Q[i].t].name ? e->query->name && !strcmp(e->query->name, T[Q[i].t].name) : !e->query->name, "query of its command"); rc[Q[i].c]++;
	}
	VASSERT(!gl, "answered query is gone");
	for (k = 0; k < 3; k++) VASSERT(refs[k] == rc[k], "one reference for each pending query");
}
static int model_match(int n) { int i, c; for (i = 0; i < nq; i++) if (produces(Q[i].t, n)) { c = Q[i].c; if (!has(T[Q[i].t].r, n)) { memmove(Q + i, Q + i + 1, (nq - i - 1) * sizeof *Q); nq--; } return c; } return 9; }
static void init(void) { nq = 0; memset(refs, 0, sizeof refs); sent_one = sent_all = 0; sent_to = NULL; }
/* every command with every numeric */
VP_HARNESS(redirect_table)
{
	struct query_stack *s = new_query_stack(ref, unref); int t = ND_BELOW(NT), n, m, c; char b[8]; struct irc_line *l; void *r;
	init(); 
	for (n = 1; n < 1000; n++) {
		record(s, 1, t, ND_BELOW(1), 0);
		sprintf(b, "%03d", n); l = mk(b, 2); vp_note("reply %s\n", b);
		r = query_stack_match_response(s, l); c = model_match(n);
		VASSERT(r == (c == 9 ? NULL : &CL[c]), "answer to the query that can have it");
		check(s); free_line(l); query_stack_clear(s); nq = 0; check(s);
	}
	query_stack_free(s);
}
static int pick_num(void)
{
	int t, k, n; static const int misc[] = { 1, 2, 5, 311, 401, 353, 366, 332, 333, 422, 372, 464, 462, 463, 451, 465, 999, 301, 461, 403, 396, 265, 901, 328, 329, 8 };
	if (ND_BELOW(3) == 0) return misc[ND_BELOW(26)];
	if (nq && ND_BELOW(5)) t = Q[ND_BELOW(nq)].t; else t = ND_BELOW(NT);
	k = ND_BELOW(3); n = ND_BELOW(16); { const int *v = k == 0 ? T[t].r : k == 1 ? T[t].e : T[t].x; while (n && v[n] == 0) n--; return v[n] ? v[n] : 263; }
}
VP_HARNESS(redirect_history)
{
	struct query_stack *s = new_query_stack(ref, unref); int n, c; char b[8]; struct irc_line *l;
	static const char *pop[] = { "WHOIS", "WHO", "NAMES", "MODE", "TOPIC", "PRIVMSG", "LIST", "INVITE" };
	init();
	for (n = 1 + ND_BELOW(14); n > 0; n--) switch (ND_BELOW(12)) {
	case 0: query_stack_clear(s); nq = 0; break;
	case 1: case 2: case 3: case 4: case 5: record(s, ND_BELOW(4), ND_BOOL() ? find_t(pop[ND_BELOW(8)]) : (int)ND_BELOW(NT), ND_BELOW(4), ND_BELOW(3) == 0); break;
	default: { int num = pick_num(); void *r; sprintf(b, "%03d", num); l = mk(b, ND_BELOW(3)); vp_note("reply %s\n", b);
		r = query_stack_match_response(s, l); c = model_match(num);
		VASSERT(r == (c >= 3 ? NULL : &CL[c]), "oldest query that can have it"); free_line(l); }
	}
	check(s); query_stack_free(s); nq = 0; { int k; for (k = 0; k < 3; k++) VASSERT(refs[k] == 0, "references dropped"); }
}
static const int resp_all[] = { 306, 305, 487, 396, 477, 221, 8, 251, 252, 253, 254, 255, 265, 266, 353, 366, 332, 333, 328, 329, 901, 0 };
static const int resp_none[] = { 422, 375, 372, 376, 0 }, resp_own[] = { 464, 462, 463, 451, 465, 0 };
static int quiet;
VP_HARNESS(redirect_send)
{
	struct global G; struct irc_network N; struct query_stack *s = new_query_stack(ref, unref); int k, n, c; char b[8]; GList gl[3];
	memset(&G, 0, sizeof G); memset(&N, 0, sizeof N); N.global = &G; N.name = "net"; CB.log = (void *)nolog; N.callbacks = &CB; init();
	n = ND_BELOW(3); for (k = 0; k < n; k++) { gl[k].data = &CL[k]; gl[k].prev = NULL; gl[k].next = k + 1 < n ? &gl[k + 1] : NULL; }
	N.clients = all_list = n ? gl : NULL;
	for (n = 1 + ND_BELOW(8); n > 0; n--) {
		struct irc_line *l; gboolean r; int num;
		if (ND_BOOL()) { record(s, ND_BELOW(4), ND_BELOW(NT), ND_BELOW(3), 0); continue; }
		num = ND_BELOW(3) ? pick_num() : (int)(1 + ND_BELOW(999)); sprintf(b, "%03d", num); l = mk(b, 1 + ND_BELOW(2)); vp_note("reply %s\n", b);
		sent_one = sent_all = 0; sent_to = NULL; r = redirect_response(s, &N, l); c = model_match(num);
		if (c < 3) VASSERT(r && sent_one == 1 && !sent_all && sent_to == &CL[c] && sent_line == l, "reply goes to the client that asked, and to no other");
		else if (has(resp_all, num)) VASSERT(!r && !sent_one && sent_all == 1, "shared state goes to all");
		else if (has(resp_none, num) || has(resp_own, num)) VASSERT(r && !sent_one && !sent_all, "not for clients");
		else VASSERT(!r && !sent_one && sent_all == 1, "unclaimed reply goes to all");
		check(s); free_line(l);
	}
	query_stack_free(s); nq = 0; check(&(struct query_stack){ 0 });
}
