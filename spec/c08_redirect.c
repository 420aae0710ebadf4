/* C08: reply routing (libirc/redirect.c, src/redirect.c) under contract. */
#include "vp.h"
#include "internals.h"
#include "irc.h"
unsigned char vp_byte;
static int clit(const char *a, const char *s) { size_t i; for (i = 0; i < 16; i++) { char x = a[i], y = s[i]; if (x >= 'A' && x <= 'Z') x += 32; if (y >= 'A' && y <= 'Z') y += 32; if (x != y) return 0; if (!y) return 1; } return 0; }
static struct query_stack S; static struct irc_line L; static char *LA[4]; static char A0[17], A1[2], A2[2]; static char U1[2], U2[2];
static const struct row { const char *name; int r[20], e[20], x[20]; int topic; } T[] = {
#include "redirect_table.h"
};
#define NT (int)(sizeof T / sizeof *T)
static int has(const int *v, int n) { int i; for (i = 0; i < 20; i++) { if (!v[i]) return 0; if (v[i] == n) return 1; } return 0; }
#undef g_free
#define g_free vp_free

#ifdef P_REPLY
void vp_free(void *p) { }
#include "libirc/redirect.c"
void H(void)
{
	static int V[20]; int n, i, w = 0, r; __CPROVER_havoc_object(V); __CPROVER_assume(n != 0);
	r = is_reply(V, n);
	__CPROVER_assert(r == has(V, n), "VP listed before the end of the list");
	VREACH("is_reply");
}
#endif

#ifdef P_FIND
void vp_free(void *p) { }
int base_strcmp(const char *a, const char *b) { return !clit(b == A0 ? a : b, A0); }
#include "libirc/redirect.c"
void H(void)
{
	struct query *q; int i, k; __CPROVER_havoc_object(A0); A0[16] = 0;
	q = find_query(A0);
	for (k = -1, i = 0; i < NT - 1; i++) if (k < 0 && clit(T[i].name, A0)) k = i;
	__CPROVER_assert(k < 0 ? q == NULL : q != NULL && clit(q->name, A0), "VP the row of the command, whatever its case, and no other");
	VREACH("find_query");
}
#endif
#ifdef P_TABLE
void vp_free(void *p) { }
int base_strcmp(const char *a, const char *b) { return !clit(a, b); }
#include "libirc/redirect.c"
void H(void)
{
	int i, n; struct query *q; __CPROVER_assume(n != 0);
	for (i = 0; i < NT; i++) {
		q = T[i].name ? find_query((char *)T[i].name) : &unknown_query;
		__CPROVER_assert(q != NULL, "VP command known");
		__CPROVER_assert(is_reply(q->replies, n) == has(T[i].r, n), "VP in-between replies of the command");
		__CPROVER_assert(is_reply(q->end_replies, n) == has(T[i].e, n), "VP closing replies of the command");
		__CPROVER_assert(is_reply(q->errors, n) == has(T[i].x, n), "VP errors of the command");
		__CPROVER_assert(q->handle == (T[i].topic ? handle_topic : handle_default), "VP way of recording");
	}
	VREACH("queries");
}
#endif

#ifdef P_DEFAULT
static struct query_stack_entry *Gnew; int Gref, Gapp; static GList OLDL, NEWL; static struct query Q;
void vp_free(void *p) { __CPROVER_assert(0, "VP frees nothing"); }
void vp_ref(void *u) { __CPROVER_assert(u == U1 && Gref == 0, "VP the asking client is referenced"); Gref = 1; }
GList *vp_append(GList *l, void *d) { __CPROVER_assert(l == &OLDL && Gapp == 0 && d != NULL, "VP added at the end of the pending queries"); Gapp = 1; Gnew = d; return &NEWL; }
#define g_list_append vp_append
#include "libirc/redirect.c"
void H(void)
{
	Gref = Gapp = 0; S.entries = &OLDL; S.ref_userdata = vp_ref; S.unref_userdata = NULL; L.args = LA; L.argc = 1; LA[0] = A0;
	handle_default(&L, &S, U1, &Q);
	__CPROVER_assert(Gref == 1 && Gapp == 1 && S.entries == &NEWL && Gnew->userdata == U1 && Gnew->query == &Q, "VP one query of this client and command");
	VREACH("handle_default");
}
#endif

#ifdef P_RECORD
static struct query Q; int Gknown, Ghandled, Gunk;
void vp_free(void *p) { }
static int vp_handle(const struct irc_line *l, struct query_stack *s, void *u, struct query *q) { __CPROVER_assert(l == &L && s == &S && u == U1 && q == &Q, "VP recorded for this client and command"); Ghandled++; return 1; }
static int handle_default(const struct irc_line *l, struct query_stack *s, void *u, struct query *q) { __CPROVER_assert(l == &L && s == &S && u == U1, "VP recorded for this client"); if (q->name == NULL) Gunk++; else Ghandled++; return 1; }
static struct query *find_query(char *n) { __CPROVER_assert(n == A0, "VP looks up the command"); return Gknown ? &Q : NULL; }
#include "libirc/redirect.c"
void H(void)
{
	gboolean r; _Bool k; size_t n; Gknown = k ? 1 : 0; Ghandled = Gunk = 0; Q.handle = vp_handle; L.args = LA; LA[0] = A0;
	r = query_stack_record(&S, U1, &L);
	__CPROVER_assert(Gknown ? r && Ghandled == 1 && !Gunk : !r && Gunk == 1 && !Ghandled, "VP recorded once, unknown commands as such");
	/* TOPIC: a change of topic is no question */
	__CPROVER_assume(n >= 1 && n < 4); L.argc = n; LA[1] = n > 1 ? A1 : NULL; LA[2] = n > 2 ? A2 : NULL; LA[n] = NULL; Ghandled = 0; Q.name = "TOPIC";
	handle_topic(&L, &S, U1, &Q);
	__CPROVER_assert(Ghandled == (n <= 2), "VP only a question about the topic is recorded");
	VREACH("query_stack_record");
}
#endif

#ifdef P_FREEENTRY
static struct query_stack_entry SE; int Gun, Gfr;
void vp_free(void *p) { __CPROVER_assert(p == &SE && Gun == 1 && Gfr == 0, "VP frees the entry, last"); Gfr = 1; }
void vp_unref(void *u) { __CPROVER_assert(u == U1 && Gun == 0, "VP drops the reference to the client"); Gun = 1; }
#include "libirc/redirect.c"
void H(void) { Gun = Gfr = 0; S.unref_userdata = vp_unref; SE.userdata = U1; query_stack_free_entry(&S, &SE); __CPROVER_assert(Gun == 1 && Gfr == 1, "VP reference dropped and entry freed"); VREACH("query_stack_free_entry"); }
#endif

#ifdef P_MATCH
#include "lists.h"
static struct query QA, QB; static struct query_stack_entry EA, EB; int Ra, Ea, Xa, Rb, Eb, Xb, Gn; struct query_stack_entry *Grem, *Gfree; static GList NEWL;
void vp_free(void *p) { }
int vp_atoi(const char *s) { __CPROVER_assert(s == A0, "VP numeric of the reply"); return Gn; }
#define atoi vp_atoi
static int is_reply(const int *v, int r)
{
	__CPROVER_assert(r == Gn, "VP looks for this numeric");
	if (v == QA.replies) return Ra; if (v == QA.end_replies) return Ea; if (v == QA.errors) return Xa;
	if (v == QB.replies) return Rb; if (v == QB.end_replies) return Eb;
	__CPROVER_assert(v == QB.errors, "VP a list of numerics of a pending query"); return Xb;
}
GList *vp_remove(GList *l, const void *d) { __CPROVER_assert(l == Ghead && Grem == NULL, "VP one query is removed"); Grem = (void *)d; return &NEWL; }
#define g_list_remove vp_remove
static void query_stack_free_entry(struct query_stack *s, struct query_stack_entry *e) { __CPROVER_assert(s == &S && e == Grem && Gfree == NULL, "VP the removed query is freed"); Gfree = e; }
#include "libirc/redirect.c"
void H(void)
{
	void *r; _Bool a, b, c, d, e, f; int n; size_t ac; vp_list(&EA, &EB); Gn = n; EA.query = &QA; EB.query = &QB; EA.userdata = U1; EB.userdata = U2;
	Ra = a ? 1 : 0; Ea = b ? 1 : 0; Xa = c ? 1 : 0; Rb = d ? 1 : 0; Eb = e ? 1 : 0; Xb = f ? 1 : 0; Grem = Gfree = NULL; S.entries = Ghead; L.args = LA; LA[0] = A0; L.argc = ac; __CPROVER_assume(ac >= 1);
	r = query_stack_match_response(&S, &L);
	if (r == NULL) __CPROVER_assert(ALLSEEN && (!seenA || !MA) && (!seenB || !MB) && !Grem && S.entries == Ghead, "VP no pending query can have this reply");
	else if (r == U1) __CPROVER_assert(MA && (!seenB || !MB) && Grem == (Ra ? NULL : &EA) && Gfree == Grem && S.entries == (Ra ? Ghead : &NEWL), "VP oldest query; removed exactly when the reply closes it");
	else __CPROVER_assert(r == U2 && MB && (!seenA || !MA) && Grem == (Rb ? NULL : &EB) && Gfree == Grem && S.entries == (Rb ? Ghead : &NEWL), "VP oldest query; removed exactly when the reply closes it");
	VREACH("query_stack_match_response");
}
#endif

#ifdef P_CLEAR
static GList C1; static struct query_stack_entry E1; struct query_stack_entry *Grem; int Nrem, Nfree; unsigned Left;
void vp_free(void *p) { __CPROVER_assert(p == &S && S.entries == NULL, "VP the stack itself, once empty"); Nfree = -1; }
GList *vp_remove(GList *l, const void *d) { _Bool more; __CPROVER_assert(l == &C1 && d == &E1 && !Nrem, "VP the first query is removed"); Nrem = 1; Left--; return Left ? &C1 : NULL; }
#define g_list_remove vp_remove
static void query_stack_free_entry(struct query_stack *s, struct query_stack_entry *e) { __CPROVER_assert(s == &S && e == &E1 && Nrem == 1, "VP a removed query is freed"); Nrem = 0; }
#include "libirc/redirect.c"
void H(void)
{
	unsigned n; Left = n; C1.data = &E1; Nrem = Nfree = 0; S.entries = Left ? &C1 : NULL;
	query_stack_clear(&S);
	__CPROVER_assert(S.entries == NULL && Left == 0 && Nrem == 0, "VP nothing is left pending");
	VREACH("query_stack_clear");
}
#endif

#ifdef P_SEND
static struct irc_network N; static struct irc_client CL; static GList CS; int Gm, Gn, One, All, Logs;
void vp_free(void *p) { }
int vp_atoi(const char *s) { __CPROVER_assert(s == A0, "VP numeric of the reply"); return Gn; }
#define atoi vp_atoi
void *query_stack_match_response(struct query_stack *s, const struct irc_line *l) { __CPROVER_assert(s == &S && l == &L, "VP matched once"); return Gm ? &CL : NULL; }
gboolean client_send_line(struct irc_client *c, const struct irc_line *l, GError **e) { __CPROVER_assert(c == &CL && l == &L, "VP the client that asked"); One++; _Bool r; return r; }
void clients_send(GList *c, const struct irc_line *l, const struct irc_client *x) { __CPROVER_assert(c == &CS && l == &L && x == NULL, "VP every client of the network"); All++; }
void vp_log(enum log_level l, const struct irc_network *n, const char *f, ...) { }
#define network_log vp_log
guint vp_len(GList *l) { guint n; return n; }
#define g_list_length vp_len
#include "src/redirect.c"
static const int resp_all[] = { 306, 305, 487, 396, 477, 221, 8, 251, 252, 253, 254, 255, 265, 266, 353, 366, 332, 333, 328, 329, 901, 0 };
static const int resp_none[] = { 422, 375, 372, 376, 0 }, resp_own[] = { 464, 462, 463, 451, 465, 0 };
static int hz(const int *v, int n) { int i; for (i = 0; v[i]; i++) if (v[i] == n) return 1; return 0; }
void H(void)
{
	_Bool m; int n; gboolean r; Gm = m ? 1 : 0; Gn = n; __CPROVER_assume(n != 0); One = All = 0; N.clients = &CS; L.args = LA; LA[0] = A0; LA[1] = NULL; L.argc = 1;
	r = redirect_response(&S, &N, &L);
	if (Gm) __CPROVER_assert(r && One == 1 && All == 0, "VP only the client that asked");
	else if (hz(resp_all, n)) __CPROVER_assert(!r && All == 1 && !One, "VP shared state goes to all");
	else if (hz(resp_none, n) || hz(resp_own, n)) __CPROVER_assert(r && !All && !One, "VP not for clients");
	else __CPROVER_assert(!r && All == 1 && !One, "VP unclaimed reply goes to all");
	VREACH("redirect_response");
}
#endif
