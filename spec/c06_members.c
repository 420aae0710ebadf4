/* C06: membership handlers of libirc/state.c under contract. Channel and nick
 * lists in a message have any length (loop contracts); the lookups, record
 * creation and release they call are taken by the contracts proved for those
 * functions. Ghost variables (G...) record what was done for the current entry. */
#include "vp.h"
#include "internals.h"
#include "irc.h"
unsigned char vp_byte;
static struct irc_channel_state CH; static struct irc_network_state ST; static struct irc_network_info INFO; static struct irc_line L;
static struct channel_nick CN; static struct network_nick NNK, OLDN;
static char AR[8][2], NICK[2], ORIG[2], MENICK[2]; static char *GA[9];
#ifndef MAXN
#define MAXN 600
#endif
static char *GC[MAXN + 1], *GN[MAXN + 1]; size_t NC, NN_; int Gi, Gstage, Gbits;
int Gme, Gmk; 
#define g_free vp_free
#undef g_strdup
#define g_strdup vp_strdup
#define g_strfreev vp_freev
#define g_strsplit vp_split
#define g_list_append vp_append
#define g_list_remove vp_remove
#define g_list_length vp_length
void vp_freev(char **p) { }
char *line_get_nick(const struct irc_line *l) { __CPROVER_assert(l == &L && L.origin != NULL, "VP line_get_nick() needs an origin"); return NICK; }
char **vp_split(const char *s, const char *d, int n)
{
	__CPROVER_assert(n <= 0 && d[0] != 0 && d[1] == 0, "VP list is split completely");
#ifdef P_NAMREPLY
	__CPROVER_assert(s == GA[4] && d[0] == ' ', "VP names list"); return GN;
#else
	__CPROVER_assert(d[0] == ',' && (s == GA[1] || s == GA[2]), "VP comma separated lists");
	return s == GA[1] ? GC : GN;
#endif
}
static GList TOK; GList *Gl1, *Gl2; void *Gd1, *Gd2; int Gapp, Grem, Gfreed; void *Gfreedp;
#if !defined(P_FREECN) && !defined(P_FANN) && !defined(P_FAC)
void vp_free(void *p) { }
#endif
char *vp_strdup(const char *s) { return s == NULL ? NULL : (char *)s; }

#ifdef P_FACN
size_t LA, Gk, Gj, Gset; const char *Gname0; int Gexist; static struct channel_nick *Gnew; char Gmode; int Gmodeset;
#define PREF(c) ((c) == '@' || (c) == '+')
gboolean is_prefix(char p, const struct irc_network_info *n) { __CPROVER_assert(n == &INFO, "VP info"); return PREF(p); }
char get_mode_by_prefix(char p, const struct irc_network_info *n) { __CPROVER_assert(n == &INFO, "VP info"); return p == '@' ? 'o' : 0; }
struct channel_nick *find_channel_nick(struct irc_channel_state *c, const char *name) { __CPROVER_assert(c == &CH && name == Gname0 + Gk && *name != 0 && !PREF(*name), "VP looks for the nick without its prefixes"); return Gexist ? &CN : NULL; }
struct network_nick *find_add_network_nick(struct irc_network_state *n, const char *name) { __CPROVER_assert(n == &ST && name == Gname0 + Gk, "VP nick without its prefixes"); return &NNK; }
gboolean modes_change_mode(irc_modes_t modes, gboolean set, char m) { __CPROVER_assert(set == 1 && m == 'o' && Gj >= 1 && Gj <= Gk && Gname0[Gj - 1] == '@', "VP sets the mode of this prefix"); Gmodeset = 1; return 1; }
static GList T1, T2;
GList *vp_append(GList *l, gpointer d) { if (Gapp == 0) { Gl1 = l; Gd1 = d; Gapp++; return &T1; } __CPROVER_assert(Gapp == 1, "VP two lists"); Gl2 = l; Gd2 = d; Gapp++; return &T2; }
#include "libirc/state.c"
void H(void)
{
	size_t len; char *s; struct channel_nick *r; GList A, B; _Bool x, y;
	__CPROVER_assume(len < 1000000); s = g_malloc(len + 1); __CPROVER_assume(s[len] == 0);
	LA = len; Gname0 = s; Gk = Gj = 0; Gapp = 0; CH.network = &ST; ST.info = &INFO;
	CH.nicks = x ? &A : NULL; NNK.channel_nicks = y ? &B : NULL;
	r = find_add_channel_nick(&CH, s);
	__CPROVER_assert(!PREF(s[Gk]) && (s[Gk] == 0) == (r == NULL), "VP a record exactly when a nick is left after the prefixes");
	if (r == NULL || Gexist) __CPROVER_assert((r == NULL || r == &CN) && Gapp == 0, "VP no second record for a member");
	else {
		__CPROVER_assert(r != &CN && r->channel == &CH && r->global_nick == &NNK, "VP member record refers to the channel and the nick");
		__CPROVER_assert(Gapp == 2 && Gd1 == r && Gd2 == r, "VP record is on two lists");
		__CPROVER_assert((CH.nicks == &T1 && Gl1 == (x ? &A : NULL) && NNK.channel_nicks == &T2 && Gl2 == (y ? &B : NULL)) || (CH.nicks == &T2 && Gl2 == (x ? &A : NULL) && NNK.channel_nicks == &T1 && Gl1 == (y ? &B : NULL)), "VP on the channel's and on the nick's list");
		__CPROVER_assert(Gj == Gk, "VP every prefix was looked at");
	}
	VREACH("find_add_channel_nick");
}
#endif

#ifdef P_FREECN
int Glen, Gfnn; 
void vp_free(void *p) { if (p == NULL) return; if (p == &CN) { __CPROVER_assert(Gfreed == 0, "VP freed once"); Gfreed = 1; } }
GList *vp_remove(GList *l, gconstpointer d) { __CPROVER_assert(d == &CN && !Gfreed, "VP removes the member"); if (l == CH.nicks) { Grem |= 1; return &TOK; } __CPROVER_assert(l == NNK.channel_nicks, "VP from the nick's list"); Grem |= 2; return &TOK; }
guint vp_length(GList *l) { __CPROVER_assert((Grem & 2) && l == NNK.channel_nicks, "VP counts what is left"); return Glen; }
void free_network_nick(struct irc_network_state *st, struct network_nick *nn)
__CPROVER_requires(st == &ST && nn == &NNK && Gfnn == 0 && Grem == 3 && Glen == 0 && NNK.query == 0) __CPROVER_assigns(Gfnn) __CPROVER_ensures(Gfnn == 1);
#include "libirc/state.c"
void H(void)
{
	GList A, B; char *fl; int q; _Bool h;
	CH.network = &ST; CH.nicks = &A; NNK.channel_nicks = &B; NNK.query = q; CN.channel = &CH; CN.global_nick = &NNK; CN.last_flags = h ? AR[0] : NULL;
	__CPROVER_assume(Glen >= 0); Grem = 0; Gfreed = 0; Gfnn = 0;
	free_channel_nick(&CN);
	__CPROVER_assert(Grem == 3 && CH.nicks == &TOK && NNK.channel_nicks == &TOK && Gfreed == 1, "VP the member is gone from both lists");
	__CPROVER_assert(Gfnn == (Glen == 0 && q == 0), "VP a nick on no channel is forgotten unless queried");
	VREACH("free_channel_nick");
}
#endif

#ifdef P_FANN
int Gexist; void vp_free(void *p) { }
struct network_nick *find_network_nick(struct irc_network_state *n, const char *name) __CPROVER_requires(n == &ST && name == AR[0]) __CPROVER_assigns() __CPROVER_ensures(__CPROVER_return_value == (Gexist ? &NNK : NULL));
GList *vp_append(GList *l, gpointer d) { __CPROVER_assert(Gapp == 0, "VP added once"); Gapp = 1; Gl1 = l; Gd1 = d; return &TOK; }
#include "libirc/state.c"
void H(void)
{
	GList A; _Bool x; struct network_nick *r; ST.nicks = x ? &A : NULL; Gapp = 0;
	r = find_add_network_nick(&ST, AR[0]);
	if (Gexist) __CPROVER_assert(r == &NNK && Gapp == 0, "VP one record for each nick");
	else __CPROVER_assert(r != NULL && r != &NNK && r->nick == AR[0] && r->query == 0 && r->channel_nicks == NULL && Gapp == 1 && Gd1 == r && Gl1 == (x ? &A : NULL) && ST.nicks == &TOK, "VP a new record is on the list of nicks");
	VREACH("find_add_network_nick");
}
#endif
#ifdef P_FAC
int Gexist; void vp_free(void *p) { }
struct irc_channel_state *find_channel(struct irc_network_state *n, const char *name) __CPROVER_requires(n == &ST && name == AR[0]) __CPROVER_assigns() __CPROVER_ensures(__CPROVER_return_value == (Gexist ? &CH : NULL));
GList *vp_append(GList *l, gpointer d) { __CPROVER_assert(Gapp == 0, "VP added once"); Gapp = 1; Gl1 = l; Gd1 = d; return &TOK; }
#include "libirc/state.c"
void H(void)
{
	GList A; _Bool x; struct irc_channel_state *r; ST.channels = x ? &A : NULL; Gapp = 0;
	r = find_add_channel(&ST, AR[0]);
	if (Gexist) __CPROVER_assert(r == &CH && Gapp == 0, "VP one record for each channel");
	else __CPROVER_assert(r != NULL && r != &CH && r->name == AR[0] && r->network == &ST && r->nicks == NULL && r->topic == NULL && Gapp == 1 && Gd1 == r && Gl1 == (x ? &A : NULL) && ST.channels == &TOK, "VP a new record is on the list of channels");
	VREACH("find_add_channel");
}
#endif

#if defined(P_JOIN) || defined(P_PART) || defined(P_KICK) || defined(P_NAMREPLY) || defined(P_ENDNAMES) || defined(P_NICK) || defined(P_PRIVMSG)
static void setup(void)
{
	_Bool o; int k; size_t nc, nn; char *any;
	__CPROVER_havoc_object(GC); __CPROVER_havoc_object(GN); NC = nc; NN_ = nn;
	__CPROVER_assume(NC <= MAXN && GC[NC] == NULL && NN_ <= MAXN && GN[NN_] == NULL);
	for (k = 0; k < 8; k++) GA[k] = AR[k];
	ST.info = &INFO; ST.log = NULL; ST.me.nick = MENICK; ST.channels = &TOK;
	L.args = GA; L.origin = o ? ORIG : NULL; Gi = -1; Gstage = 0; CH.name = AR[7]; CH.network = &ST;
}
#endif
#ifdef P_JOIN
struct irc_channel_state *find_add_channel(struct irc_network_state *st, char *name) { __CPROVER_assert(Gstage == 0 && st == &ST && Gi >= 0 && name == GC[Gi], "VP this entry's channel"); Gstage = 1; return &CH; }
struct channel_nick *find_add_channel_nick(struct irc_channel_state *c, const char *name) { __CPROVER_assert(Gstage == 1 && c == &CH && name == NICK, "VP the sender becomes a member"); if (nondet_int()) { Gstage = 0; return NULL; } Gstage = 2; return &CN; }
gboolean network_nick_set_hostmask(struct network_nick *n, const char *hm) { __CPROVER_assert(Gstage == 2 && n == &NNK && hm == ORIG, "VP the sender's hostmask is learnt"); Gstage = 0; return nondet_int(); }
int irccmp(const struct irc_network_info *n, const char *a, const char *b) { return nondet_int(); }
#include "libirc/state.c"
void H(void)
{
	setup(); CN.global_nick = &NNK; handle_join(&ST, &L);
	__CPROVER_assert(Gstage == 0, "VP last entry done");
	__CPROVER_assert(L.origin != NULL ? GC[Gi + 1] == NULL : Gi == -1, "VP every channel named was handled, and none without an origin");
	VREACH("handle_join");
}
#endif

#ifdef P_PART
/* Gc/Gn: channel known / nick on it, for the current entry */
int Gc, Gn, Gfn, Gfc;
struct irc_channel_state *find_channel(struct irc_network_state *st, const char *name) { __CPROVER_assert(Gstage == 0 && st == &ST && Gi >= 0 && name == GC[Gi], "VP looks up this entry's channel"); Gstage = 1; Gn = Gfn = Gfc = 0; Gc = nondet_int() != 0; return Gc ? &CH : NULL; }
struct channel_nick *find_channel_nick(struct irc_channel_state *c, const char *name) { __CPROVER_assert(Gstage == 1 && Gc && c == &CH && name == NICK && Gn == 0, "VP looks up the sender"); if (nondet_int()) { Gn = 1; return &CN; } Gn = 2; return NULL; }
static void free_channel_nick(struct channel_nick *n) { __CPROVER_assert(n == &CN && Gn == 1 && Gfn == 0 && Gfc == 0, "VP removes the member found, once"); Gfn = 1; }
void free_channel_state(struct irc_channel_state *c) { __CPROVER_assert(c == &CH && Gc && Gfc == 0 && Gme && (Gn != 1 || Gfn == 1), "VP forgets the channel only when we leave it"); Gfc = 1; }
int irccmp(const struct irc_network_info *n, const char *a, const char *b) { __CPROVER_assert(n == &INFO && ((a == NICK && b == MENICK) || (b == NICK && a == MENICK)), "VP compares the sender with us"); return !Gme; }
#define PARTDONE (Gc ? (Gn != 0 && Gfn == (Gn == 1) && Gfc == Gme) : (Gfn == 0 && Gfc == 0))
#include "libirc/state.c"
void H(void)
{
	setup(); Gc = Gn = Gfn = Gfc = 0; Gme = nondet_int() != 0; handle_part(&ST, &L);
	__CPROVER_assert(PARTDONE, "VP last entry done");
	__CPROVER_assert(L.origin != NULL ? GC[Gi + 1] == NULL : Gi == -1, "VP every channel named was handled, and none without an origin");
	VREACH("handle_part");
}
#endif
#ifdef P_KICK
int Gc, Gn, Gfn, Gfc; int nondet_int(void);
/* callees: their contracts in executable form (precondition asserted, result arbitrary) */
struct irc_channel_state *find_channel(struct irc_network_state *st, const char *name) { __CPROVER_assert(Gstage == 0 && st == &ST && Gi >= 0 && name == GC[Gi], "VP looks up this entry's channel"); Gstage = 1; Gn = Gfn = Gfc = 0; Gc = nondet_int() != 0; return Gc ? &CH : NULL; }
struct channel_nick *find_channel_nick(struct irc_channel_state *c, const char *name) { __CPROVER_assert(Gstage == 1 && Gc && c == &CH && name == GN[Gi] && Gn == 0, "VP looks up this entry's nick"); if (nondet_int()) { Gn = 1; return &CN; } Gn = 2; return NULL; }
static void free_channel_nick(struct channel_nick *n) { __CPROVER_assert(n == &CN && Gn == 1 && Gfn == 0 && Gfc == 0, "VP removes the member found, once"); Gfn = 1; }
void free_channel_state(struct irc_channel_state *c) { __CPROVER_assert(c == &CH && Gc && Gfc == 0 && Gn == 1 && Gfn == 1 && Gme == 1 && Gmk == Gi, "VP leaves the channel only when we are kicked"); Gfc = 1; }
/* whether the one kicked is us: asked about this entry's nick */
int irccmp(const struct irc_network_info *n, const char *a, const char *b) { __CPROVER_assert(n == &INFO && ((a == GN[Gi] && b == MENICK) || (b == GN[Gi] && a == MENICK)), "VP compares this entry's nick with ours"); Gme = nondet_int() != 0; Gmk = Gi; return !Gme; }
#define KICKDONE (Gc && Gn == 1 ? (Gfn == 1 && Gmk == Gi && Gfc == Gme) : (Gfn == 0 && Gfc == 0))
#include "libirc/state.c"
void H(void)
{
	setup(); Gc = Gn = Gfn = Gfc = 0;
	handle_kick(&ST, &L);
	__CPROVER_assert(KICKDONE, "VP last entry done");
	__CPROVER_assert(L.origin != NULL ? (GC[Gi + 1] == NULL || GN[Gi + 1] == NULL) : Gi == -1, "VP every entry done");
	VREACH("handle_kick");
}
#endif
#ifdef P_NAMREPLY
int Gc, Gclr, Gpend, Gstart0;
struct irc_channel_state *find_channel(struct irc_network_state *st, const char *name) { __CPROVER_assert(st == &ST && name == GA[3], "VP the channel named"); return Gc ? &CH : NULL; }
static void free_names(struct irc_channel_state *c) { __CPROVER_assert(c == &CH && Gclr == 0 && Gi == -1, "VP starts afresh before the first name"); Gclr = 1; }
struct channel_nick *find_add_channel_nick(struct irc_channel_state *c, const char *name) { __CPROVER_assert(c == &CH && Gi >= 0 && name == GN[Gi] && Gpend == 1, "VP adds this name, once"); Gpend = 0; return nondet_int() ? &CN : NULL; }
/* an empty name is dropped, any other is pending until it is added */
size_t vp_strlen(const char *s) { size_t n; __CPROVER_assert(Gi >= 0 && s == GN[Gi], "VP this name"); Gpend = n != 0; return n; }
#define strlen vp_strlen
#include "libirc/state.c"
void H(void)
{
	setup(); CH.namreply_started = nondet_int(); CH.mode = nondet_int(); Gc = nondet_int() != 0; Gclr = 0; Gpend = 0; Gstart0 = CH.namreply_started;
	handle_namreply(&ST, &L);
	__CPROVER_assert(Gpend == 0, "VP last name added");
	if (Gc) __CPROVER_assert(GN[Gi + 1] == NULL && CH.namreply_started && Gclr == !Gstart0 && CH.mode == GA[2][0], "VP every name was added, after the old ones went with the first line of a reply");
	else __CPROVER_assert(Gi == -1 && Gclr == 0 && CH.namreply_started == Gstart0, "VP nothing happens for an unknown channel");
	VREACH("handle_namreply");
}
#endif
#ifdef P_ENDNAMES
int Gc;
struct irc_channel_state *find_channel(struct irc_network_state *st, const char *name) __CPROVER_requires(st == &ST && name == GA[2]) __CPROVER_assigns() __CPROVER_ensures(Gc ? __CPROVER_pointer_equals(__CPROVER_return_value, &CH) : __CPROVER_return_value == NULL);
static void handle_end_names(struct irc_network_state *s, const struct irc_line *l)
__CPROVER_requires(s == &ST && l == &L) __CPROVER_assigns(CH.namreply_started)
__CPROVER_ensures(Gc ? CH.namreply_started == 0 : CH.namreply_started == __CPROVER_old(CH.namreply_started));
#include "libirc/state.c"
void H(void) { setup(); __CPROVER_havoc_object(&CH); handle_end_names(&ST, &L); VREACH("handle_end_names"); }
#endif
#ifdef P_QUIT
/* our own QUIT empties our channel list, another's removes the record */
int Gwho, Gfnn, Gfcn; static GList LA_, LB_; static struct channel_nick CA, CB;
struct network_nick *find_network_nick(struct irc_network_state *n, const char *name) __CPROVER_requires(n == &ST && name == NICK) __CPROVER_assigns() __CPROVER_ensures(__CPROVER_return_value == (Gwho == 0 ? NULL : Gwho == 1 ? &ST.me : &NNK));
void free_network_nick(struct irc_network_state *st, struct network_nick *nn) __CPROVER_requires(st == &ST && nn == &NNK && Gwho == 2 && Gfnn == 0) __CPROVER_assigns(Gfnn) __CPROVER_ensures(Gfnn == 1);
static void free_channel_nick(struct channel_nick *n) __CPROVER_requires(Gwho == 1 && ST.me.channel_nicks != NULL && n == ST.me.channel_nicks->data) __CPROVER_assigns(ST.me.channel_nicks) __CPROVER_ensures(ST.me.channel_nicks == NULL || ST.me.channel_nicks == &LA_ || ST.me.channel_nicks == &LB_);
static void handle_quit(struct irc_network_state *s, const struct irc_line *l)
__CPROVER_requires(s == &ST && l == &L && Gfnn == 0 && Gwho >= 0 && Gwho <= 2)
__CPROVER_assigns(Gfnn, ST.me.channel_nicks)
__CPROVER_ensures(Gfnn == (L.origin != NULL && Gwho == 2))
__CPROVER_ensures((L.origin != NULL && Gwho == 1) ==> ST.me.channel_nicks == NULL)
__CPROVER_ensures((L.origin == NULL || Gwho != 1) ==> ST.me.channel_nicks == __CPROVER_old(ST.me.channel_nicks))
;
#include "libirc/state.c"
void H(void) { _Bool o, p, q; ST.info = &INFO; ST.log = NULL; L.args = GA; L.origin = o ? ORIG : NULL; LA_.data = &CA; LB_.data = &CB; ST.me.channel_nicks = p ? (q ? &LA_ : &LB_) : NULL; handle_quit(&ST, &L); VREACH("handle_quit"); }
#endif
#ifdef P_NICK
int Gwho, Gold, Gfnn, Gset; /* Gold: 0 nobody has the new nick, 1 same record, 2 us, 3 somebody else */
struct network_nick *find_add_network_nick(struct irc_network_state *n, const char *name) __CPROVER_requires(n == &ST && name == NICK && Gset == 0) __CPROVER_assigns() __CPROVER_ensures(__CPROVER_return_value == (Gwho ? &ST.me : &NNK));
struct network_nick *find_network_nick(struct irc_network_state *n, const char *name) __CPROVER_requires(n == &ST && name == GA[1] && Gset == 0) __CPROVER_assigns() __CPROVER_ensures(__CPROVER_return_value == (Gold == 0 ? NULL : Gold == 1 ? (Gwho ? &ST.me : &NNK) : Gold == 2 ? &ST.me : &OLDN));
void free_network_nick(struct irc_network_state *st, struct network_nick *nn) __CPROVER_requires(st == &ST && nn == &OLDN && Gfnn == 0 && Gold == 3) __CPROVER_assigns(Gfnn) __CPROVER_ensures(Gfnn == 1);
gboolean network_nick_set_nick(struct network_nick *n, const char *nick) __CPROVER_requires(Gset == 0 && n == (Gwho ? &ST.me : &NNK) && nick == GA[1]) __CPROVER_assigns(Gset) __CPROVER_ensures(Gset == 1);
static void handle_nick(struct irc_network_state *s, const struct irc_line *l)
__CPROVER_requires(s == &ST && l == &L && Gset == 0 && Gfnn == 0 && Gold >= 0 && Gold <= 3)
__CPROVER_assigns(Gset, Gfnn)
__CPROVER_ensures(Gset == (L.origin != NULL && GA[1][0] != 0))
__CPROVER_ensures(Gset == 1 ? Gfnn == (Gold == 3) : Gfnn == 0)
;
#include "libirc/state.c"
void H(void) { setup(); __CPROVER_havoc_object(AR[1]); handle_nick(&ST, &L); VREACH("handle_nick"); }
#endif
#ifdef P_PRIVMSG
int Gtome;
int irccmp(const struct irc_network_info *n, const char *a, const char *b) __CPROVER_requires(n == &INFO && a == GA[1] && b == MENICK) __CPROVER_assigns() __CPROVER_ensures((__CPROVER_return_value == 0) == Gtome);
struct network_nick *find_add_network_nick(struct irc_network_state *n, const char *name) __CPROVER_requires(n == &ST && name == NICK && Gtome) __CPROVER_assigns() __CPROVER_ensures(__CPROVER_return_value == &NNK);
static void handle_privmsg(struct irc_network_state *s, const struct irc_line *l)
__CPROVER_requires(s == &ST && l == &L && (Gtome == 0 || Gtome == 1)) __CPROVER_assigns(NNK.query)
__CPROVER_ensures((L.origin != NULL && Gtome) ? NNK.query == 1 : NNK.query == __CPROVER_old(NNK.query));
#include "libirc/state.c"
void H(void) { setup(); handle_privmsg(&ST, &L); VREACH("handle_privmsg"); }
#endif
