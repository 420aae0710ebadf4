/* C19: what a client sees of its own host mask (src/client.c) under contract.
 * Strings are identified by address; argument lists have any length. */
#include "vp.h"
#include "internals.h"
#include "irc.h"
unsigned char vp_byte;
#define MAXN 200
static struct irc_line L, R; static char *GA[MAXN + 2], *RB[MAXN + 2], *US[MAXN + 2]; static char APOOL[8], ORIG[2], RORIG[2], POOL[MAXN + 2], UPOOL[MAXN + 2]; size_t NA, K, NU, KU; struct irc_network_info INFO; static struct network_nick OLD, NEW;
static char ONICK[2], OUSER[2], OHOST[2], OMASK[2], NNICK[2], NUSER[2], NHOST[2], NMASK[2], DM[2], DH[2], DU[2], JOINED[2], NEWU[2];
static char TB[8], TC[4], *T302[3]; int Gsame, Gown, Gresp, Ghas, G2, G6, Gdup, Gtn, Gstar, Gmatch, KM, Gi, Gline; size_t Tn;
#undef g_free
#undef g_strdup
#undef g_strstrip
#undef g_str_has_suffix
#undef strlen
#undef strstr
#undef strcmp
int irccmp(const struct irc_network_info *i, const char *a, const char *b)
{
	const char *x;
	__CPROVER_assert(i == &INFO, "VP case mapping of the network");
	if ((a == OMASK && b == NMASK) || (a == NMASK && b == OMASK)) return !Gsame;
	__CPROVER_assert(a == ONICK || b == ONICK, "VP compared with our own nick"); x = a == ONICK ? b : a;
	if (Gi >= 0) { __CPROVER_assert(x == TB, "VP nick of the entry"); return !Gmatch; }
	if (NA > 6 && x == GA[6]) return !G6;
	__CPROVER_assert(NA > 2 && x == GA[2], "VP an argument of the line that holds a nick"); return !G2;
}
gboolean line_from_nick(const struct irc_network_info *i, const struct irc_line *l, const char *n) { __CPROVER_assert(i == &INFO && l == &L && n == ONICK, "VP is the line from us"); return Gown; }
int vp_atoi(const char *s) { __CPROVER_assert(s == GA[0], "VP numeric of the line"); return Gresp; }
struct irc_line *linedup(const struct irc_line *l) { __CPROVER_assert(l == &L && !Gdup, "VP one copy of the line"); Gdup = 1; R.origin = L.origin ? RORIG : NULL; R.argc = L.argc; R.args = RB; __CPROVER_assume(RB[K] == POOL + K && (NA <= 2 || RB[2] == POOL + 2) && (NA <= 3 || RB[3] == POOL + 3) && (NA <= 4 || RB[4] == POOL + 4)); return &R; }
void vp_free(void *p) { __CPROVER_assert(p != ORIG && p != ONICK && p != OMASK && p != NMASK && p != NHOST && p != NUSER, "VP frees only what the copy owns"); }
char *vp_strdup(const char *s) { __CPROVER_assert(s == NMASK || s == NHOST || s == NUSER, "VP takes a part of the new mask"); return s == NMASK ? DM : s == NHOST ? DH : DU; }
char *vp_strip(char *s) { __CPROVER_assert(Gdup && s == RB[2], "VP strips its own copy"); return s; }
int vp_suffix(const char *s, const char *t) { __CPROVER_assert(s == TB && t[0] == '*' && !t[1], "VP is it an operator"); return Gstar; }
size_t vp_strlen(const char *s) { __CPROVER_assert(s == TB, "VP measures the nick"); return Tn; }
char *vp_strstr(const char *a, const char *b) { __CPROVER_assert(NA > 2 && a == GA[2] && b == OHOST, "VP is our host in there"); return Ghas ? (char *)a : NULL; }
char **vp_split(const char *s, const char *d, int n)
{
	if (d[0] == ' ') { __CPROVER_assert(Gi < 0 && Gdup && s == RB[2] && !d[1] && n <= 0, "VP splits the list of users"); return US; }
	__CPROVER_assert(d[0] == '=' && !d[1] && n == 2 && Gi >= 0 && s == US[Gi], "VP splits this entry at the first ="); return T302;
}
unsigned vp_vlen(char **v) { __CPROVER_assert(v == T302, "VP parts of the entry"); return Gtn; }
void vp_freev(char **v) { __CPROVER_assert(v == T302 || v == US, "VP frees the lists"); }
char *vp_joinv(const char *s, char **v) { __CPROVER_assert(v == US && s[0] == ' ' && !s[1] && (size_t)Gi == NU - 1, "VP joins all entries"); Gline = 1; return JOINED; }
char *vp_printf(const char *f, const void *a, const void *b, int c, const void *d, const void *e) { __CPROVER_assert(a == TB && ((const char *)b)[0] == (Gstar ? '*' : 0) && c == TC[0] && d == NUSER && e == NHOST, "VP entry with our nick and the new user and host"); __CPROVER_assert(!Gstar || TB[Tn - 1] == 0, "VP one star"); return NEWU; }
#define g_free vp_free
#define g_strdup vp_strdup
#define g_strstrip vp_strip
#define g_str_has_suffix vp_suffix
#define strlen vp_strlen
#define strstr vp_strstr
#define g_strsplit vp_split
#define g_strv_length vp_vlen
#define g_strfreev vp_freev
#define g_strjoinv vp_joinv
#define VP6(f, a, b, c, d, e, ...) vp_printf(f, (void *)(a), (void *)(b), (int)(long)(c), (void *)(d), (void *)(e))
#define g_strdup_printf(...) VP6(__VA_ARGS__, 0, 0, 0, 0, 0)
#undef atoi
#define atoi vp_atoi
#define NNU(k) ((size_t)(k) < NU ==> US[k] == UPOOL + (k))
/* a new entry: arbitrary parts */
#define ENTRY() do { int vp_t; size_t vp_n; _Bool vp_s, vp_m; __CPROVER_havoc_object(TB); __CPROVER_havoc_object(TC); __CPROVER_assume(vp_t >= 1 && vp_t <= 2 && vp_n < 8 && TB[vp_n] == 0 && (!vp_s || (vp_n > 0 && TB[vp_n - 1] == '*'))); Gtn = vp_t; Tn = vp_n; Gstar = vp_s ? 1 : 0; Gmatch = vp_m ? 1 : 0; T302[0] = TB; T302[1] = Gtn > 1 ? TC : NULL; T302[2] = NULL; if ((size_t)Gi == KU) KM = Gtn > 1 && TC[0] && Gmatch; } while (0)
#ifdef P_REPL
#include "src/client.c"
void H(void)
{
	size_t n, k, nu, ku; _Bool o, s, w, h, g2, g6; int rc; struct irc_line *r; char c;
	__CPROVER_havoc_object(GA); __CPROVER_havoc_object(RB); __CPROVER_havoc_object(US); NA = n; K = k; NU = nu; KU = ku;
	__CPROVER_assume(NA >= 1 && NA < MAXN && K < NA && NU < MAXN && KU < NU + 1 && US[NU] == NULL && NNU(0) && NNU(KU) && GA[NA] == NULL && GA[0] == APOOL && (NA <= 2 || GA[2] == APOOL + 2) && (NA <= 6 || GA[6] == APOOL + 6));
	L.args = GA; L.argc = NA; L.origin = o ? ORIG : NULL; Gi = -1; Gdup = Gline = 0; KM = 0;
	Gsame = s ? 1 : 0; Gown = w ? 1 : 0; Ghas = h ? 1 : 0; G2 = g2 ? 1 : 0; G6 = g6 ? 1 : 0; Gresp = rc;
	OLD.nick = ONICK; OLD.username = OUSER; OLD.hostname = OHOST; OLD.hostmask = OMASK; NEW.nick = NNICK; NEW.username = NUSER; NEW.hostname = NHOST; NEW.hostmask = NMASK;
	r = irc_line_replace_hostmask(&L, &INFO, &OLD, &NEW);
	__CPROVER_assert(L.args == GA && L.argc == NA && L.origin == (o ? ORIG : NULL), "VP the line itself is unchanged");
	if (Gsame) __CPROVER_assert(r == NULL, "VP nothing to replace");
	else if (o && Gown) __CPROVER_assert(r == &R && R.origin == DM && RB[K] == POOL + K && R.argc == NA, "VP our own line gets the new mask and keeps its arguments");
	else if ((Gresp == 352 && NA > 6 && G6) || ((Gresp == 311 || Gresp == 314) && NA > 4 && G2))
		__CPROVER_assert(r == &R && R.origin == (o ? RORIG : NULL) && R.argc == NA && RB[K] == (K == 3 ? DU : K == 4 ? DH : POOL + K), "VP user and host in the reply about us, and nothing else");
	else if (Gresp == 302 && NA > 2 && Ghas) {
		__CPROVER_assert(r == &R && R.origin == (o ? RORIG : NULL) && R.argc == NA && RB[K] == (K == 2 ? JOINED : POOL + K), "VP the list of users is replaced and nothing else");
		__CPROVER_assert(KU >= NU || US[KU] == (KM ? NEWU : UPOOL + KU), "VP an entry changes exactly when it is ours");
	} else __CPROVER_assert(r == NULL, "VP nothing to replace in other lines");
	VREACH("irc_line_replace_hostmask");
}
#endif
#ifdef P_LIST
#include "lists.h"
static struct irc_client CA, CB, CX; int Sa, Sb, Gx;
static gboolean client_forward_from_server(struct irc_client *c, const struct irc_line *l) { _Bool r; __CPROVER_assert(l == &L && (c == &CA || c == &CB), "VP sends the line to a client of the list"); if (c == &CA) { __CPROVER_assert(!Sa, "VP once"); Sa = 1; } else { __CPROVER_assert(!Sb, "VP once"); Sb = 1; } return r; }
#include "src/client.c"
void H(void)
{
	unsigned char x; vp_list(&CA, &CB); Sa = Sb = 0; Gx = x; const struct irc_client *e = Gx == 0 ? NULL : Gx == 1 ? &CA : Gx == 2 ? &CB : &CX;
	clients_send(Ghead, &L, e);
	__CPROVER_assert(ALLSEEN && Sa == (seenA && Gx != 1) && Sb == (seenB && Gx != 2), "VP every client but the excluded one, once");
	VREACH("clients_send");
}
#endif
#ifdef P_FWD
static struct irc_network N; static struct irc_network_state EX, SA; static struct irc_client CA; struct irc_line *Grep; int Gfreed, Gsent, Gret;
struct irc_line *irc_line_replace_hostmask(const struct irc_line *l, const struct irc_network_info *i, const struct network_nick *o, const struct network_nick *n) { __CPROVER_assert(l == &L && i == &INFO && o == &EX.me && n == &SA.me && !Gsent, "VP from the mask on the network to that of the client"); return Grep; }
gboolean client_send_line(struct irc_client *c, const struct irc_line *l, GError **e) { __CPROVER_assert(c == &CA && !Gsent && !Gfreed && l == (N.external_state && Grep ? Grep : &L), "VP sends the line with the client's own mask"); Gsent = 1; return Gret; }
void free_line(struct irc_line *l) { if (l) { __CPROVER_assert(l == Grep && Gsent && !Gfreed, "VP frees the copy after use"); Gfreed = 1; } }
#include "src/client.c"
void H(void)
{
	_Bool e, p, q; gboolean r; N.info = &INFO; N.external_state = e ? &EX : NULL; Grep = p ? &R : NULL; Gret = q ? 1 : 0; CA.network = &N; CA.state = &SA; Gfreed = Gsent = 0;
	r = client_forward_from_server(&CA, &L);
	__CPROVER_assert(Gsent && !r == !Gret && Gfreed == (e && p), "VP sent once, the copy is released");
	VREACH("client_forward_from_server");
}
#endif
