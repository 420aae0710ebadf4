/* C23: what a client is told about the state of the network (libirc/client.c)
 * under contract. Lists of any length by the two-cell projection of lists.h. */
#include "vp.h"
#include "internals.h"
#include "irc.h"
unsigned char vp_byte;
#undef strlen
#undef g_free
#undef g_strdup
#undef strcmp
#undef g_strdup_printf
#undef g_list_length
#define g_list_length(l) 0
static struct irc_client C; static struct irc_network_state CS, S; static struct irc_network_info INFO; static struct irc_channel_state CH, CHB;
static char ORIG[2], TARG[2], CHN[2], TOPIC[2], SETBY[2], OWN[2], DUPS[2], MS[260], WHY[2], FAKE[2]; int Gev[12], nev, Gfail; size_t Lo, Lt, Lc; gboolean Gok[12];
#define client_log(...) ((void)0)
#define EV(e) do { __CPROVER_assert(nev < 11, "VP few messages"); Gev[nev] = (e); } while (0)
/* every message can fail */
static gboolean done(void) { int k = nev++; return Gok[k]; }
#ifdef P_NAMES
#define DONE done2
#else
#define DONE done
#endif
#include "lists.h"

#ifdef P_NAMES
static struct channel_nick NA, NB; static struct network_nick GNA, GNB; static char NKA[2], NKB[2], ARG[2], BUF[2]; static GString GS; unsigned short La, Lb; size_t Larg; unsigned char Gcur, bufA, sentA, bufB, sentB, Gsep, nold, n366; int MODEC; char PA, PB; size_t ROOM;
#define MAXL 100000
static gboolean fin(void) { _Bool r; return r ? 1 : 0; }
size_t vp_strlen(const char *s) { size_t i; if (s == ORIG) return Lo; if (s == TARG) return Lt; if (s == CHN) return Lc; if (s == ARG) return Larg; if (s == BUF) return GS.len; for (i = 0; i < 9 && s[i]; i++); __CPROVER_assert(i < 9, "VP measures a known text"); return i; }
char get_prefix_from_modes(struct irc_network_info *i, irc_modes_t m) { __CPROVER_assert(i == &INFO && (m == NA.modes || m == NB.modes), "VP prefix of the member"); return m == NA.modes ? PA : PB; }
char *vp_strdup(const char *s) { __CPROVER_assert((s == NKA && PA == 0 && Gcur == 1) || (s == NKB && PB == 0 && Gcur == 2), "VP name of the member, which has no prefix"); Larg = s == NKA ? La : Lb; return ARG; }
char *vp_printf(const char *f, int c, const char *s) { __CPROVER_assert((s == NKA && c == PA && PA && Gcur == 1) || (s == NKB && c == PB && PB && Gcur == 2), "VP prefix and name of the member"); Larg = (s == NKA ? La : Lb) + 1; return ARG; }
GString *vp_new(const char *s) { __CPROVER_assert(s == NULL || !*s, "VP empty"); GS.str = BUF; GS.len = 0; return &GS; }
void vp_free(void *p) { __CPROVER_assert(p == ARG, "VP releases the name"); }
GString *vp_appc(GString *g, char c) { __CPROVER_assert(g == &GS && c == ' ' && GS.len > 0 && !Gsep, "VP one space between names"); GS.len++; Gsep = 1; return g; }
GString *vp_app(GString *g, const char *s) { __CPROVER_assert(g == &GS && s == ARG && Gsep == (GS.len > 0), "VP one space between names"); GS.len += Larg; Gsep = 0; if (Gcur == 1) { __CPROVER_assert(!bufA && !sentA, "VP a member is named once"); bufA = 1; } if (Gcur == 2) { __CPROVER_assert(!bufB && !sentB, "VP a member is named once"); bufB = 1; } return g; }
GString *vp_trunc(GString *g, gsize n) { __CPROVER_assert(g == &GS && n == 0 && bufA == 0 && bufB == 0, "VP no name is dropped"); GS.len = 0; return g; }
void vp_sfree(GString *g, int b) { __CPROVER_assert(g == &GS && b, "VP releases the buffer"); }
gboolean vp_resp(struct irc_client *c, int r, const char *m, const char *n, const char *t, const char *e)
{
	__CPROVER_assert(c == &C, "VP this client");
	if (r == 366) { __CPROVER_assert(m == CHN && bufA == 0 && bufB == 0 && nold == 0, "VP the end comes after all names, when all went well"); n366++; return fin() && 1; }
	__CPROVER_assert(r == 353 && m[0] == MODEC && m[0] && !m[1] && n == CHN && t == BUF && e == NULL && GS.len > 0 && !Gsep && !n366, "VP names of the channel");
	__CPROVER_assert(GS.len <= ROOM, "VP the line is not too long"); /* see ROOM */
	if (bufA) sentA = 1; if (bufB) sentB = 1; bufA = bufB = 0; if (fin()) return 1; nold = 1; return 0;
}
#define strlen vp_strlen
#define g_strdup vp_strdup
#define VPP3(f, a, b, ...) vp_printf(f, (int)(long)(a), (char *)(b))
#define g_strdup_printf(...) VPP3(__VA_ARGS__, 0, 0)
#define g_free vp_free
#undef g_string_append_c
#undef g_string_append
#undef g_string_free
#undef g_string_truncate
#define g_string_new vp_new
#define g_string_append_c vp_appc
#define g_string_append vp_app
#define g_string_truncate vp_trunc
#define g_string_free vp_sfree
#define VPR(c, r, a, b, d, e, ...) vp_resp(c, r, (char *)(a), (char *)(b), (char *)(d), (char *)(e))
#define client_send_response(...) VPR(__VA_ARGS__, NULL, NULL, NULL, NULL)
const char *client_get_default_target(struct irc_client *c) { __CPROVER_assert(c == &C, "VP this client"); return TARG; }
#define FITS(x) (((x) == 1 ? La + (PA != 0) : Lb + (PB != 0)) <= ROOM)
#include "libirc/client.c"
void H(void)
{
	gboolean r; _Bool o; char a, b, m; unsigned short l1, l2, l3, l4, l5;
	PA = a; PB = b; Lo = o ? l1 : 0; Lt = l2; Lc = l3; La = l4; Lb = l5; __CPROVER_assume(La > 0 && Lb > 0 && La < 65535 && Lb < 65535);
	C.default_origin = o ? ORIG : NULL; C.state = &CS; CS.info = &INFO; CH.name = CHN; CH.mode = m; MODEC = m ? m : '='; vp_list(&NA, &NB); NA.global_nick = &GNA; NB.global_nick = &GNB; GNA.nick = NKA; GNB.nick = NKB; CH.nicks = Ghead;
	{ size_t base = 1 + Lo + 1 + 3 + 1 + Lt + 1 + 1 + 1 + Lc + 2 + 2; /* ":origin 353 target = channel :names\r\n" */ ROOM = base < IRC_MAXLINELEN ? IRC_MAXLINELEN - base : 0; }
	GS.len = 0; GS.str = BUF; bufA = bufB = sentA = sentB = Gsep = nold = n366 = 0; Gcur = 0;
	r = client_send_nameslist(&C, &CH);
	__CPROVER_assert(n366 == !nold && (nold || (!bufA && !bufB)), "VP the list is ended, unless the client went away");
	if (!nold) __CPROVER_assert(ALLSEEN && sentA == (seenA && FITS(1)) && sentB == (seenB && FITS(2)), "VP every member is named once"); else __CPROVER_assert(!r, "VP failure is reported");
	VREACH("client_send_nameslist");
}
#endif

#ifdef P_SEQ
/* messages with up to three arguments */
enum { JOIN = 1, TOP, WHOT, NOTOP, NAMES, NICKL, MODEL, CHST, BAN, ENDBAN, CREAT, QUITL };
char *vp_strdup(const char *s) { return DUPS; }
int Gnum; char *vp_printf(const char *f, long a, const char *b) { if (f[0] == '%' && f[1] == 'l') { __CPROVER_assert(a == CH.topic_set_time, "VP time the topic was set"); return DUPS; } return (char *)a == OWN ? FAKE : WHY; }
void vp_free(void *p) { }
int Gsame; int vp_strcmp(const char *a, const char *b) { __CPROVER_assert((a == S.me.nick && b == CS.me.nick) || (b == S.me.nick && a == CS.me.nick), "VP compares the nicks"); return !Gsame; }
#define g_strdup vp_strdup
#define VPP(f, a, b, ...) vp_printf(f, (long)(a), (char *)(b))
#define g_strdup_printf(...) VPP(__VA_ARGS__, 0, 0)
#define g_free vp_free
#define strcmp vp_strcmp
gboolean vp_resp(struct irc_client *c, int r, const char *n, const char *a, const char *b)
{
	__CPROVER_assert(c == &C && n == CHN, "VP this client and channel");
	if (r == RPL_TOPIC) { __CPROVER_assert(a == TOPIC && b == NULL, "VP the topic"); EV(TOP); } else if (r == RPL_NOTOPIC) EV(NOTOP); else { __CPROVER_assert(r == RPL_TOPICWHOTIME && a == SETBY && b == DUPS, "VP who set the topic and when"); EV(WHOT); }
	return DONE();
}
static char NICKN[2];
gboolean vp_args(struct irc_client *c, const char *h, const char *a, const char *b, const char *d, const char *e)
{
	__CPROVER_assert(c == &C, "VP this client");
	if (a[0] == 'J') { __CPROVER_assert(h == OWN && a[1] == 'O' && a[2] == 'I' && a[3] == 'N' && !a[4] && b == CHN && d == NULL, "VP we join"); EV(JOIN); }
	else if (a[0] == 'N') { __CPROVER_assert(h == OWN && a[1] == 'I' && a[2] == 'C' && a[3] == 'K' && !a[4] && b == NICKN && d == NULL, "VP our nick"); EV(NICKL); }
	else { __CPROVER_assert(h == OWN && a[0] == 'M' && a[1] == 'O' && a[2] == 'D' && a[3] == 'E' && !a[4] && b == NICKN && d == MS && e == NULL, "VP our modes"); EV(MODEL); }
	return DONE();
}
#define VPR(c, r, a, b, d, ...) vp_resp(c, r, (char *)(a), (char *)(b), (char *)(d))
#define client_send_response(...) VPR(__VA_ARGS__, NULL, NULL, NULL)
#define VPA(c, h, a, b, d, e, ...) vp_args(c, h, (char *)(a), (char *)(b), (char *)(d), (char *)(e))
#define client_send_args_ex(...) VPA(__VA_ARGS__, NULL, NULL, NULL, NULL)
const char *client_get_own_hostmask(struct irc_client *c) { __CPROVER_assert(c == &C, "VP this client"); return OWN; }
#ifdef P_CHST
gboolean client_send_topic(struct irc_client *c, struct irc_channel_state *ch, gboolean x) { __CPROVER_assert(c == &C && ch == &CH && !x, "VP topic of the channel, if there is one"); EV(TOP); return DONE(); }
gboolean client_send_nameslist(struct irc_client *c, struct irc_channel_state *ch) { __CPROVER_assert(c == &C && ch == &CH, "VP members of the channel"); EV(NAMES); return DONE(); }
#endif
#ifdef P_STATE
int stA, stB, mdone, nmode, Gmode, lst, nfail; static gboolean any(void) { _Bool b; if (!b) nfail = 1; return b ? 1 : 0; }
gboolean client_send_channel_state(struct irc_client *c, struct irc_channel_state *ch) { __CPROVER_assert(c == &C && (ch == &CH || ch == &CHB) && !nfail && !mdone, "VP a channel of the network"); if (ch == &CH) { __CPROVER_assert(!stA, "VP once"); stA = 1; } else { __CPROVER_assert(!stB, "VP once"); stB = 1; } return any(); }
char *mode2string(irc_modes_t m) { __CPROVER_assert(m == S.me.modes, "VP our modes"); return Gmode ? MS : NULL; }
#endif
#include "libirc/client.c"
static void setup(void) { int i; for (i = 0; i < 12; i++) { _Bool b; Gok[i] = b ? 1 : 0; } nev = 0; C.state = &CS; CH.name = CHN; }
#ifdef P_CHST
void H(void)
{
	gboolean r; setup(); r = client_send_channel_state(&C, &CH);
	__CPROVER_assert(nev >= 1 && Gev[0] == JOIN && (nev == 1 ? !Gok[0] : Gok[0] && Gev[1] == TOP) && (nev == 2 ? !Gok[1] : nev < 2 || (Gok[1] && Gev[2] == NAMES)) && nev <= 3, "VP joined, then topic, then names");
	__CPROVER_assert(!r == !(nev == 3 && Gok[2]), "VP told everything, or failed");
	VREACH("client_send_channel_state");
}
#endif
#ifdef P_TOPIC
void H(void)
{
	_Bool t, w, x; time_t tm; gboolean r; int i = 0; setup(); CH.topic = t ? TOPIC : NULL; CH.topic_set_by = w ? SETBY : NULL; CH.topic_set_time = tm;
	r = client_send_topic(&C, &CH, x ? 1 : 0);
	if (t || x) { __CPROVER_assert(nev > 0 && Gev[0] == (t ? TOP : NOTOP), "VP topic, or that there is none if asked"); i = 1; if (!Gok[0]) { __CPROVER_assert(nev == 1 && !r, "VP failed"); return; } }
	if (w && tm) { __CPROVER_assert(nev == i + 1 && Gev[i] == WHOT && !r == !Gok[i], "VP who set it"); } else __CPROVER_assert(nev == i && r, "VP nothing more");
	VREACH("client_send_topic");
}
#endif
#ifdef P_STATE
void H(void)
{
	_Bool m, s; gboolean r; setup(); vp_list(&CH, &CHB); S.channels = Ghead; S.me.nick = NICKN; CS.me.nick = CHN; CS.me.hostmask = OWN; Gsame = s ? 1 : 0; Gmode = m ? 1 : 0; stA = stB = mdone = nfail = 0;
	r = client_send_state(&C, &S);
	if (!Gsame) { __CPROVER_assert(nev >= 1 && Gev[0] == NICKL, "VP told the nick it has"); if (!Gok[0]) { __CPROVER_assert(!r && nev == 1, "VP failed"); return; } }
	if (nfail) __CPROVER_assert(!r, "VP failed");
	else { __CPROVER_assert(ALLSEEN && stA == seenA && stB == seenB && nev == !Gsame + Gmode && (!Gmode || Gev[nev - 1] == MODEL), "VP told about every channel, once, and its modes"); __CPROVER_assert(!r == (Gmode && !Gok[nev - 1]), "VP told everything, or failed"); }
	VREACH("client_send_state");
}
#endif
#endif

#ifdef P_ALL
static struct irc_client CA, CB; int Sa, Sb, Fa, Fb, Ra, Rb; static char MYN[2], LOSTS[2];
static gboolean each(struct irc_client *c) { __CPROVER_assert(c == &CA || c == &CB, "VP a client of the list"); if (c == &CA) { __CPROVER_assert(!Sa, "VP once"); Sa = 1; Fa = !Ra; return Ra; } __CPROVER_assert(!Sb, "VP once"); Sb = 1; Fb = !Rb; return Rb; }
gboolean client_send_state(struct irc_client *c, struct irc_network_state *s) { __CPROVER_assert(s == &S, "VP this state"); return each(c); }
gboolean client_send_netsplit(struct irc_client *c, const char *a, const char *b) { __CPROVER_assert(a == MYN && b == LOSTS, "VP these servers"); return each(c); }
#include "libirc/client.c"
void H(void)
{
	_Bool a, b; gboolean r; vp_list(&CA, &CB); Ra = a ? 1 : 0; Rb = b ? 1 : 0; Sa = Sb = Fa = Fb = 0;
#ifdef P_SPLITS
	r = clients_send_netsplit(Ghead, MYN, LOSTS);
#else
	r = clients_send_state(Ghead, &S);
#endif
	__CPROVER_assert(ALLSEEN && Sa == seenA && Sb == seenB, "VP every client is told, once, even if others fail");
	if (Fa || Fb) __CPROVER_assert(!r, "VP failure is reported"); 
	if (!Ghead) __CPROVER_assert(r, "VP success is reported");
	VREACH("all clients");
}
#endif

#ifdef P_BANS
static struct nicklist_entry EA, EB; static char MA_[2], MB_[2]; int Sa, Sb, nend, nfail;
gboolean vp_resp(struct irc_client *c, int r, const char *n, const char *m) { _Bool ok; __CPROVER_assert(c == &C && n == CHN && !nend && !nfail, "VP this client and channel"); if (r == RPL_BANLIST) { __CPROVER_assert(m == MA_ || m == MB_, "VP an entry"); if (m == MA_) { __CPROVER_assert(!Sa, "VP once"); Sa = 1; } else { __CPROVER_assert(!Sb, "VP once"); Sb = 1; } if (!ok) nfail = 1; } else { __CPROVER_assert(r == RPL_ENDOFBANLIST, "VP the end"); nend = 1; if (!ok) nfail = 2; } return ok ? 1 : 0; }
#define VPR(c, r, n, m, ...) vp_resp(c, r, n, m)
#define client_send_response(...) VPR(__VA_ARGS__, NULL, NULL)
#include "libirc/client.c"
void H(void)
{
	gboolean r; vp_list(&EA, &EB); EA.hostmask = MA_; EB.hostmask = MB_; Sa = Sb = nend = nfail = 0; CH.name = CHN; CH.chanmode_nicklist['b'] = Ghead;
	r = client_send_banlist(&C, &CH);
	__CPROVER_assert(!r == (nfail != 0) && (nfail == 1 || (nend && ALLSEEN && Sa == seenA && Sb == seenB)), "VP every entry once, then the end");
	VREACH("client_send_banlist");
}
#endif

#ifdef P_CMODE
#undef g_new0
static char *AV[300], OPT[256], DUPO[256], CTT[256], N324[2]; static struct irc_line LN; size_t NM, K; int KP, nsent, ncre, nmod, Gok1, Gok2, Gnone; unsigned char KC;
void *vp_new0(size_t n, size_t sz) { size_t i; if (sz == sizeof(struct irc_line)) { __CPROVER_assert(n == 1, "VP one line"); return &LN; } __CPROVER_assert(sz == sizeof(char *) && n >= 260 && n <= 300, "VP room for all arguments"); return AV; }
#define g_new0(t, n) ((t *)vp_new0(n, sizeof(t)))
char *mode2string(irc_modes_t m) { __CPROVER_assert(m == CH.modes && !nmod, "VP modes of the channel"); nmod = 1; return Gnone ? NULL : MS; }
enum chanmode_type network_chanmode_type(char m, struct irc_network_info *i) { __CPROVER_assert(i == &INFO, "VP as the client knows the network"); return CTT[(unsigned char)m]; }
char *vp_strdup(const char *s) { if (s == NULL) return NULL; if (s == ORIG) return ORIG; if (s == TARG) return TARG; if (s == CHN) return CHN; if (__CPROVER_same_object(s, OPT)) return DUPO + (s - OPT); __CPROVER_assert(Gnone && s[0] == '+' && !s[1], "VP no modes"); return MS; }
char *vp_printf(const char *f, int a) { __CPROVER_assert(a == 324, "VP the numeric"); return N324; }
int vp_snprintf(char *b, size_t n, const char *f, unsigned long v) { __CPROVER_assert(n == 20 && v == CH.creation_time, "VP creation time"); return 0; }
#define g_strdup vp_strdup
#define VPQ(f, a, ...) vp_printf(f, (int)(long)(a))
#define g_strdup_printf(...) VPQ(__VA_ARGS__, 0)
#define snprintf vp_snprintf
const char *client_get_default_target(struct irc_client *c) { __CPROVER_assert(c == &C, "VP this client"); return TARG; }
#define HASOPT(c) ((CTT[c] == CHANMODE_SETTING || CTT[c] == CHANMODE_OPT_SETTING) && CH.chanmode_option[c] != NULL)
void free_line(struct irc_line *l) { __CPROVER_assert(l == &LN && nsent, "VP released after use"); }
gboolean client_send_line(struct irc_client *c, const struct irc_line *l, GError **e)
{
	__CPROVER_assert(c == &C && l == &LN && !nsent && nmod && LN.args == AV && AV[0] == N324 && AV[1] == TARG && AV[2] == CHN && AV[3] == MS && LN.argc >= 4 && LN.argc <= 4 + NM && AV[LN.argc] == NULL, "VP the modes of the channel");
	if (HASOPT(KC) && K < NM) __CPROVER_assert(KP >= 0 && 4 + (size_t)KP < LN.argc && AV[4 + KP] == DUPO + KC, "VP each setting with its value, in the order of the modes");
	nsent = 1; return Gok1;
}
gboolean vp_resp(struct irc_client *c, int r) { __CPROVER_assert(c == &C && r == RPL_CREATIONTIME && nsent && Gok1 && !ncre, "VP then the time of creation"); ncre = 1; return Gok2; }
#define VPR(c, r, ...) vp_resp(c, r)
#define client_send_response(...) VPR(__VA_ARGS__)
#include "libirc/client.c"
void H(void)
{
	size_t n, k; _Bool a, b, o; time_t t; gboolean r; __CPROVER_havoc_object(MS); __CPROVER_havoc_object(CTT); __CPROVER_havoc_object(CH.chanmode_option); 
	NM = n; K = k; Gnone = o ? 1 : 0; __CPROVER_assume(NM >= 1 && NM <= 256 && MS[0] == '+' && MS[NM] == 0 && K < NM && MS[K] != 0 && (!Gnone || (NM == 1)) && CTT['+'] == CHANMODE_UNKNOWN); KC = MS[K]; CH.chanmode_option[KC] = a ? OPT + KC : NULL;
	__CPROVER_assume(Gok1 == 0 || Gok1 == 1); 
	C.state = &CS; CS.info = &INFO; C.default_origin = ORIG; CH.name = CHN; CH.creation_time = t; Gok1 = a; Gok2 = b ? 1 : 0; KP = -1; nsent = ncre = nmod = 0; { int i; for (i = 0; i < 300; i++) AV[i] = NULL; }
	r = client_send_channel_mode(&C, &CH);
	__CPROVER_assert(nsent == 1 && ncre == (Gok1 && t > 0) && !r == !(Gok1 && (t <= 0 || Gok2)), "VP the modes, then the creation time if known");
	VREACH("client_send_channel_mode");
}
#endif

#ifdef P_SPLIT
static struct network_nick NX; int Gn, Gme, nq, Gr, Gon; static char MYN[2], LOSTS[2];
/* the list of nicks: Gn others and, if Gon, the client itself somewhere */
#define MAT() do { _Bool vp_f; int vp_me = Gon && (Gn == 0 || vp_f); if (Gn + Gon == 0) S.nicks = NULL; else { S.nicks = &LA_; LA_.data = vp_me ? &S.me : &NX; LA_.next = Gn + Gon > 1 ? &LB_ : NULL; LB_.data = vp_me ? &NX : Gon && Gn == 1 ? &S.me : &NX; LB_.next = NULL; } } while (0)
char *vp_printf(const char *f, const char *a, const char *b) { __CPROVER_assert(a == MYN && b == LOSTS, "VP names both servers"); return WHY; }
void vp_free(void *p) { __CPROVER_assert(p == WHY, "VP frees the reason"); }
#define VPQ(f, a, b, ...) vp_printf(f, (char *)(a), (char *)(b))
#define g_strdup_printf(...) VPQ(__VA_ARGS__, 0, 0)
#define g_free vp_free
gboolean client_send_nick_quit(struct irc_client *c, struct network_nick *gn, const char *r);
#include "libirc/client.c"
gboolean client_send_nick_quit(struct irc_client *c, struct network_nick *gn, const char *r) { _Bool ok; __CPROVER_assert(c == &C && gn == &NX && Gn > 0 && r == WHY, "VP somebody else quits"); if (!ok) { Gr = 1; return 0; } Gn--; S.nicks = Gn + Gon ? &LA_ : NULL; return 1; }
void H(void)
{
	int n; _Bool o, st; gboolean r; __CPROVER_assume(n >= 0 && n < 1000000000); Gn = n; Gon = o ? 1 : 0; Gr = 0; C.state = st ? &S : NULL; MAT();
	r = client_send_netsplit(&C, MYN, LOSTS);
	if (!st) __CPROVER_assert(!r && Gn == n, "VP nothing to tell"); else __CPROVER_assert(!r == Gr && (Gr || Gn == 0), "VP everybody else has quit");
	VREACH("client_send_netsplit");
}
#endif
#ifdef P_QUIT
static struct network_nick NX; static char NICKN[2]; int nq, nfree, Gr;
char *vp_printf(const char *f, const char *a) { __CPROVER_assert(a == NICKN && NX.hostmask == NULL, "VP made up for a nick whose mask is unknown"); return FAKE; }
void vp_free(void *p) { __CPROVER_assert(p == FAKE && nq && !nfree, "VP freed after use"); nfree = 1; }
#define VPQ(f, a, ...) vp_printf(f, (char *)(long)(a))
#define g_strdup_printf(...) VPQ(__VA_ARGS__, 0)
#define g_free vp_free
gboolean vp_args(struct irc_client *c, const char *h, const char *a, const char *b, const char *e) { __CPROVER_assert(c == &C && !nq && h == (NX.hostmask ? OWN : FAKE) && a[0] == 'Q' && a[1] == 'U' && a[2] == 'I' && a[3] == 'T' && !a[4] && b == WHY && e == NULL, "VP that nick quits"); nq = 1; return Gr; }
#define VPA(c, h, a, b, d, ...) vp_args(c, h, (char *)(a), (char *)(b), (char *)(d))
#define client_send_args_ex(...) VPA(__VA_ARGS__, NULL, NULL, NULL, NULL)
#include "libirc/client.c"
void H(void)
{
	_Bool m, g; gboolean r; NX.nick = NICKN; NX.hostmask = m ? OWN : NULL; Gr = g ? 1 : 0; nq = nfree = 0;
	r = client_send_nick_quit(&C, &NX, WHY);
	__CPROVER_assert(nq == 1 && !r == !Gr && nfree == !m, "VP one QUIT");
	VREACH("client_send_nick_quit");
}
#endif
