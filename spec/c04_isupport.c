/* C04: libirc/isupport.c under contract. Strings of any length (up to MAXN in
 * the model); "for every character of the string" is proved for an arbitrary
 * index K chosen before the call. */
#include "vp.h"
#include "internals.h"
#include "irc.h"
unsigned char vp_byte;
#ifndef MAXN
#define MAXN 600
#endif
static struct irc_network_info I;

#ifdef P_LOOKUP
/* PX: the string a lookup is done in. LEN its length, E the place of its first ')' (LEN if none). */
static char PX[MAXN + 2]; size_t LEN, E, K, Q; int Gfound, Gi;
#define TXT(k) ((k) < LEN ==> PX[k] != 0)
#define NOPAR(k) ((k) < E ==> PX[k] != ')')
char *vp_strchr(const char *s, int c)
{
	size_t o = s - PX, r; _Bool f; char *ret = NULL;
	__CPROVER_assert(__CPROVER_POINTER_OBJECT(s) == __CPROVER_POINTER_OBJECT(PX) && o <= LEN, "VP searches the announced string");
	if ((char)c == 0) return PX + LEN;
	if ((char)c == ')' && o <= E) { if (E < LEN) { Q = E; Gfound = 1; return PX + E; } Gfound = 0; return NULL; }
	if (f) { __CPROVER_assume(r >= o && r < LEN && PX[r] == (char)c && ((K >= o && K < r) ==> PX[K] != (char)c)); Q = r; Gfound = 1; return PX + r; }
	__CPROVER_assume((K >= o && K < LEN) ==> PX[K] != (char)c); Gfound = 0;
	return NULL;
}
#define strchr vp_strchr
void network_info_log(enum log_level l, const struct irc_network_info *info, const char *fmt, ...) { }
#define SETUP() do { size_t n, e, k; __CPROVER_havoc_object(PX); LEN = n; E = e; K = k; Gi = -1; Gfound = 0; \
	__CPROVER_assume(LEN <= MAXN && PX[LEN] == 0 && E <= LEN && (E < LEN ==> PX[E] == ')') && TXT(0) && TXT(K) && NOPAR(0) && NOPAR(K)); I.prefix = I.chantypes = PX; } while (0)
/* what network_info_parse keeps: empty, or (modes)signs with as many modes as signs */
#define WELLFORMED() __CPROVER_assume(LEN == 0 || (PX[0] == '(' && E < LEN && LEN == 2 * E && TXT(E + 1)))
static irc_modes_t GM;
#include "libirc/isupport.c"
#ifdef F_CHANTYPE
void H(void)
{
	char nm[2]; char c; gboolean r; SETUP(); nm[0] = c; nm[1] = 0; Gfound = 0;
	r = is_channelname(nm, &I);
	__CPROVER_assert((K < LEN && PX[K] == c) ==> r, "VP a name starting with an announced type is a channel");
	__CPROVER_assert(r ==> (c != 0 && Gfound && Q < LEN && PX[Q] == c), "VP nothing else is");
	VREACH("is_channelname");
}
#endif
#ifdef F_MODES
void H(void)
{
	char c; gboolean r; _Bool u, none; SETUP(); __CPROVER_assume(c != 0);
	I.supported_channel_modes = I.supported_user_modes = none ? NULL : PX;
	r = u ? is_user_mode(&I, c) : is_channel_mode(&I, c);
	__CPROVER_assert((!none && K < LEN && PX[K] == c) ==> r, "VP an announced mode is known");
	__CPROVER_assert(r ==> (!none && Gfound && Q < LEN && PX[Q] == c), "VP nothing else is");
	VREACH("is_channel_mode");
}
#endif
#ifdef F_ISPREFIX
void H(void)
{
	char c; gboolean r; SETUP(); WELLFORMED();
	r = is_prefix(c, &I);
	__CPROVER_assert((K > E && K < LEN && PX[K] == c) ==> r, "VP an announced sign is a sign");
	__CPROVER_assert(r ==> (c != 0 && Gfound && Q < LEN && PX[Q] == c && (LEN == 0 || Q > E)), "VP nothing else is");
	VREACH("is_prefix");
}
#endif
#ifdef F_PBM
void H(void)
{
	char c, r; SETUP(); WELLFORMED();
	r = get_prefix_by_mode(c, &I);
	if (LEN == 0) __CPROVER_assert(r == ' ', "VP no signs announced");
	else if (Gi >= 0 && (size_t)Gi < E - 1 && PX[1 + Gi] == c) __CPROVER_assert(r == PX[E + 1 + Gi] && ((K >= 1 && K < (size_t)Gi + 1) ==> PX[K] != c), "VP the sign of the first such mode");
	else __CPROVER_assert(r == ' ' && ((K >= 1 && K < E) ==> PX[K] != c), "VP a mode without sign");
	VREACH("get_prefix_by_mode");
}
#endif
#ifdef F_MBP
void H(void)
{
	char c, r; SETUP(); WELLFORMED();
	r = get_mode_by_prefix(c, &I);
	if (LEN == 0) __CPROVER_assert(r == 0, "VP no signs announced");
	else if (Gi >= 0 && (size_t)Gi < E - 1 && PX[E + 1 + Gi] == c) __CPROVER_assert(r == PX[1 + Gi] && ((K > E && K < E + 1 + Gi) ==> PX[K] != c), "VP the mode of the first such sign");
	else __CPROVER_assert(r == 0 && ((K > E && K < LEN) ==> PX[K] != c), "VP no such sign");
	VREACH("get_mode_by_prefix");
}
#endif
#ifdef F_PFM
void H(void)
{
	char r; SETUP(); WELLFORMED(); __CPROVER_havoc_object(GM);
	r = get_prefix_from_modes(&I, GM);
	if (LEN == 0) __CPROVER_assert(r == 0, "VP no signs announced");
	else if (Gi >= 0 && (size_t)Gi < E - 1 && GM[(unsigned char)PX[1 + Gi]]) __CPROVER_assert(r == PX[E + 1 + Gi] && ((K >= 1 && K < (size_t)Gi + 1) ==> !GM[(unsigned char)PX[K]]), "VP the sign of the highest status held");
	else __CPROVER_assert(r == 0 && ((K >= 1 && K < E) ==> !GM[(unsigned char)PX[K]]), "VP no status held");
	VREACH("get_prefix_from_modes");
}
#endif
#endif

#ifdef P_TYPE
static char C0[2], C1[2], C2[2], C3[2]; static char *CM[5] = { C0, C1, C2, C3, NULL }; int F[4]; char Gm;
static int lit(const char *s, char c) { size_t i; for (i = 0; i < 8; i++) { if (s[i] == c) return 1; if (!s[i]) return 0; } return 0; }
char *vp_strchr(const char *s, int c)
{
	size_t i;
	__CPROVER_assert((char)c == Gm, "VP the mode asked for");
	for (i = 0; i < 4; i++) if (s == CM[i]) return F[i] ? (char *)s : NULL;
	return lit(s, (char)c) ? (char *)s : NULL;
}
#define strchr vp_strchr
#include "libirc/isupport.c"
void H(void)
{
	char m; int i, t, w = 0; _Bool none, def, f0, f1, f2, f3; F[0] = f0 ? 1 : 0; F[1] = f1 ? 1 : 0; F[2] = f2 ? 1 : 0; F[3] = f3 ? 1 : 0; Gm = m; __CPROVER_assume(m != 0);
	I.chanmodes = def ? NULL : CM;
	t = network_chanmode_type(m, none ? NULL : &I);
	if (none || def) w = lit("beI", m) ? 1 : m == 'k' ? 2 : m == 'l' ? 3 : lit("imnpsta", m) ? 4 : 0;
	else w = f0 ? 1 : f1 ? 2 : f2 ? 3 : f3 ? 4 : 0;
	__CPROVER_assert(t == w, "VP class of the first list with the mode");
	VREACH("network_chanmode_type");
}
#endif

#ifdef P_005
/* every token of a 005 line, none of the nick before and the text after them */
static struct irc_network_state ST; static struct irc_line L; static char *GA[MAXN + 2]; static char POOL[MAXN + 2]; size_t NA; int Gi, Gdone;
void network_info_parse(struct irc_network_info *i, const char *p) { __CPROVER_assert(i == &I && Gi >= 2 && (size_t)Gi + 1 < NA && p == GA[Gi] && Gdone == 0, "VP each token in turn"); Gdone = 1; }
#include "libirc/isupport.c"
void H(void)
{
	size_t n; __CPROVER_havoc_object(GA); NA = n; __CPROVER_assume(NA >= 1 && NA <= MAXN); ST.info = &I; L.args = GA; L.argc = NA; Gi = 1; Gdone = 1;
	handle_005(&ST, &L);
	__CPROVER_assert(NA < 3 ? Gi == 1 : ((size_t)Gi == NA - 2 && Gdone == 1), "VP all tokens were handled");
	VREACH("handle_005");
}
#endif

#ifdef P_PARSE
/* One token: KEY is the copy of what precedes the first '=' (cut at 15
 * characters, no known key is that long), VAL the copy of what follows it. */
static char TOK[MAXN + 2], KEY[17], VAL[MAXN + 2]; size_t SEP, Lv, Pv; int hasv, Gnum, Gparts, KF, VF, SF, NSplit, Gicons, TS, SM, SN, ST_, SU, SC; static char *V4[5]; static char P0[2], P1[2], P2[2], P3[2];
static char DUP[2], EMPTYDUP[2], TILDE[2], CQR[2];
#define TXT(k) ((k) < Lv ==> VAL[k] != 0)
#define INTS(F) F(casemapping) F(elist_mask_search) F(elist_inverse_mask_search) F(elist_usercount_search) F(elist_creation_time_search) F(elist_topic_search) F(excepts_mode) F(invex_mode) F(deaf_mode) F(keylen) F(ssl) F(silence) F(hcn) F(silence_limit) F(channellen) F(awaylen) F(kicklen) F(maxtargets) F(nicklen) F(userlen) F(hostlen) F(maxchannels) F(topiclen) F(maxbans) F(maxmodes) F(wallchops) F(wallvoices) F(rfc2812) F(penalty) F(forced_nick_changes) F(safelist) F(userip) F(cprivmsg) F(cnotice) F(knock) F(vchannels) F(whox) F(callerid) F(accept) F(capab) F(maxpara) F(namesx) F(securelist) F(watch) F(remove) F(map) F(operoverride) F(vbanlist) F(uhnames) F(esilence)
#define PTRS(F) F(0,name) F(1,server) F(2,supported_user_modes) F(3,supported_channel_modes) F(4,prefix) F(5,chantypes) F(6,charset) F(7,chanlimit) F(8,maxlist) F(9,extban_prefix) F(10,extban_supported) F(11,idchan) F(12,statusmsg) F(13,ircd)
static char OLD[16]; static char *OLDV[2]; int FR[16], OVF; static int lit2(const char *s, char c) { return s[0] == c && s[1] == 0; }
static int clit(const char *a, const char *s) { size_t i; for (i = 0; i < 16; i++) { char x = a[i], y = s[i]; if (x >= 'A' && x <= 'Z') x += 32; if (y >= 'A' && y <= 'Z') y += 32; if (x != y) return 0; if (!y) return 1; } return 0; }
int base_strcmp(const char *a, const char *b) { __CPROVER_assert(a == KEY || a == VAL, "VP compares the key or the value"); return !clit(a, b); }
char *vp_strchr(const char *s, int c) { if (s == TOK) { __CPROVER_assert(c == '=', "VP the value follows the first ="); return hasv ? TOK + SEP : NULL; } __CPROVER_assert(s == VAL && c == ')', "VP end of the modes"); return Pv < Lv ? VAL + Pv : NULL; }
size_t vp_strlen(const char *s) { if (s == VAL) return Lv; __CPROVER_assert(s == VAL + Pv + 1 && Pv < Lv, "VP length of the signs"); return Lv - Pv - 1; }
char *vp_strdup(const char *s)
{
	if (s == NULL) return NULL;
	if (s == TOK) { __CPROVER_assert(!hasv, "VP the whole token is the key"); return KEY; }
	if (s == TOK + SEP + 1) { __CPROVER_assert(hasv, "VP the value"); return VAL; }
	if (s == VAL) return DUP;
	if (s[0] == 0) return EMPTYDUP;
	if (lit2(s, '~')) return TILDE;
	__CPROVER_assert(s[0] == 'c' && s[1] == 'q' && s[2] == 'r' && s[3] == 0, "VP default extended bans"); return CQR;
}
char *vp_strndup(const char *s, size_t n) { __CPROVER_assert(s == TOK && hasv && n == SEP, "VP the key ends before ="); return KEY; }
void vp_free(void *p)
{
	if (p == KEY) KF++; else if (p == VAL) VF++; else if (p == V4) SF++;
	else if (p != NULL) { size_t i = (char *)p - OLD; __CPROVER_assert(__CPROVER_POINTER_OBJECT(p) == __CPROVER_POINTER_OBJECT(OLD) && i < 16, "VP frees an old value"); FR[i]++; }
}
int vp_atoi(const char *s) { __CPROVER_assert(s == VAL, "VP number announced"); return Gnum; }
char **vp_strsplit(const char *s, const char *d, int max)
{
	__CPROVER_assert(lit2(d, ',') && NSplit == 0, "VP splits once, at commas"); NSplit = max;
	__CPROVER_assert(hasv ? s == VAL : s[0] == 0, "VP splits the value");
	__CPROVER_assume(Gparts >= 0 && Gparts <= max && (Gparts == 0) == (!hasv || Lv == 0));
	V4[0] = P0; V4[1] = P1; V4[2] = P2; V4[3] = P3; V4[4] = NULL; V4[Gparts] = NULL; return V4;
}
guint vp_strv_length(char **v) { __CPROVER_assert(v == V4 && NSplit == 4, "VP counts the classes"); return Gparts; }
void vp_strfreev(char **v) { if (v == V4) SF += 10; else if (v == OLDV) OVF++; else __CPROVER_assert(v == NULL, "VP frees the old classes"); }
void network_info_log(enum log_level l, const struct irc_network_info *info, const char *fmt, ...) { }
static void check_chanmodes_inconsistency(struct irc_network_info *i) { __CPROVER_assert(i == &I && I.chanmodes == V4, "VP four classes"); Gicons++; }
#undef g_strdup
#define g_strdup vp_strdup
#define g_strndup vp_strndup
#undef g_free
#define g_free vp_free
#define atoi vp_atoi
#define strlen vp_strlen
#define strchr vp_strchr
#define g_strsplit vp_strsplit
#define g_strv_length vp_strv_length
#define g_strfreev vp_strfreev
#include "libirc/isupport.c"
#define IS(k) clit(KEY, k)
void H(void)
{
	struct irc_network_info X, O; size_t sep, lv, pv; _Bool h, nl[16]; int num, parts, iv, bad;
	SEP = sep; Lv = lv; Pv = pv; hasv = h ? 1 : 0; Gnum = num; Gparts = parts; KF = VF = SF = NSplit = OVF = Gicons = 0; SM = SN = ST_ = SU = SC = 0;
	__CPROVER_havoc_object(KEY); __CPROVER_havoc_object(VAL); __CPROVER_havoc_object(&I);
	__CPROVER_assume(SEP < MAXN && Lv <= MAXN && Pv <= Lv && VAL[Lv] == 0 && KEY[16] == 0 && TXT(0) && TXT(1) && (Pv < Lv ==> VAL[Pv] == ')') && (Lv > 0 && Pv > 0 ==> VAL[0] != ')'));
#define SETP(k, f) I.f = nl[k] ? NULL : OLD + k; FR[k] = 0;
	PTRS(SETP) I.chanmodes = nl[14] ? NULL : OLDV; I.chanmodes_a = I.chanmodes_b = I.chanmodes_c = I.chanmodes_d = NULL;
	O = X = I;
	network_info_parse(&I, TOK);
	iv = hasv ? num : 0; bad = hasv && Lv > 1;
	if (IS("CASEMAPPING")) X.casemapping = !hasv ? CASEMAP_UNKNOWN : clit(VAL, "rfc1459") ? CASEMAP_RFC1459 : clit(VAL, "strict-rfc1459") ? CASEMAP_STRICT_RFC1459 : clit(VAL, "ascii") ? CASEMAP_ASCII : CASEMAP_UNKNOWN;
#define NUM(k, f) if (IS(k)) X.f = iv;
	NUM("NICKLEN", nicklen) NUM("MAXNICKLEN", nicklen) NUM("USERLEN", userlen) NUM("HOSTLEN", hostlen) NUM("CHANNELLEN", channellen) NUM("MAXCHANNELLEN", channellen) NUM("AWAYLEN", awaylen) NUM("KICKLEN", kicklen) NUM("TOPICLEN", topiclen) NUM("WATCH", watch) NUM("MAXPARA", maxpara) NUM("MAXCHANNELS", maxchannels) NUM("MAXTARGETS", maxtargets) NUM("MAXBANS", maxbans) NUM("MODES", maxmodes) NUM("KEYLEN", keylen)
#define FLG(k, f) if (IS(k)) X.f = TRUE;
	FLG("OVERRIDE", operoverride) FLG("VBANLIST", vbanlist) FLG("REMOVE", remove) FLG("WALLCHOPS", wallchops) FLG("MAP", map) FLG("SSL", ssl) FLG("WALLVOICES", wallvoices) FLG("RFC2812", rfc2812) FLG("PENALTY", penalty) FLG("FNC", forced_nick_changes) FLG("SAFELIST", safelist) FLG("USERIP", userip) FLG("CPRIVMSG", cprivmsg) FLG("CNOTICE", cnotice) FLG("KNOCK", knock) FLG("CAPAB", capab) FLG("HCN", hcn) FLG("VCHANNELS", vchannels) FLG("WHOX", whox) FLG("CALLERID", callerid) FLG("ACCEPT", accept) FLG("ESILENCE", esilence) FLG("UHNAMES", uhnames) FLG("NAMESX", namesx) FLG("SECURELIST", securelist) FLG("SILENCE", silence)
	if (IS("SILENCE") && hasv) X.silence_limit = num;
#define TEXT(k, f) if (IS(k)) X.f = hasv ? DUP : NULL;
	TEXT("NETWORK", name) TEXT("IRCD", ircd) TEXT("CHANLIMIT", chanlimit) TEXT("MAXLIST", maxlist) TEXT("IDCHAN", idchan) TEXT("STATUSMSG", statusmsg) TEXT("CHARSET", charset)
	if (IS("CHANTYPES")) X.chantypes = hasv ? DUP : EMPTYDUP;
	if (IS("PREFIX")) { if (!hasv) X.prefix = EMPTYDUP; else if (Lv == 0 || (VAL[0] == '(' && Pv < Lv && Lv == 2 * Pv)) X.prefix = DUP; }
#define LETTER(k, f, d) if (IS(k) && !bad) X.f = hasv ? VAL[0] : d;
	LETTER("EXCEPTS", excepts_mode, 'e') LETTER("INVEX", invex_mode, 'I') LETTER("DEAF", deaf_mode, 'D')
	if (IS("ELIST") && hasv) { if (SM) X.elist_mask_search = TRUE; if (SN) X.elist_inverse_mask_search = TRUE; if (ST_) X.elist_topic_search = TRUE; if (SU) X.elist_usercount_search = TRUE; if (SC) X.elist_creation_time_search = TRUE; }
	if (IS("EXTBAN")) { X.extban_prefix = !hasv ? TILDE : Gparts > 0 ? P0 : NULL; X.extban_supported = !hasv ? CQR : Gparts > 1 ? P1 : NULL; }
	if (IS("CHANMODES")) { int ok = hasv && Gparts == 4; X.chanmodes = ok ? V4 : NULL; X.chanmodes_a = ok ? P0 : NULL; X.chanmodes_b = ok ? P1 : NULL; X.chanmodes_c = ok ? P2 : NULL; X.chanmodes_d = ok ? P3 : NULL; }
#define SAME(f) __CPROVER_assert(I.f == X.f, "VP value of " #f);
#define SAMEP(k, f) __CPROVER_assert(I.f == X.f, "VP value of " #f); __CPROVER_assert(FR[k] == (O.f != NULL && X.f != O.f), "VP old " #f " freed exactly when replaced");
	INTS(SAME) PTRS(SAMEP) SAME(chanmodes) SAME(chanmodes_a) SAME(chanmodes_b) SAME(chanmodes_c) SAME(chanmodes_d)
	__CPROVER_assert(KF == 1 && VF == hasv, "VP copies freed once");
	__CPROVER_assert(OVF == (IS("CHANMODES") && O.chanmodes != NULL) && SF == (NSplit == 2 ? 1 : NSplit == 4 && Gparts != 4 ? 10 : 0) && Gicons == (NSplit == 4 && Gparts == 4), "VP old classes freed exactly when replaced");
	VREACH("network_info_parse");
}
#endif
