/* C09: CTCP requests and replies (src/ctcp.c, src/ctcp_redirect.c) under
 * contract; registered handlers and pending requests are lists of any length. */
#include "vp.h"
#include "internals.h"
#include "irc.h"
unsigned char vp_byte;
#define MAXN 24
static struct irc_network N, N2; static struct irc_network_info INFO; static struct irc_line L; static char *GA[4], CMD[2], TGT[2], ORIG[2], NICK[2];
static char TXT[MAXN + 2], TB[MAXN + 2]; size_t TN; int Gspace, Gfirst, Glast; /* index in TB or -1 */
size_t KB, SB; int gone;
#include "lists.h"
#undef g_free
#undef g_strdup
#undef g_strsplit
#undef g_strfreev
#undef network_log
#undef client_log
#define network_log(...) ((void)0)
#define client_log(...) ((void)0)
static int frees, nickfrees, splitfrees, dupout;
#ifdef P_REQ
#define NBI 7
int Gb; static char ARG0[14], *ARGS[4]; int Gempty, Gma, Gmb; static char NMA[2], NMB[2]; static int Ca, Cb, Cbi, nerr, ndup; static int bi_mask;
void vp_free(void *p) { if (p == TB) frees++; else { __CPROVER_assert(p == NICK, "VP frees what it made"); nickfrees++; } }
char *vp_strdup(const char *s) { __CPROVER_assert(s == TXT + 1, "VP the request without its mark"); return TB; }
char *vp_strchr(const char *s, int c) { __CPROVER_assert(s == TB && c == 1, "VP looks for the end of the request"); return Gfirst < 0 ? NULL : TB + Gfirst; }
char **vp_split(const char *s, const char *d, int m) { __CPROVER_assert(s == TB && TB[Gfirst] == 0 && d[0] == ' ' && d[1] == 0 && m <= 0, "VP words of the request"); return ARGS; }
void vp_freev(char **v) { __CPROVER_assert(v == ARGS, "VP words"); splitfrees++; }
#define lo(c) ((c) >= 'A' && (c) <= 'Z' ? (c) + 32 : (c))
// c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int isb(const char *x);
int vp_casecmp(const char *a, const char *b) { const char *x = b == ARG0 ? a : b; __CPROVER_assert(a != NULL && b != NULL && (a == ARG0 || b == ARG0), "VP compares the command"); if (x == NMA) return !Gma; if (x == NMB) return !Gmb; return !isb(x); }
char *line_get_nick(const struct irc_line *l) { __CPROVER_assert(l == &L, "VP who asks"); return NICK; }
#define g_free vp_free
#define g_strdup vp_strdup
#define strchr vp_strchr
#define g_strsplit vp_split
#define g_strfreev vp_freev
#define strcasecmp vp_casecmp
static void handle_version(struct ctcp_handle *h, const char **a), handle_source(struct ctcp_handle *h, const char **a), handle_ping(struct ctcp_handle *h, const char **a), handle_finger(struct ctcp_handle *h, const char **a), handle_time(struct ctcp_handle *h, const char **a);
static void vp_reply(struct ctcp_handle *h, const char *a);
#define VPA(h, a, ...) vp_reply(h, a)
#define ctcp_reply(...) VPA(__VA_ARGS__, NULL)
#include "src/ctcp.c"
static void vp_reply(struct ctcp_handle *h, const char *a) { __CPROVER_assert(h->network == &N && h->nick == NICK && a[0] == 'E' && a[1] == 'R' && a[2] == 'R' && a[3] == 'M' && a[4] == 'S' && a[5] == 'G' && a[6] == 0, "VP error reply to the asker"); nerr++; }
#define BN(i) (sizeof builtins / sizeof *builtins > i && x == builtins[i].name && Gb == i)
static int isb(const char *x) { return BN(0) || BN(1) || BN(2) || BN(3) || BN(4) || BN(5) || BN(6) || BN(7) || BN(8) || BN(9); }
static int eqs(const char *a, const char *b) { int i; for (i = 0; i < 11; i++) { if (a[i] != b[i]) return 0; if (!a[i]) return 1; } return 1; }
static void okh(struct ctcp_handle *h, const char **args) { __CPROVER_assert(h->network == &N && h->nick == NICK && args == (const char **)ARGS && !nickfrees && !splitfrees && !frees, "VP handler gets the asker and the words"); }
static void handle_version(struct ctcp_handle *h, const char **a) { okh(h, a); bi_mask |= 1; Cbi++; }
static void handle_clientinfo(struct ctcp_handle *h, const char **a) { okh(h, a); bi_mask |= 2; Cbi++; }
static void handle_source(struct ctcp_handle *h, const char **a) { okh(h, a); bi_mask |= 4; Cbi++; }
static void handle_ping(struct ctcp_handle *h, const char **a) { okh(h, a); bi_mask |= 8; Cbi++; }
static void handle_finger(struct ctcp_handle *h, const char **a) { okh(h, a); bi_mask |= 16; Cbi++; }
static void handle_time(struct ctcp_handle *h, const char **a) { okh(h, a); bi_mask |= 32; Cbi++; }
static void fa(struct ctcp_handle *h, const char **a) { okh(h, a); Ca++; }
static void fb(struct ctcp_handle *h, const char **a) { okh(h, a); Cb++; }
#define NB (int)(sizeof builtins / sizeof *builtins - 1)
void H(void)
{
	_Bool e, a, b, na, nb; static struct ctcp_handler HA, HB; gboolean r; int f, want;
	int gb; __CPROVER_assume(gb >= 0 && gb <= NB); Gb = gb;
	Gempty = e ? 1 : 0; Gma = a ? 1 : 0; Gmb = b ? 1 : 0; ARGS[0] = Gempty ? NULL : ARG0; ARGS[1] = NULL; __CPROVER_assume(f >= -1 && f <= MAXN); Gfirst = f; TXT[0] = 1;
	GA[0] = CMD; GA[1] = TGT; GA[2] = TXT; GA[3] = NULL; L.args = GA; L.argc = 3; L.origin = ORIG;
	frees = nickfrees = splitfrees = Ca = Cb = Cbi = nerr = bi_mask = 0;
	vp_list(&HA, &HB); HA.name = NMA; HB.name = NMB; HA.fn = na ? NULL : fa; HB.fn = nb ? NULL : fb; cmds = Ghead;
	r = ctcp_process_request(&N, &L);
	__CPROVER_assert(frees == 1 && nickfrees == 1, "VP nothing leaks");
	if (Gfirst < 0 || Gempty) __CPROVER_assert(!r && !Ca && !Cb && !Cbi && !nerr, "VP a malformed or empty request gets no answer");
	else {
		const char *w = Gb < NB ? builtins[Gb].name : NULL; int known = w != NULL, act = known && eqs(w, "ACTION"); want = !known ? 0 : eqs(w, "VERSION") ? 1 : eqs(w, "CLIENTINFO") ? 2 : eqs(w, "SOURCE") ? 4 : eqs(w, "PING") ? 8 : eqs(w, "FINGER") ? 16 : eqs(w, "TIME") ? 32 : 0;
		__CPROVER_assert(splitfrees == 1 && Ca + Cb + Cbi + nerr <= 1, "VP at most one answer");
		if ((seenA && Gma) || (seenB && Gmb)) {
			__CPROVER_assert(r && !Cbi && !nerr && !(seenA && Gma && seenB && Gmb), "VP a registered handler goes first, the first of them");
			__CPROVER_assert(Ca == (seenA && Gma && HA.fn != NULL) && Cb == (seenB && Gmb && HB.fn != NULL), "VP that handler runs once");
		} else {
			__CPROVER_assert(ALLSEEN && !Ca && !Cb, "VP no registered handler knows it");
			if (want || act) __CPROVER_assert(r && bi_mask == want && Cbi == (want != 0) && !nerr, "VP the builtin handler runs once");
			else __CPROVER_assert(!r && nerr == 1 && !Cbi, "VP unknown requests get one error reply");
		}
	}
	VREACH("ctcp_process_request");
}
#endif
#ifdef P_CMD
void vp_free(void *p) { __CPROVER_assert(p == TB, "VP frees its copy"); frees++; }
char *vp_strdup(const char *s) { __CPROVER_assert(s == TXT + 1, "VP the text without its mark"); return TB; }
char *vp_strchr(const char *s, int c) { __CPROVER_assert(s == TB && c == ' ', "VP the command ends at a space"); return Gspace < 0 ? NULL : TB + Gspace; }
char *vp_strrchr(const char *s, int c) { __CPROVER_assert(s == TB && c == 1 && Gspace < 0, "VP or at the last mark"); return Glast < 0 ? NULL : TB + Glast; }
#define g_free vp_free
#define g_strdup vp_strdup
#define strchr vp_strchr
#define strrchr vp_strrchr
#include "src/ctcp_redirect.c"
void H(void)
{
	char *r; int s, l; size_t k; char old; __CPROVER_assume(s >= -1 && s < MAXN && l >= -1 && l < MAXN && k < MAXN); Gspace = s; Glast = l; TXT[0] = 1; frees = 0; __CPROVER_havoc_object(TB); old = TB[k];
	r = get_ctcp_command(TXT);
	if (Gspace < 0 && Glast < 0) __CPROVER_assert(r == NULL && frees == 1, "VP malformed");
	else { size_t e = Gspace >= 0 ? Gspace : Glast; __CPROVER_assert(r == TB && !frees && TB[e] == 0 && (k == e || TB[k] == old), "VP the word up to the space, or up to the closing mark"); }
	VREACH("get_ctcp_command");
}
#endif
#ifdef P_REC
static struct irc_client C; static char DT[2]; int Gchan, Gcmd; static int napp; static void *app; static GList NEWL, OLDL; char *get_ctcp_command(const char *d);
char *vp_strdup(const char *s) { __CPROVER_assert(s == TGT, "VP keeps the target"); return DT; }
gboolean is_channelname(const char *n, const struct irc_network_info *i) { __CPROVER_assert(n == TGT && i == &INFO, "VP is it a channel here"); return Gchan; }
GList *vp_append(GList *l, void *d) { __CPROVER_assert(l == &OLDL, "VP added at the end"); napp++; app = d; return &NEWL; }
#define g_strdup vp_strdup
#define g_list_append vp_append
#include "src/ctcp_redirect.c"
char *get_ctcp_command(const char *d) { __CPROVER_assert(d == TXT, "VP the command of the text"); return Gcmd ? TB : NULL; }
void H(void)
{
	_Bool a, b; gboolean r; struct ctcp_request *q; Gchan = a ? 1 : 0; Gcmd = b ? 1 : 0; napp = 0; app = NULL; C.network = &N; N.info = &INFO; GA[0] = CMD; GA[1] = TGT; GA[2] = TXT; GA[3] = NULL; L.args = GA; L.argc = 3; ctcp_request_queue = &OLDL;
	r = ctcp_client_request_record(&C, &L); q = app;
	if (!Gcmd) __CPROVER_assert(!r && !napp && ctcp_request_queue == &OLDL, "VP a malformed request is not remembered");
	else __CPROVER_assert(r && napp == 1 && ctcp_request_queue == &NEWL && q->client == &C && q->command == TB && q->destination == (Gchan ? NULL : DT), "VP the request is remembered: who asked what of whom");
	VREACH("ctcp_client_request_record");
}
#endif
#ifdef P_REDIR
static struct irc_client CA_, CB_; static char DA[2], DB[2], KA[2], KBB[2]; int Gcmd, Gda, Gdb, Gka, Gkb, Gna, Gnb; static int nsend, nrem, reqfree; static struct irc_client *to; static const void *rem; static GList NEWL;
char *line_get_nick(const struct irc_line *l) { return NICK; }
char *get_ctcp_command(const char *d);
void vp_free(void *p); GList *vp_remove(GList *l, const void *d);
int vp_strcmp(const char *a, const char *b) { const char *x = a == NICK || a == TB ? b : a, *y = x == a ? b : a; if (y == NICK) { __CPROVER_assert(x == DA || x == DB, "VP compares the target with who answers"); return x == DA ? !Gda : !Gdb; } __CPROVER_assert(y == TB && (x == KA || x == KBB), "VP compares the commands"); return x == KA ? !Gka : !Gkb; }
gboolean client_send_line(struct irc_client *c, const struct irc_line *l, GError **e) { __CPROVER_assert(l == &L && !frees && !nrem, "VP the reply goes to a client"); nsend++; to = c; return 1; }
#define g_free vp_free
#define strcmp vp_strcmp
#define g_list_remove vp_remove
int MA, MB;
#include "src/ctcp_redirect.c"
static struct ctcp_request QA, QB; 
char *get_ctcp_command(const char *d) { __CPROVER_assert(d == TXT, "VP the command of the text"); return Gcmd ? TB : NULL; }
void vp_free(void *p) { if (p == NICK) nickfrees++; else if (p == TB) frees++; else { __CPROVER_assert(nsend == 1 && (p == NULL || p == (void *)rem || (to == &CA_ ? p == DA || p == KA || p == &QA : p == DB || p == KBB || p == &QB)), "VP frees the answered request"); if (p == &QA || p == &QB) reqfree++; } }
GList *vp_remove(GList *l, const void *d) { __CPROVER_assert(l == Ghead && !nrem && nsend == 1 && d == (to == &CA_ ? &QA : &QB) && !reqfree, "VP the answered request goes"); nrem++; rem = d; return &NEWL; }
void H(void)
{
	_Bool a, b, c, d, e, f, g, h, i; gboolean r; Gcmd = a ? 1 : 0; Gda = b ? 1 : 0; Gdb = c ? 1 : 0; Gka = d ? 1 : 0; Gkb = e ? 1 : 0; Gna = f ? 1 : 0; Gnb = g ? 1 : 0; nsend = nrem = reqfree = frees = nickfrees = 0; to = NULL; rem = NULL;
	QA.client = &CA_; QB.client = &CB_; CA_.network = Gna ? &N : &N2; CB_.network = Gnb ? &N : &N2; QA.destination = h ? NULL : DA; QB.destination = i ? NULL : DB; QA.command = KA; QB.command = KBB;
	GA[0] = CMD; GA[1] = TGT; GA[2] = TXT; GA[3] = NULL; L.args = GA; L.argc = 3; L.origin = ORIG; vp_list(&QA, &QB); MA = Gna && (QA.destination == NULL || Gda) && Gka; MB = Gnb && (QB.destination == NULL || Gdb) && Gkb; ctcp_request_queue = Ghead;
	r = ctcp_network_redirect_response(&N, &L);
	__CPROVER_assert(nickfrees == 1 && frees == Gcmd && !r == !Gcmd, "VP nothing leaks");
	if (!Gcmd) __CPROVER_assert(!nsend && ctcp_request_queue == Ghead && !nrem, "VP a malformed reply goes nowhere");
	else if (nsend) __CPROVER_assert(nsend == 1 && nrem == 1 && reqfree == 1 && ctcp_request_queue == &NEWL && (to == &CA_ ? seenA && MA && !(seenB && MB) : to == &CB_ && seenB && MB && !(seenA && MA)), "VP the oldest request that fits is answered, once");
	else __CPROVER_assert(ALLSEEN && !(seenA && MA) && !(seenB && MB) && !nrem && ctcp_request_queue == Ghead, "VP nobody asked");
	VREACH("ctcp_network_redirect_response");
}
#endif
