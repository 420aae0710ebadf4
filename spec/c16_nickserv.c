/* C16: NickServ passwords (src/nickserv.c) under contract. */
#include "vp.h"
#include "internals.h"
#include "irc.h"
#include "keyfile.h"
#include <glib/gstdio.h>
#include <errno.h>
unsigned char vp_byte;
static struct irc_network N; static struct irc_network_info INFO, RINFO; static struct irc_network_state ST; static struct global G; static struct ctrlproxy_config GC;
static struct keyfile_entry E, E0, NE; static GList CELL, NEWCELL; static char NAME[2], NICK[9], POOL[64], NK[2], NW[2], NEWP[2], DN[2], DW[2], DP[2], RAW[2], FN[2], DIRN[2];
static int left, total, em, es, live, nsent, nlog, raw, fnlive; static char *spec, *wild;
#undef g_free
#undef g_strdup
#undef g_new0
#undef g_strdup_printf
#undef g_build_filename
#undef g_unlink
#define network_log(...) ((void)0)
int vp_cmp(const struct irc_network_info *i, const char *a, const char *b, int n);
int irccmp(const struct irc_network_info *i, const char *a, const char *b) { return vp_cmp(i, a, b, 99); }
int ircncmp(const struct irc_network_info *i, const char *a, const char *b, size_t n) { return vp_cmp(i, a, b, n); }
int vp_casecmp(const char *a, const char *b);
#define strcasecmp vp_casecmp
#define g_ascii_strcasecmp vp_casecmp
gboolean vp_args(struct irc_network *s, const char *a, const char *b, const char *c, const char *d);
#define VPA(s, a, b, c, d, ...) vp_args(s, a, b, c, d)
#define network_send_args(...) VPA(__VA_ARGS__, NULL, NULL, NULL, NULL)
void vp_free(void *p);
#define g_free vp_free
#define g_new0(t, n) ((t *)vp_new(sizeof(t) * (n)))
void *vp_new(size_t n);
char *vp_dup(const char *p);
#define g_strdup vp_dup
static int lo(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int ci(const char *a, const char *b, int n) { int i; for (i = 0; i < n && i < 10; i++) { if (lo(a[i]) != lo(b[i])) return 1; if (!a[i]) return 0; } return 0; }
static int eq(const char *a, const char *b) { int i; for (i = 0; i < 20; i++) { if (a[i] != b[i]) return 0; if (!a[i]) return 1; } return 1; }
#define NET (E.network != NULL)
#define VISIT do { VREACH("loop body"); left--; { unsigned k; _Bool a, b, c; __CPROVER_assume(k < 64); E.nick = NK; E.network = a ? NW : NULL; E.pass = POOL + k; em = b ? 1 : 0; es = c ? 1 : 0; } E0 = E; CELL.data = &E; CELL.next = left > 0 ? &CELL : NULL; if (em && NET && es && !spec) spec = E.pass; if (em && !NET && !wild) wild = E.pass; } while (0)
#define LIST do { int t; total = left = t; __CPROVER_assume(total >= 0 && total <= 1000000000); CELL.data = &E; CELL.next = left > 1 ? &CELL : NULL; G.nickserv_nicks = left > 0 ? &CELL : NULL; N.global = &G; N.info = &INFO; N.name = NAME; N.external_state = &ST; ST.info = &RINFO; ST.me.nick = NICK; G.config = &GC; spec = wild = NULL; } while (0)
#ifndef P_CACHE
void *vp_new(size_t n) { return &NE; }
#endif
#ifdef P_FIND
int vp_cmp(const struct irc_network_info *i, const char *a, const char *b, int n) { __CPROVER_assert(i == &INFO && n == 99 && ((a == NK && b == NICK) || (a == NICK && b == NK)), "VP nicks as this network compares them"); return !em; }
int vp_casecmp(const char *a, const char *b) { __CPROVER_assert(NET && ((a == NW && b == NAME) || (a == NAME && b == NW)), "VP the network of the entry"); return !es; }
gboolean vp_args(struct irc_network *s, const char *a, const char *b, const char *c, const char *d) { __CPROVER_assert(0, "VP nothing is sent"); return 0; }
void vp_free(void *p) { __CPROVER_assert(0, "VP nothing is released"); }
char *vp_dup(const char *p) { return NULL; }
#include "src/nickserv.c"
void H(void)
{
	const char *r; LIST;
	r = nickserv_find_nick(&N, NICK);
	__CPROVER_assert(r == (spec ? spec : wild), "VP the password for this nick on this network, or else on any network");
	__CPROVER_assert(spec || left == 0, "VP every entry is looked at");
	VREACH("nickserv_find_nick");
}
#endif
#ifdef P_CACHE
const char *nickserv_find_nick(struct irc_network *n, const char *nick); static char *FP; static int same, nnew, npre, ndp; static struct keyfile_entry *seen;
int vp_cmp(const struct irc_network_info *i, const char *a, const char *b, int n) { __CPROVER_assert((i == &INFO || i == &RINFO) && n == 99 && ((a == NK && b == NICK) || (a == NICK && b == NK)), "VP nicks as this network compares them"); return !em; }
int vp_casecmp(const char *a, const char *b) { __CPROVER_assert(a && b && NET && ((a == NW && b == NAME) || (a == NAME && b == NW)), "VP the network of the entry"); return !es; }
gboolean vp_args(struct irc_network *s, const char *a, const char *b, const char *c, const char *d) { __CPROVER_assert(0, "VP nothing is sent"); return 0; }
void vp_free(void *p) { __CPROVER_assert(p == NULL || (p == E0.pass && spec == p), "VP only the password that is replaced is released"); }
char *vp_dup(const char *p) { if (p == NICK) return DN; if (p == NAME) return DW; __CPROVER_assert(p == NEWP && !ndp, "VP a copy of the new password"); ndp = 1; return DP; }
void *vp_new(size_t n) { __CPROVER_assert(n == sizeof NE && !nnew && !spec && left == 0, "VP a new entry, if there is none"); nnew = 1; NE.nick = NE.network = NE.pass = NULL; return &NE; }
GList *g_list_prepend(GList *l, gpointer d) { __CPROVER_assert(l == (total > 0 ? &CELL : NULL) && d == &NE && !npre, "VP added to what is known"); npre = 1; NEWCELL.data = d; NEWCELL.next = l; return &NEWCELL; }
GList *g_list_append(GList *l, gpointer d) { return g_list_prepend(l, d); }
int vp_scmp(const char *a, const char *b) { __CPROVER_assert((a == FP && b == NEWP) || (b == FP && a == NEWP), "VP the password known"); return !same; }
#define strcmp vp_scmp
#include "src/nickserv.c"
#undef strcmp
const char *nickserv_find_nick(struct irc_network *n, const char *nick) { __CPROVER_assert(n == &N && nick == NICK, "VP this nick on this network"); return FP; }
void H(void)
{
	_Bool l, f, s; char *h0; LIST; GC.learn_nickserv = l ? 1 : 0; FP = f ? POOL : NULL; same = f && s; nnew = npre = ndp = 0; E0.pass = NULL; E0.nick = NULL; E0.network = NULL; E = E0; h0 = (char *)G.nickserv_nicks;
	cache_nickserv_pass(&N, NEWP);
	if (!l || same) { __CPROVER_assert(!nnew && !npre && !ndp && left == total && (char *)G.nickserv_nicks == h0, "VP nothing is learned unless it is new and learning is on"); VREACH("known"); return; }
	__CPROVER_assert(E.nick == E0.nick && E.network == E0.network, "VP the entries stay");
	if (spec) { VREACH("replaced"); __CPROVER_assert(em && es && E.pass == DP && ndp && !nnew && !npre && (char *)G.nickserv_nicks == h0, "VP the password of this nick on this network is replaced"); }
	else { __CPROVER_assert(left == 0 && E.pass == E0.pass && nnew && npre && ndp && NE.nick == DN && NE.network == DW && NE.pass == DP && G.nickserv_nicks == &NEWCELL, "VP or added, and no other is changed"); VREACH("added"); }
}
#endif
#ifdef P_IDENT
const char *nickserv_find_nick(struct irc_network *n, const char *nick); static char *FP; static int nfind;
int vp_cmp(const struct irc_network_info *i, const char *a, const char *b, int n) { return 1; }
int vp_casecmp(const char *a, const char *b) { return 1; }
gboolean vp_args(struct irc_network *s, const char *a, const char *b, const char *c, const char *d) { __CPROVER_assert(s == &N && eq(a, "PRIVMSG") && eq(b, "NickServ") && c == RAW && raw == 1 && d == NULL && !nsent, "VP to NickServ on this network only"); nsent = 1; return nondet_uchar() & 1; }
void vp_free(void *p) { __CPROVER_assert(p == RAW && raw == 1 && nsent, "VP released once"); raw = 2; }
char *vp_dup(const char *p) { return NULL; }
char *vp_fmt(const char *f, const char *p, const char *z) { __CPROVER_assert(eq(f, "IDENTIFY %s") && p == FP && FP != NULL && !raw, "VP the password for this nick"); raw = 1; return RAW; }
#define VPF(f, a, b, ...) vp_fmt(f, a, b)
#define g_strdup_printf(...) VPF(__VA_ARGS__, NULL, NULL)
#include "src/nickserv.c"
const char *nickserv_find_nick(struct irc_network *n, const char *nick) { __CPROVER_assert(n == &N && nick == NICK, "VP this nick on this network"); return FP; }
void H(void)
{
	_Bool f; LIST; FP = f ? POOL : NULL; __CPROVER_havoc_object(&ST.me.modes); { char r; ST.me.modes['R'] = r; } nsent = raw = 0;
	nickserv_identify_me(&N, NICK);
	__CPROVER_assert(nsent == (FP != NULL && !ST.me.modes['R']) && raw == 2 * nsent, "VP identifies once if a password is known, unless already identified");
	VREACH("nickserv_identify_me");
}
#endif
#ifdef P_LOG
const char *nickserv_find_nick(struct irc_network *n, const char *nick); static void cache_nickserv_pass(struct irc_network *n, const char *p);
static char *GA[4], A0[10], A1[10], A2[12], ATT[10], ATT2[10], ORIG[2], *att; static size_t NA; static struct irc_line L; static char *FP; static int nid, ncache, nghost, nnick, dir; static const char *cached, *fpn;
static int isarg(const char *p) { return p && (p == GA[0] || p == GA[1] || p == GA[2] || (att && p == att)); }
int vp_cmp(const struct irc_network_info *i, const char *a, const char *b, int n) { __CPROVER_assert(i == &INFO && a != NULL && b != NULL && (isarg(a) || isarg(b)), "VP compares what is there"); return ci(a, b, n); }
int vp_casecmp(const char *a, const char *b) { __CPROVER_assert(a && b, "VP compares what is there"); return ci(a, b, 99); }
void vp_free(void *p) { if (p == NULL) return; if (p == RAW) { __CPROVER_assert(raw == 1, "VP released once"); raw = 0; } else { __CPROVER_assert(p == att && att, "VP the last attempt is released once"); att = NULL; } }
char *vp_dup(const char *p) { char *r; __CPROVER_assert(p == GA[1] && att == NULL && dir == TO_SERVER, "VP the nick that is tried"); if (!p) return NULL; r = live ? ATT2 : ATT; live = !live; { int i; for (i = 0; i < 10; i++) r[i] = p[i]; } att = r; return r; }
char *vp_fmt(const char *f, const char *n, const char *p) { __CPROVER_assert(eq(f, "GHOST %s %s") && n == att && att && p == FP && FP && fpn == att && !raw, "VP the password of the nick that was tried"); raw = 1; return RAW; }
#define VPF(f, a, b, ...) vp_fmt(f, a, b)
#define g_strdup_printf(...) VPF(__VA_ARGS__, NULL, NULL)
gboolean vp_args(struct irc_network *s, const char *a, const char *b, const char *c, const char *d)
{
	__CPROVER_assert(s == &N && d == NULL && dir == FROM_SERVER, "VP on this network");
	if (a[0] == 'N') { __CPROVER_assert(eq(a, "NICK") && b == att && att && c == NULL && nghost && !nnick, "VP tries the nick again"); nnick = 1; }
	else { __CPROVER_assert(eq(a, "PRIVMSG") && eq(b, "NickServ") && c == RAW && raw == 1 && !nghost, "VP to NickServ only"); nghost = 1; }
	return 1;
}
long vp_atol(const char *s); static int resp;
#undef atol
#undef atoi
long vp_atol(const char *s) { __CPROVER_assert(s == GA[0], "VP the reply code"); return resp; }
#define atol vp_atol
#define atoi vp_atol
#include "src/nickserv.c"
#undef g_free
#undef g_strdup
const char *nickserv_find_nick(struct irc_network *n, const char *nick) { __CPROVER_assert(n == &N && nick && nick == att, "VP the nick that was tried, on this network"); fpn = nick; return FP; }
void nickserv_identify_me(struct irc_network *n, char *nick) { __CPROVER_assert(n == &N && nick == GA[1] && nick && !nid, "VP identifies for the nick"); nid = 1; }
static void cache_nickserv_pass(struct irc_network *n, const char *p) { __CPROVER_assert(n == &N && !ncache && p != NULL, "VP learns a password once"); ncache = 1; cached = p; }
#define IS(a, w) (!ci(a, w, 10))
static void line(void)
{
	size_t n; _Bool d, f; int k; NA = n; __CPROVER_assume(NA >= 1 && NA <= 3); __CPROVER_havoc_object(A0); __CPROVER_havoc_object(A1); __CPROVER_havoc_object(A2); A0[9] = A1[9] = A2[11] = 0; GA[0] = A0; GA[1] = NA > 1 ? A1 : NULL; GA[2] = NA > 2 ? A2 : NULL; GA[3] = NULL; L.args = GA; L.argc = NA; L.origin = ORIG; dir = d ? TO_SERVER : FROM_SERVER; FP = f ? POOL : NULL; resp = 0; { int r; if (A0[0] >= '0' && A0[0] <= '9') resp = r; } nid = ncache = nghost = nnick = raw = 0; cached = fpn = NULL;
}
static void one(void)
{
	char old[10]; int has = att != NULL, i; gboolean r; for (i = 0; i < 10; i++) old[i] = has ? att[i] : 0;
	r = log_data(&N, &L, dir, NULL);
	__CPROVER_assert(r && !raw && L.args == GA && L.argc == NA && GA[0] == A0, "VP the line goes on as it is");
	if (dir == TO_SERVER && IS(A0, "NICK")) __CPROVER_assert((att != NULL) == (NA > 1) && (!att || eq(att, A1)), "VP remembers the nick that is tried"); else __CPROVER_assert((att != NULL) == has && (!att || eq(att, old)), "VP and no other");
	__CPROVER_assert(nid == (dir == FROM_SERVER && NA > 1 && IS(A0, "NICK") && has && IS(A1, old)), "VP identifies when the nick was got");
	{ int a = dir == TO_SERVER && NA > 2 && (IS(A0, "PRIVMSG") || IS(A0, "NOTICE")) && IS(A1, "NickServ") && !ci(A2, "IDENTIFY ", 9), b = dir == TO_SERVER && NA > 2 && IS(A0, "NS") && IS(A1, "IDENTIFY"); __CPROVER_assert(ncache == (a || b) && (!a || cached == A2 + 9) && (!b || cached == A2), "VP learns what the user tells NickServ, and nothing else"); }
	__CPROVER_assert(nghost == (dir == FROM_SERVER && resp == ERR_NICKNAMEINUSE && has && FP) && nnick == nghost, "VP a nick in use is freed and tried again, if it is one's own");
}
void H(void)
{
	_Bool t; LIST; att = NULL; live = 0; if (t) { line(); one(); VREACH("before"); }
	line(); one(); VREACH("log_data");
}
#endif
#ifdef P_SAVE
int vp_cmp(const struct irc_network_info *i, const char *a, const char *b, int n) { return 1; }
int vp_casecmp(const char *a, const char *b) { return 1; }
gboolean vp_args(struct irc_network *s, const char *a, const char *b, const char *c, const char *d) { return 0; }
void vp_free(void *p) { __CPROVER_assert(p == FN && fnlive == 1, "VP released once"); fnlive = 0; }
char *vp_dup(const char *p) { return NULL; }
static int nwr, nrd, nun, res, err; static const char *wantdir;
char *vp_path(const char *d, const char *f, const char *e) { __CPROVER_assert(d == wantdir && eq(f, "nickserv") && e == NULL && !fnlive, "VP the nickserv file"); fnlive = 1; return FN; }
#define g_build_filename vp_path
int vp_unlink(const char *f) { __CPROVER_assert(f == FN && fnlive && !G.nickserv_nicks && !nun, "VP removed if nothing is known"); nun = 1; errno = err; return res ? 0 : -1; }
#define g_unlink vp_unlink
#define unlink vp_unlink
gboolean keyfile_write_file(GList *e, const char *h, const char *f) { int i; __CPROVER_assert(e == G.nickserv_nicks && e && f == FN && fnlive && !nwr && h[0] == '#', "VP all entries are written"); for (i = 0; i < 300 && h[i]; i++) if (h[i] == '\n') __CPROVER_assert(!h[i + 1] || h[i + 1] == '#', "VP the header is a comment"); __CPROVER_assert(!h[i] && h[i - 1] == '\n', "VP the header ends a line"); nwr = 1; return res; }
gboolean keyfile_read_file(const char *f, char c, GList **l) { __CPROVER_assert(f == FN && fnlive && c == '#' && l == &G.nickserv_nicks && !nrd, "VP all entries are read"); nrd = 1; return res; }
#include "src/nickserv.c"
void H(void)
{
	gboolean r; _Bool a, b; int e; LIST; GC.config_dir = NAME; res = a ? 1 : 0; err = e; fnlive = nwr = nrd = nun = 0;
	if (b) { wantdir = DIRN; r = nickserv_save(&G, DIRN); __CPROVER_assert(nwr == (total > 0) && nun == (total == 0) && !nrd && (r != 0) == (res || (nun && err == ENOENT)) && !fnlive, "VP saved in the directory, or reported"); VREACH("nickserv_save"); }
	else { wantdir = NAME; r = nickserv_load(&G); __CPROVER_assert(nrd && !nwr && !nun && (r != 0) == res && !fnlive, "VP loaded from the configuration"); VREACH("nickserv_load"); }
}
#endif
