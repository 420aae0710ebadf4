/* C17: networks, channels and their keys in the configuration (src/settings.c) under contract. */
#include "vp.h"
#define union struct
#include "internals.h"
#undef union
#include "irc.h"
#include "keyfile.h"
#include "ssl.h"
#include <glib/gstdio.h>
#include <string.h>
unsigned char vp_byte;
#define MAXC 20
static struct network_config N; static struct channel_config C, OC, NEWC; static struct ctrlproxy_config CFG; static GKeyFile *KF; static struct { int x; } KFO; static GList CELL, KL; static struct keyfile_entry KE, NKE; static char GN[2], NN[2], NICK[4], FULL[4], USER[4], PASS[2], CMD0[2], *CMDS[2], BIND[2], FILEN[2], DIRN[2], NDIR[2], KFN[2], POOL[64], KEYP[64], KW[2], KN[2], KP[2], D1[2], D2[2], NAME[2], PROG[2], VIRT[2]; static char *AJ[MAXC + 1], *AL[MAXC + 1]; static int left, total, owed, idx, KI, kpos, naj, npend, saved, ajlive, set, rem; static char *kname; static GList *KHEAD, *KEYS;
static int eq(const char *a, const char *b) { int i; for (i = 0; i < 20; i++) { if (a[i] != b[i]) return 0; if (!a[i]) return 1; } return 1; }
#undef g_free
#undef g_strdup
#undef g_new0
#undef g_strdup_printf
#undef g_build_filename
#undef g_unlink
#undef g_mkdir
#undef g_list_append
#undef g_list_length
#undef g_strv_length
#undef g_strfreev
#define log_global(...) ((void)0)
#define g_warning(...) ((void)0)
#define fprintf(...) 0
#define printf(...) 0
void vp_free(void *p);
#define g_free vp_free
char *vp_dup(const char *p);
#define g_strdup vp_dup
void *vp_new(const char *t, size_t s, size_t n);
#define g_new0(t, n) ((t *)vp_new(#t, sizeof(t), n))
GList *vp_append(GList *l, gpointer d);
#define g_list_append vp_append
guint vp_len(GList *l);
#define g_list_length vp_len
enum { FULLN = 1, NICKN = 2, USERN = 4, BINDN = 8, VIRTN = 16, PROGN = 32, CMDN = 64, QN = 128, RN = 256, AJN = 512, ACN = 1024, PWN = 2048, IGN = 4096 };
static int keyid(const char *k) { return eq(k, "fullname") ? FULLN : eq(k, "nick") ? NICKN : eq(k, "username") ? USERN : eq(k, "bind") ? BINDN : eq(k, "virtual") ? VIRTN : eq(k, "program") ? PROGN : eq(k, "autocmd") ? CMDN : eq(k, "queue-speed") ? QN : eq(k, "reconnect-interval") ? RN : eq(k, "autojoin") ? AJN : eq(k, "autoconnect") ? ACN : eq(k, "password") ? PWN : eq(k, "ignore_first_nick") ? IGN : 0; }
void vp_set(GKeyFile *k, const char *g, const char *n, const char *v);
#define g_key_file_set_string vp_set
void vp_seti(GKeyFile *k, const char *g, const char *n, int v);
#define g_key_file_set_integer vp_seti
#define g_key_file_set_boolean(k, g, n, v) ((void)0)
gboolean vp_remk(GKeyFile *k, const char *g, const char *n, GError **e);
#define g_key_file_remove_key vp_remk
gboolean vp_remg(GKeyFile *k, const char *n, GError **e);
#define g_key_file_remove_group vp_remg
void vp_setl(GKeyFile *k, const char *g, const char *n, const char *const *v, size_t c);
#define g_key_file_set_string_list(k, g, n, v, c) vp_setl(k, g, n, (const char *const *)(v), c)
gboolean vp_has(GKeyFile *k, const char *g, const char *n, GError **e);
#define g_key_file_has_key vp_has
char *vp_get(GKeyFile *k, const char *g, const char *n, GError **e);
#define g_key_file_get_string vp_get
int vp_geti(GKeyFile *k, const char *g, const char *n, GError **e);
#define g_key_file_get_integer vp_geti
#define g_key_file_get_boolean(k, g, n, e) (vp_geti(k, g, n, e) != 0)
char **vp_getl(GKeyFile *k, const char *g, const char *n, gsize *c, GError **e);
#define g_key_file_get_string_list vp_getl
void vp_freev(char **p);
#define g_strfreev vp_freev
#define g_strv_length(p) (1)
int vp_unlink(const char *f);
#define g_unlink vp_unlink
#define unlink vp_unlink
#define VPP(d, f, e, ...) vp_path(d, f, e)
char *vp_path(const char *d, const char *f, const char *e);
#define g_build_filename(...) VPP(__VA_ARGS__, NULL, NULL)
int vp_isdir(const char *f);
#define g_file_test(f, t) vp_isdir(f)
int vp_mkdir(const char *f, int m);
#define g_mkdir vp_mkdir
int vp_case(const char *a, const char *b);
#define strcasecmp vp_case
#define g_ascii_strcasecmp vp_case
gboolean vp_kfnew(void); static int nkf;
#define g_key_file_new() (nkf++, (GKeyFile *)&KFO)
#ifndef P_SAVENET
void vp_set(GKeyFile *k, const char *g, const char *n, const char *v) { }
void vp_seti(GKeyFile *k, const char *g, const char *n, int v) { }
gboolean vp_remg(GKeyFile *k, const char *n, GError **e) { return 1; }
#endif
#if !defined(P_SAVENET) && !defined(P_SAVECFG)
gboolean vp_remk(GKeyFile *k, const char *g, const char *n, GError **e) { return 1; }
void vp_setl(GKeyFile *k, const char *g, const char *n, const char *const *v, size_t c) { }
guint vp_len(GList *l) { return 0; }
#endif
#ifndef P_LOAD
#ifndef P_SAVECFG
gboolean vp_has(GKeyFile *k, const char *g, const char *n, GError **e) { return 0; }
#else
gboolean vp_has(GKeyFile *k, const char *g, const char *n, GError **e) { return nondet_uchar() & 1; }
#endif
char *vp_get(GKeyFile *k, const char *g, const char *n, GError **e) { return NULL; }
int vp_geti(GKeyFile *k, const char *g, const char *n, GError **e) { return 0; }
char **vp_getl(GKeyFile *k, const char *g, const char *n, gsize *c, GError **e) { return NULL; }
void vp_freev(char **p) { }
#endif
#if !defined(P_SAVENETS) && !defined(P_SAVECFG)
int vp_unlink(const char *f) { return 0; }
char *vp_path(const char *d, const char *f, const char *e) { return NULL; }
int vp_isdir(const char *f) { return 0; }
int vp_mkdir(const char *f, int m) { return 0; }
#endif
#if !defined(P_ADD) && !defined(P_LOAD)
int vp_case(const char *a, const char *b) { return 1; }
char *vp_dup(const char *p) { return p == NN ? GN : NULL; }
#endif

#ifdef P_SAVENET
/* the channels of a network */
guint vp_len(GList *l) { __CPROVER_assert(l == N.channels, "VP the channels"); return total; }
void vp_free(void *p) { if (p == AJ) { __CPROVER_assert(ajlive, "VP released once"); ajlive = 0; } }
void *vp_new(const char *t, size_t s, size_t n) { if (t[0] == 's') { __CPROVER_assert(s == sizeof NKE && n == 1 && (owed & 1) && !npend, "VP an entry for each channel with a key"); npend = 1; NKE.network = NKE.nick = NKE.pass = NULL; return &NKE; } __CPROVER_assert(s == sizeof(char *) && n >= (size_t)total && n <= MAXC + 1 && !ajlive, "VP room for all channels"); ajlive = 1; return AJ; }
GList *vp_append(GList *l, gpointer d) { __CPROVER_assert(l == KHEAD && d == &NKE && npend && (owed & 1) && NKE.network == N.name && NKE.nick == C.name && NKE.pass == C.key, "VP the channel, its key and its network"); npend = 0; owed &= ~1; KHEAD = &KL; return KHEAD; }
void vp_set(GKeyFile *k, const char *g, const char *n, const char *v) { int i = keyid(n); __CPROVER_assert(k == (void *)&KFO && g == N.groupname && i && !(set & i) && !(rem & i), "VP set once, in the group of the network"); __CPROVER_assert(v == (i == FULLN ? FULL : i == NICKN ? NICK : i == USERN ? USER : i == BINDN ? BIND : i == VIRTN ? VIRT : i == PROGN ? PROG : NULL), "VP as it is"); set |= i; }
void vp_seti(GKeyFile *k, const char *g, const char *n, int v) { int i = keyid(n); __CPROVER_assert(k == (void *)&KFO && g == N.groupname && !(set & i) && ((i == QN && v == N.queue_speed) || (i == RN && v == (int)N.reconnect_interval)), "VP as it is"); set |= i; }
gboolean vp_remk(GKeyFile *k, const char *g, const char *n, GError **e) { int i = keyid(n); __CPROVER_assert(k == (void *)&KFO && g == N.groupname && i && !(set & i), "VP removed if there is none"); rem |= i; return 1; }
gboolean vp_remg(GKeyFile *k, const char *n, GError **e) { __CPROVER_assert(k == (void *)&KFO && n == C.name, "VP nothing old is kept of the channel"); owed &= ~4; return 1; }
void vp_setl(GKeyFile *k, const char *g, const char *n, const char *const *v, size_t c) { int i = keyid(n); __CPROVER_assert(k == (void *)&KFO && g == N.groupname && !(set & i) && !(rem & i), "VP set once, in the group of the network"); set |= i; if (i == CMDN) __CPROVER_assert(v == (const char *const *)CMDS && c == 1, "VP all commands"); else __CPROVER_assert(i == AJN && v == (const char *const *)AJ && ajlive && c == (size_t)naj && (kpos < 0 || AJ[kpos] == kname), "VP the channels to join"); }
static void config_save_tcp_servers(struct network_config *n, GKeyFile *kf, const char *g);
gboolean g_key_file_save_to_file(GKeyFile *kf, const gchar *f, GError **e);
#define VISIT do { VREACH("loop body"); __CPROVER_assert(!owed && !npend, "VP every key is saved"); left--; { unsigned k; _Bool a, b; __CPROVER_assume(k < 64); C.name = POOL + k; C.key = a ? KEYP : NULL; C.autojoin = b ? 1 : 0; } CELL.data = &C; CELL.next = left > 0 ? &CELL : NULL; owed = 4 | (C.key ? 1 : 0); if (idx == KI) { kpos = C.autojoin ? naj : -1; kname = C.name; } naj += C.autojoin; idx++; } while (0)
#include "src/settings.c"
static int nsrv;
static void config_save_tcp_servers(struct network_config *n, GKeyFile *kf, const char *g) { __CPROVER_assert(n == &N && kf == (void *)&KFO && g == N.groupname && N.type == NETWORK_TCP && !nsrv, "VP the servers"); nsrv = 1; }
gboolean g_key_file_save_to_file(GKeyFile *kf, const gchar *f, GError **e) { __CPROVER_assert(kf == (void *)&KFO && f == FILEN && N.filename == FILEN && !saved && !owed && set & AJN, "VP saved when complete"); saved = 1; return 1; }
void H(void)
{
	_Bool a, b, c, d, e, f, h; int t, k, ty, q; guint r; total = left = t; __CPROVER_assume(total >= 0 && total <= MAXC); KI = k; __CPROVER_assume(k >= 0 && k < MAXC); idx = naj = owed = npend = saved = ajlive = set = rem = nsrv = 0; kpos = -1; CELL.data = &C; CELL.next = left > 1 ? &CELL : NULL; N.channels = left > 0 ? &CELL : NULL;
	CFG.keyfile = (void *)&KFO; N.keyfile = a ? (void *)&KFO : NULL; N.groupname = a ? GN : NULL; N.name = NN; N.nick = b ? NICK : NULL; N.fullname = c ? FULL : NULL; N.username = d ? USER : NULL; N.autocmd = e ? CMDS : NULL; N.filename = f ? FILEN : NULL; __CPROVER_assume(ty == NETWORK_TCP || ty == NETWORK_PROGRAM || ty == NETWORK_VIRTUAL || ty == NETWORK_IOCHANNEL); N.type = ty; N.type_settings.tcp.default_bind_address = h ? BIND : NULL; N.type_settings.virtual_name = VIRT; N.type_settings.program_location = PROG; N.queue_speed = q; N.reconnect_interval = r; KHEAD = a ? &KL : NULL; KEYS = KHEAD;
	config_save_network(&CFG, DIRN, &N, &KEYS);
	__CPROVER_assert(!owed && !npend && KEYS == KHEAD && !ajlive && !saved == !N.filename && idx == total && (void *)N.keyfile == (void *)&KFO && N.groupname != NULL, "VP every channel is saved");
	__CPROVER_assert(set & AJN, "VP the channels to join are saved");
	__CPROVER_assert(!(set & FULLN) == !N.fullname && !(rem & FULLN) == !!N.fullname && !(set & NICKN) == !N.nick && !(rem & NICKN) == !!N.nick && !(set & USERN) == !N.username && !(rem & USERN) == !!N.username && !(set & CMDN) == !N.autocmd && !(rem & CMDN) == !!N.autocmd, "VP the user's names and commands");
	__CPROVER_assert(nsrv == (ty == NETWORK_TCP) && !(set & BINDN) == !(ty == NETWORK_TCP && h) && !(rem & BINDN) == !(ty == NETWORK_TCP && !h) && !(set & VIRTN) == (ty != NETWORK_VIRTUAL) && !(set & PROGN) == (ty != NETWORK_PROGRAM), "VP how to reach the network");
	__CPROVER_assert((q == 0 || (set & QN)) && (r == (guint)-1 || (set & RN)), "VP the intervals");
	VREACH("config_save_network");
}
#endif
#ifdef P_ADD
int vp_case(const char *a, const char *b) { __CPROVER_assert((a == C.name && b == NAME) || (b == C.name && a == NAME), "VP the name of the channel"); return !owed; }
char *vp_dup(const char *p) { __CPROVER_assert(p == NAME && npend == 1, "VP a copy of the name"); return D1; }
void vp_free(void *p) { __CPROVER_assert(0, "VP nothing is released"); }
void *vp_new(const char *t, size_t s, size_t n) { __CPROVER_assert(s == sizeof NEWC && n == 1 && !npend && left == 0 && !owed, "VP a new channel, if there is none"); npend = 1; NEWC.name = NEWC.key = NULL; NEWC.autojoin = 0; return &NEWC; }
GList *vp_append(GList *l, gpointer d) { __CPROVER_assert(l == (total ? &CELL : NULL) && d == &NEWC && npend == 1, "VP added once, after the others"); npend = 2; return &KL; }
#define VISIT do { VREACH("loop body"); left--; { _Bool a; owed = a ? 1 : 0; } C = OC; CELL.data = &C; CELL.next = left > 0 ? &CELL : NULL; } while (0)
#include "src/settings.c"
void H(void)
{
	struct channel_config *r, x; int t; total = left = t; __CPROVER_assume(total >= 0 && total <= 1000000000); x.name = POOL; x.key = KEYP; x.autojoin = 0; OC = x; C = OC; owed = npend = 0; CELL.data = &C; CELL.next = left > 1 ? &CELL : NULL; N.channels = left > 0 ? &CELL : NULL;
	r = config_find_add_channel(&N, NAME);
	__CPROVER_assert(C.name == OC.name && C.key == OC.key && C.autojoin == OC.autojoin, "VP no channel is changed");
	if (owed) { __CPROVER_assert(r == &C && !npend && N.channels == &CELL, "VP the channel of that name"); VREACH("found"); } else { __CPROVER_assert(left == 0 && r == &NEWC && npend == 2 && NEWC.name == D1 && !NEWC.key && !NEWC.autojoin && N.channels == &KL, "VP or a new one"); VREACH("added"); }
}
#endif
#ifdef P_LOAD
/* owed: 0 nothing, 1 this entry's key has to be set, 2 it was looked up */
static int has, got, nfind, ninit, same, NAJ, ajn, nfree, srv; static char *aj;
int vp_case(const char *a, const char *b) { __CPROVER_assert(a && b && KE.network && ((a == KE.network && b == N.name) || (b == KE.network && a == N.name)), "VP the network of the key"); return !same; }
char *vp_dup(const char *p) { if (p == NN) return KN; if (p == GN) return D1; __CPROVER_assert(p == KE.pass && owed == 2, "VP a copy of the key"); owed = 0; return D2; }
void vp_free(void *p) { }
void *vp_new(const char *t, size_t s, size_t n) { __CPROVER_assert(0, "VP nothing else"); return NULL; }
GList *vp_append(GList *l, gpointer d) { __CPROVER_assert(0, "VP nothing else"); return l; }
gboolean vp_has(GKeyFile *k, const char *g, const char *n, GError **e) { __CPROVER_assert(k == (void *)&KFO && (g == GN || g == D1) && keyid(n), "VP settings of this network"); return (has & keyid(n)) != 0; }
char *vp_get(GKeyFile *k, const char *g, const char *n, GError **e) { int i = keyid(n); __CPROVER_assert(k == (void *)&KFO && (g == GN || g == D1), "VP settings of this network"); if (!(has & i)) return NULL; return i == FULLN ? FULL : i == NICKN ? NICK : i == USERN ? USER : i == PWN ? PASS : i == BINDN ? BIND : i == PROGN ? PROG : i == VIRTN ? VIRT : NULL; }
static int RI, QS;
int vp_geti(GKeyFile *k, const char *g, const char *n, GError **e) { int i = keyid(n); __CPROVER_assert(k == (void *)&KFO && (g == GN || g == D1), "VP settings of this network"); return i == RN ? RI : i == QN ? QS : 1; }
char **vp_getl(GKeyFile *k, const char *g, const char *n, gsize *c, GError **e) { int i = keyid(n); __CPROVER_assert(k == (void *)&KFO && (g == GN || g == D1) && (i == CMDN || i == AJN) && has & i, "VP settings of this network"); *c = i == CMDN ? 1 : NAJ; return i == CMDN ? CMDS : AL; }
void vp_freev(char **p) { }
#define VISIT do { VREACH("loop body"); __CPROVER_assert(!owed && (!kpos || C.key == D2), "VP every key is set"); left--; { unsigned k; _Bool a, b; __CPROVER_assume(k < 64); KE.network = a ? KW : NULL; KE.nick = POOL + k; KE.pass = KEYP + k; same = b ? 1 : 0; } CELL.data = &KE; CELL.next = left > 0 ? &CELL : NULL; owed = KE.network == NULL || same; kpos = owed; C.key = NULL; } while (0)
static struct channel_config *config_find_add_channel(struct network_config *nc, const char *name); static void config_load_servers(struct network_config *n); struct network_config *network_config_init(struct ctrlproxy_config *cfg);
#include "src/settings.c"
#undef g_free
static struct channel_config *config_find_add_channel(struct network_config *nc, const char *name)
{
	__CPROVER_assert(nc == &N, "VP a channel of this network"); if (ajn < 0 && left == 0 && !owed && name != NULL && (has & AJN) && name == AL[0] && NAJ > 0) ajn = 0;
	if (owed == 1) { __CPROVER_assert(name == KE.nick && KE.nick != NULL, "VP the channel of the key"); owed = 2; return &C; }
	__CPROVER_assert(ajn >= 0 && ajn < NAJ && name == AL[ajn] && (ajn == 0 || OC.autojoin), "VP each channel to join, in order"); ajn++; OC.autojoin = 0; return &OC;
}
static void config_load_servers(struct network_config *n) { __CPROVER_assert(n == &N && !srv && (void *)N.keyfile == (void *)&KFO && N.groupname == D1, "VP the servers"); srv = 1; }
struct network_config *network_config_init(struct ctrlproxy_config *cfg) { __CPROVER_assert(cfg == &CFG && !ninit, "VP a network"); ninit = 1; N.nick = N.fullname = N.username = N.password = N.name = NULL; N.reconnect_interval = -1; N.queue_speed = 0; N.autocmd = NULL; N.channels = NULL; N.autoconnect = 0; N.type = NETWORK_TCP; return &N; }
void H(void)
{
	struct network_config *r; int t, h, x, y, z; total = left = t; __CPROVER_assume(total >= 0 && total <= 1000000000); has = h; RI = x; QS = y; NAJ = z; __CPROVER_assume(NAJ >= 0 && NAJ <= MAXC); __CPROVER_havoc_object(FULL); __CPROVER_havoc_object(NICK); __CPROVER_havoc_object(USER); FULL[3] = NICK[3] = USER[3] = 0; __CPROVER_havoc_object(AL); owed = ninit = same = srv = kpos = 0; ajn = -1; CELL.data = &KE; CELL.next = left > 1 ? &CELL : NULL; C.key = NULL; if (NAJ > 0) { __CPROVER_assume(AL[0] == D2); }
	r = config_load_network_keyfile_group(&CFG, NN, (void *)&KFO, GN, left > 0 ? &CELL : NULL);
	__CPROVER_assert(r == &N && ninit && (void *)N.keyfile == (void *)&KFO && N.groupname == D1 && N.name == KN, "VP a network of that name");
	__CPROVER_assert(!owed && (left == 0 || total == 0) && (!kpos || C.key == D2), "VP every key is set");
	__CPROVER_assert(!(has & AJN) || NAJ == 0 || (ajn == NAJ && OC.autojoin), "VP every channel to join is known");
	__CPROVER_assert(N.nick == (has & NICKN ? NICK : NULL) && N.fullname == (has & FULLN ? FULL : NULL) && N.username == (has & USERN ? USER : NULL) && N.password == (has & PWN ? PASS : NULL) && N.autocmd == (has & CMDN ? CMDS : NULL), "VP the user's names and commands");
	__CPROVER_assert(N.reconnect_interval == (has & RN ? (guint)RI : (guint)-1) && N.queue_speed == (has & QN ? QS : 0), "VP the intervals");
	__CPROVER_assert(N.type == (has & PROGN ? NETWORK_PROGRAM : has & VIRTN ? NETWORK_VIRTUAL : NETWORK_TCP) && srv == (N.type == NETWORK_TCP), "VP how to reach the network");
	VREACH("config_load_network_keyfile_group");
}
#endif
#ifdef P_SAVENETS
static int nwr, nun, ncl, dlive, klive, isd, nmk, res; static GList *KK; 
char *vp_path(const char *d, const char *f, const char *e) { __CPROVER_assert(d == DIRN && e == NULL && (eq(f, "networks") || eq(f, "keys")), "VP files of the configuration that is saved"); if (f[0] == 'n') { __CPROVER_assert(!dlive, "VP once"); dlive = 1; return NDIR; } __CPROVER_assert(!klive, "VP once"); klive = 1; return KFN; }
void vp_free(void *p) { if (p == NDIR) { __CPROVER_assert(dlive, "VP released once"); dlive = 0; } else if (p == KFN) { __CPROVER_assert(klive, "VP released once"); klive = 0; } }
int vp_isdir(const char *f) { __CPROVER_assert(f == NDIR && dlive, "VP the directory of networks"); return isd; }
int vp_mkdir(const char *f, int m) { __CPROVER_assert(f == NDIR && dlive && !isd && !(m & 077), "VP that others can't read"); isd = res; nmk = !res; return res ? 0 : -1; }
int vp_unlink(const char *f) { __CPROVER_assert(f == KFN && klive && !KHEAD && left == 0 && !nun, "VP removed if there are no keys"); nun = 1; return 0; }
void *vp_new(const char *t, size_t s, size_t n) { return NULL; }
GList *vp_append(GList *l, gpointer d) { return l; }
#define g_list_foreach(l, f, u) __CPROVER_assert((l) == KHEAD && nwr, "VP released when written")
#define g_list_free(l) ((void)0)
gboolean keyfile_write_file(GList *e, const char *h, const char *f) { __CPROVER_assert(e == KHEAD && e && f == KFN && klive && !nwr && left == 0 && !owed, "VP the keys of all networks"); { int i; __CPROVER_assert(h[0] == ';', "VP a header"); for (i = 0; i < 300 && h[i]; i++) if (h[i] == '\n') __CPROVER_assert(!h[i + 1] || h[i + 1] == ';' || h[i + 1] == '\n', "VP the header is a comment"); __CPROVER_assert(!h[i], "VP a header"); } nwr = 1; return nondet_uchar() & 1; }
static void config_save_network(struct ctrlproxy_config *cfg, const char *dir, struct network_config *n, GList **keys); static void config_cleanup_networks_dir(struct ctrlproxy_config *cfg);
#define VISIT do { VREACH("loop body"); __CPROVER_assert(!owed, "VP every network is saved"); left--; { _Bool a, b; N.implicit = a ? -1 : 0; N.filename = b ? FILEN : NULL; } CELL.data = &N; CELL.next = left > 0 ? &CELL : NULL; owed = !N.implicit; } while (0)
#include "src/settings.c"
static void config_save_network(struct ctrlproxy_config *cfg, const char *dir, struct network_config *n, GList **keys) { __CPROVER_assert(cfg == &CFG && dir == NDIR && dlive && n == &N && owed == 1 && *keys == KHEAD && (!N.filename || isd), "VP networks made up for a client aren't saved, others are once"); owed = 0; if (nondet_uchar() & 1) { KHEAD = &KL; *keys = &KL; } }
static void config_cleanup_networks_dir(struct ctrlproxy_config *cfg) { __CPROVER_assert(cfg == &CFG && left == 0 && !ncl, "VP old files are removed"); ncl = 1; }
void H(void)
{
	int t; _Bool a, b; total = left = t; __CPROVER_assume(total >= 0 && total <= 1000000000); isd = a ? 1 : 0; res = b ? 1 : 0; owed = nwr = nun = ncl = dlive = klive = nmk = 0; KHEAD = NULL; CELL.data = &N; CELL.next = left > 1 ? &CELL : NULL;
	config_save_networks(&CFG, DIRN, left > 0 ? &CELL : NULL);
	if (nmk) return;
	__CPROVER_assert(left == 0 && !owed, "VP every network is saved"); { __CPROVER_assert(nwr == (KHEAD != NULL) && nun == (KHEAD == NULL) && ncl && !klive && !dlive, "VP all keys are saved, and no old ones kept"); VREACH("config_save_networks"); }
}
#endif
#ifdef P_SAVECFG
static int nnet, nlis, nlog, naw, fnlive, ndir; 
guint vp_len(GList *l) { __CPROVER_assert(l == CFG.networks, "VP the networks"); return total; }
void vp_free(void *p) { if (p == AJ) { __CPROVER_assert(ajlive, "VP released once"); ajlive = 0; } }
void *vp_new(const char *t, size_t s, size_t n) { __CPROVER_assert(s == sizeof(char *) && n >= (size_t)total && n <= MAXC + 1 && !ajlive, "VP room for all networks"); ajlive = 1; return AJ; }
GList *vp_append(GList *l, gpointer d) { return l; }
char *vp_path(const char *d, const char *f, const char *e) { __CPROVER_assert(d == DIRN && eq(f, "config") && e == NULL, "VP the configuration"); return FILEN; }
int vp_isdir(const char *f) { __CPROVER_assert(f == DIRN, "VP the directory"); return ndir; }
int vp_mkdir(const char *f, int m) { __CPROVER_assert(f == DIRN && !(m & 077), "VP that others can't read"); if (nondet_uchar() & 1) return -1; ndir = 1; return 0; }
int vp_unlink(const char *f) { return 0; }
gboolean vp_remk(GKeyFile *k, const char *g, const char *n, GError **e) { if (keyid(n) == ACN) { __CPROVER_assert(!(set & ACN) && naj == 0 && left == 0 && k == CFG.keyfile && eq(g, "global"), "VP removed if there are none"); rem |= ACN; } return 1; }
void vp_setl(GKeyFile *k, const char *g, const char *n, const char *const *v, size_t c) { __CPROVER_assert(keyid(n) == ACN && !(rem & ACN) && k == CFG.keyfile && eq(g, "global") && v == (const char *const *)AJ && ajlive && left == 0 && c == (size_t)naj && (kpos < 0 || AJ[kpos] == kname), "VP the networks to connect to"); set |= ACN; }
static void config_save_networks(struct ctrlproxy_config *cfg, const char *d, GList *n); static void config_save_listeners(struct ctrlproxy_config *cfg, const char *p); gboolean g_key_file_save_to_file(GKeyFile *kf, const gchar *f, GError **e);
#define VISIT do { VREACH("loop body"); left--; { unsigned k; _Bool b; __CPROVER_assume(k < 64); N.name = POOL + k; N.autoconnect = b ? -1 : 0; } CELL.data = &N; CELL.next = left > 0 ? &CELL : NULL; if (idx == KI) { kpos = N.autoconnect ? naj : -1; kname = N.name; } naj += N.autoconnect != 0; idx++; } while (0)
#include "src/settings.c"
static void config_save_networks(struct ctrlproxy_config *cfg, const char *d, GList *n) { __CPROVER_assert(cfg == &CFG && d == DIRN && n == CFG.networks && !nnet && cfg->keyfile, "VP the networks"); nnet = 1; }
static void config_save_listeners(struct ctrlproxy_config *cfg, const char *p) { __CPROVER_assert(cfg == &CFG && p == DIRN && !nlis, "VP the listeners"); nlis = 1; }
static void config_save_log(struct log_file_config *d, struct ctrlproxy_config *c) { }
static void config_save_auto_away(struct auto_away_config *d, struct ctrlproxy_config *c) { }
gboolean g_key_file_save_to_file(GKeyFile *kf, const gchar *f, GError **e) { __CPROVER_assert(kf == CFG.keyfile && f == FILEN && !saved && nnet && nlis && (set | rem) & ACN, "VP saved when complete"); saved = 1; return 1; }
void H(void)
{
	int t, k; _Bool a, b; total = left = t; __CPROVER_assume(total >= 0 && total <= MAXC); KI = k; __CPROVER_assume(k >= 0 && k < MAXC); idx = naj = nnet = nlis = saved = ajlive = set = rem = nkf = 0; kpos = -1; ndir = a ? 1 : 0; __CPROVER_havoc_object(&CFG); CFG.keyfile = b ? (void *)&KFO : NULL; CELL.data = &N; CELL.next = left > 1 ? &CELL : NULL; CFG.networks = left > 0 ? &CELL : NULL;
	save_configuration(&CFG, DIRN);
	if (!ndir) { __CPROVER_assert(!saved, "VP no directory"); return; }
	__CPROVER_assert(saved && nnet && nlis && !ajlive && ((set & ACN) ? naj > 0 && !(rem & ACN) : (rem & ACN) && naj == 0), "VP the networks to connect to are saved"); VREACH("save_configuration");
}
#endif
