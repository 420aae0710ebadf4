/* C05: contracts on the mode-tracking functions of libirc/state.c. */
#include "vp.h"
#include "internals.h"
#include "irc.h"
unsigned char vp_byte;
#ifndef MAXL
#define MAXL 1000000000UL
#endif

#ifdef P_CHANGE
static gboolean GM[MAXMODES];
gboolean modes_change_mode(irc_modes_t modes, gboolean set, char newmode)
__CPROVER_requires(modes == GM && (set == 0 || set == 1))
__CPROVER_requires(modes[(unsigned char)newmode] == 0 || modes[(unsigned char)newmode] == 1)
__CPROVER_assigns(modes[(unsigned char)newmode])
__CPROVER_ensures(modes[(unsigned char)newmode] == set)
__CPROVER_ensures((__CPROVER_return_value != 0) == (__CPROVER_old(modes[(unsigned char)newmode]) != set))
;
#include "libirc/state.c"
void H(void)
{
	gboolean set; char c;
	__CPROVER_havoc_object(GM);
	modes_change_mode(GM, set, c);
	VREACH("modes_change_mode");
}
#endif

#ifdef P_S2M
/* string2mode over a string of any length: for an arbitrary mode K the flag
 * after the call is what the last occurrence of K in the string says. */
size_t LA; static gboolean GM[MAXMODES]; unsigned char K; int Gact, Gval; const char *G0;
gboolean modes_change_mode(irc_modes_t modes, gboolean set, char newmode)
__CPROVER_requires(set == 0 || set == 1)
__CPROVER_assigns(modes[(unsigned char)newmode])
__CPROVER_ensures(modes[(unsigned char)newmode] == set)
;
gboolean string2mode(const char *modes, irc_modes_t ar)
__CPROVER_requires(LA < MAXL && __CPROVER_is_fresh(modes, LA + 1) && modes[LA] == 0)
__CPROVER_requires(ar == GM)
__CPROVER_requires( Gact == 1 && Gval == 0 && G0 == modes)
__CPROVER_assigns(__CPROVER_object_whole(GM), Gact, Gval)
__CPROVER_ensures(__CPROVER_return_value == 0 ==> (modes[0] != 0 && modes[0] != '+' && modes[0] != '-' && ar[K] == 0))
__CPROVER_ensures(__CPROVER_return_value != 0 ==> ar[K] == Gval)
;
void *memset(void *s, int c, size_t n) __CPROVER_requires(s == GM && c == 0 && n == sizeof(GM)) __CPROVER_assigns(__CPROVER_object_whole(GM)) __CPROVER_ensures(GM[K] == 0);
size_t strlen(const char *s) __CPROVER_requires(s == G0) __CPROVER_assigns() __CPROVER_ensures((__CPROVER_return_value == 0) == (s[0] == 0));
#include "libirc/state.c"
void H(void)
{
	const char *m;
	__CPROVER_havoc_object(GM);
	string2mode(m, GM);
	VREACH("string2mode");
}
#endif


#ifdef P_M2S
/* K: arbitrary mode; Gpos: where it was put. */
static gboolean GM[MAXMODES]; unsigned char K; int Gpos, Gfmt;
char *GR;
static char Gbuf[MAXMODES + 2];
/* strlen/g_strdup_printf of the finished buffer (trusted) */
size_t strlen(const char *s) __CPROVER_requires(__CPROVER_r_ok(s, 1)) __CPROVER_assigns() __CPROVER_ensures((__CPROVER_return_value == 0) == (s[0] == 0));
/* what the caller gets: NULL exactly when no mode is set; the copied buffer
 * holds K exactly when K is set.  Checked where the buffer is handed over. */
char *vp_printf(const char *fmt, const char *arg)
__CPROVER_requires(fmt[0] == '+' && fmt[1] == '%' && fmt[2] == 's' && fmt[3] == 0)
__CPROVER_requires((K != 0 && GM[K]) ==> (Gpos >= 0 && Gpos < MAXMODES && arg[Gpos] == (char)K))
__CPROVER_assigns(Gfmt)
__CPROVER_ensures(Gfmt == 1 && __CPROVER_return_value != NULL);
#define VP_FIRST(a, ...) a
#define g_strdup_printf(fmt, ...) vp_printf(fmt, VP_FIRST(__VA_ARGS__, 0))
char *mode2string(irc_modes_t modes)
__CPROVER_requires(modes == GM && Gpos == -1 && Gfmt == 0)
__CPROVER_requires(GM[0] == 0)
__CPROVER_assigns(Gpos, Gfmt)
__CPROVER_ensures((__CPROVER_return_value == NULL) ==> (Gfmt == 0 && !GM[K]))
__CPROVER_ensures((__CPROVER_return_value != NULL) ==> Gfmt == 1)
;
#include "libirc/state.c"
void H(void)
{
	__CPROVER_havoc_object(GM);
	mode2string(GM);
	VREACH("mode2string");
}
#endif

#ifdef P_CHG
/* one mode change on a channel: how many parameters it uses up and what it touches */
static struct irc_channel_state CH; static struct irc_network_state ST; static struct irc_network_info INFO;
static struct channel_nick CN; static struct network_nick BY;
int Gtype, Gpfx, Gadd, Grem, Gfound, Gset; GList **Glist; const char *Garg, *Gby; char *Gdup; gboolean *Gmodes; char Gm; int Gpres;
const char *Gstrdup_arg; int Gdups;
enum chanmode_type network_chanmode_type(char m, struct irc_network_info *n) __CPROVER_requires(n == &INFO && m == Gm) __CPROVER_assigns() __CPROVER_ensures((int)__CPROVER_return_value == Gtype);
gboolean is_prefix_mode(const struct irc_network_info *info, char mode) __CPROVER_requires(info == &INFO && mode == Gm) __CPROVER_assigns() __CPROVER_ensures(__CPROVER_return_value == Gpfx);
gboolean nicklist_add_entry(GList **l, const char *a, const char *by, time_t at) __CPROVER_requires(Gadd == 0) __CPROVER_assigns(Gadd, Glist, Garg, Gby) __CPROVER_ensures(Gadd == 1 && Glist == l && Garg == a && Gby == by);
gboolean nicklist_remove_entry(GList **l, const char *a) __CPROVER_requires(Grem == 0) __CPROVER_assigns(Grem, Glist, Garg) __CPROVER_ensures(Grem == 1 && Glist == l && Garg == a);
struct channel_nick *find_channel_nick(struct irc_channel_state *c, const char *name) __CPROVER_requires(c == &CH && name != NULL) __CPROVER_assigns(Garg) __CPROVER_ensures(Garg == name && __CPROVER_return_value == (Gfound ? &CN : NULL));
gboolean modes_change_mode(irc_modes_t modes, gboolean set, char newmode) __CPROVER_requires(Gmodes == NULL && newmode == Gm) __CPROVER_assigns(Gmodes, Gset) __CPROVER_ensures(Gmodes == modes && Gset == set);
#undef g_strdup
#define g_strdup vp_strdup
char *vp_strdup(const char *s) __CPROVER_requires(Gdups == 0 && s != NULL) __CPROVER_assigns(Gdups, Gstrdup_arg, Gdup) __CPROVER_ensures(Gdups == 1 && Gstrdup_arg == s && Gdup == __CPROVER_return_value && __CPROVER_return_value != NULL);
#define g_free vp_free
char *Gfreed;
void vp_free(void *p) __CPROVER_requires(1) __CPROVER_assigns(Gfreed) __CPROVER_ensures(Gfreed == p);
#define time vp_time
time_t vp_time(time_t *t) __CPROVER_requires(t == NULL) __CPROVER_assigns();
void vp_log(void) ;
void network_state_log(enum log_level l, const struct irc_network_state *st, const char *fmt, ...) __CPROVER_requires(st == &ST) __CPROVER_assigns();
#define UM ((unsigned char)mode)
#define LISTMODE (Gtype == CHANMODE_NICKLIST)
#define SETTINGMODE (Gtype == CHANMODE_SETTING || Gtype == CHANMODE_OPT_SETTING)
static int channel_state_change_mode(struct irc_network_state *s, struct network_nick *by, struct irc_channel_state *c, gboolean set, char mode, const char *opt_arg)
__CPROVER_requires(s == &ST && c == &CH && ST.info == &INFO && (by == NULL || by == &BY) && (set == 0 || set == 1) && mode == Gm)
__CPROVER_requires(Gtype >= 0 && Gtype <= 4 && Gadd == 0 && Grem == 0 && Gmodes == NULL && Gdups == 0 && Gfreed == NULL && Gdup == NULL && Garg == NULL)
__CPROVER_requires(Gpres == (CH.chanmode_nicklist_present[UM] != 0) && ST.log == NULL)
__CPROVER_assigns(Gadd, Grem, Glist, Garg, Gby, Gmodes, Gset, Gdups, Gstrdup_arg, Gdup, Gfreed, CH.chanmode_option[UM])
/* parameters used up */
__CPROVER_ensures(__CPROVER_return_value >= -1 && __CPROVER_return_value <= 1)
__CPROVER_ensures((__CPROVER_return_value == -1) == (opt_arg == NULL && (LISTMODE || (SETTINGMODE && set) || (!LISTMODE && !SETTINGMODE && Gpfx))))
__CPROVER_ensures(opt_arg != NULL ==> ((__CPROVER_return_value == 0) == ((Gtype == CHANMODE_OPT_SETTING && !set) || (Gtype == CHANMODE_BOOL && !Gpfx))))
/* list modes: one entry more or less, on this mode's list, only when the list is complete */
__CPROVER_ensures((LISTMODE && opt_arg != NULL && Gpres) ==> (Gadd == (set ? 1 : 0) && Grem == (set ? 0 : 1) && Glist == &CH.chanmode_nicklist[UM] && Garg == opt_arg && (!set || Gby == (by ? BY.nick : NULL))))
__CPROVER_ensures((!LISTMODE || opt_arg == NULL || !Gpres) ==> (Gadd == 0 && Grem == 0))
/* settings: the value is this parameter, or gone; the old one is released */
__CPROVER_ensures((SETTINGMODE && set && opt_arg != NULL) ==> (CH.chanmode_option[UM] == Gdup && Gdup != NULL && Gstrdup_arg == opt_arg && Gmodes == CH.modes && Gset == 1 && Gfreed == __CPROVER_old(CH.chanmode_option[UM])))
__CPROVER_ensures((SETTINGMODE && !set) ==> (CH.chanmode_option[UM] == NULL && Gmodes == CH.modes && Gset == 0 && Gfreed == __CPROVER_old(CH.chanmode_option[UM])))
__CPROVER_ensures(!SETTINGMODE ==> (CH.chanmode_option[UM] == __CPROVER_old(CH.chanmode_option[UM]) && Gfreed == NULL))
/* member status: exactly the member named by the parameter */
__CPROVER_ensures((!LISTMODE && !SETTINGMODE && Gpfx && opt_arg != NULL) ==> (Garg == opt_arg && (Gfound ? (Gmodes == CN.modes && Gset == set) : Gmodes == NULL)))
/* plain modes */
__CPROVER_ensures((Gtype == CHANMODE_BOOL && !Gpfx) ==> (Gmodes == CH.modes && Gset == set))
__CPROVER_ensures((Gtype == CHANMODE_UNKNOWN && !Gpfx) ==> Gmodes == NULL)
;
#include "libirc/state.c"
void H(void)
{
	gboolean set, b, x; struct network_nick *by = b ? &BY : NULL;
	__CPROVER_havoc_object(&CH); __CPROVER_havoc_object(&BY);
	ST.info = &INFO;
	channel_state_change_mode(&ST, by, &CH, set, Gm, x ? "x" : NULL);
	VREACH("channel_state_change_mode");
}
#endif

#ifdef P_HMODE
/* MODE message: every letter of the mode string is applied once, in order, with
 * the sign in force and the next unused parameter; parameters are never read
 * past the end of the message. Any number of letters and parameters. */
static struct irc_channel_state CH; static struct irc_network_state ST; static struct irc_network_info INFO; static struct irc_line L;
static struct network_nick NN;
size_t LA, LN, NARG; const char *GS; int Gi, Gsign, Garg, Gcalls, Gpend, Gchan, Gstop, GL_argc, Gret;
#define MAXARGS 600
static char *GA[MAXARGS + 1];
gboolean is_channelname(const char *name, const struct irc_network_info *n) __CPROVER_requires(name == GA[1] && n == &INFO) __CPROVER_assigns() __CPROVER_ensures(__CPROVER_return_value == Gchan);
struct irc_channel_state *find_channel(struct irc_network_state *s, const char *n) __CPROVER_requires(s == &ST && n == GA[1]) __CPROVER_assigns() __CPROVER_ensures(__CPROVER_return_value == NULL || __CPROVER_return_value == &CH);
char *line_get_nick(const struct irc_line *l) __CPROVER_requires(l == &L && L.origin != NULL) __CPROVER_assigns() __CPROVER_ensures(__CPROVER_return_value == NULL);
struct network_nick *find_network_nick(struct irc_network_state *n, const char *name) __CPROVER_requires(n == &ST) __CPROVER_assigns() __CPROVER_ensures(__CPROVER_return_value == NULL || __CPROVER_return_value == &NN);
struct network_nick *find_add_network_nick(struct irc_network_state *n, const char *name) __CPROVER_requires(n == &ST && name == GA[1]) __CPROVER_assigns() __CPROVER_ensures(__CPROVER_return_value == &NN);
static int channel_state_change_mode(struct irc_network_state *s, struct network_nick *by, struct irc_channel_state *c, gboolean set, char mode, const char *opt_arg)
__CPROVER_requires(s == &ST && c == &CH && (set == 0 || set == 1))
__CPROVER_requires(Gpend == 1 && mode == GS[Gi] && mode != '+' && mode != '-' && set == Gsign && (size_t)Garg <= NARG && opt_arg == GA[Garg])
__CPROVER_assigns(Gpend, Garg, Gstop)
__CPROVER_ensures(Gpend == 0 && __CPROVER_return_value >= -1 && __CPROVER_return_value <= 1)
__CPROVER_ensures((__CPROVER_return_value == -1) ==> opt_arg == NULL)
__CPROVER_ensures(Garg == __CPROVER_old(Garg) + ((opt_arg != NULL && __CPROVER_return_value == 1) ? 1 : 0))
__CPROVER_ensures(Gstop == (__CPROVER_return_value == -1))
;
gboolean modes_change_mode(irc_modes_t modes, gboolean set, char newmode)
__CPROVER_requires(Gpend == 1 && modes == NN.modes && newmode == GS[Gi] && newmode != '+' && newmode != '-' && set == Gsign)
__CPROVER_assigns(Gpend) __CPROVER_ensures(Gpend == 0);
int strcmp(const char *a, const char *b) __CPROVER_requires(a != NULL && b != NULL) __CPROVER_assigns();
static void handle_mode(struct irc_network_state *s, const struct irc_line *l)
__CPROVER_requires(s == &ST && l == &L && ST.info == &INFO && ST.log == NULL && NARG >= 3 && NARG <= MAXARGS && LA < 1000000 && L.argc == (int)NARG)
__CPROVER_requires(L.args == GA && GA[NARG] == NULL)
__CPROVER_requires(GS[LA] == 0 && GA[2] == GS && GA[1] != NULL)
__CPROVER_requires(Gi == -1 && Gsign == 1 && Garg == 3 && Gpend == 0 && Gstop == 0)
__CPROVER_assigns(Gi, Gsign, Garg, Gpend, Gstop)
__CPROVER_ensures(Gpend == 0)
;
#define g_free vp_free
void vp_free(void *p) __CPROVER_requires(1) __CPROVER_assigns();
#include "libirc/state.c"
void H(void)
{
	char *s;
	__CPROVER_havoc_object(GA);
	__CPROVER_assume(LA < 1000000);
	s = g_malloc(LA + 1);
	GS = s; GA[2] = s; L.args = GA;
	handle_mode(&ST, &L);
	VREACH("handle_mode");
}
#endif
