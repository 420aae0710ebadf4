/* C21: filter and hook chains (src/hooks.c) under contract, lists of any length
 * by the two-cell projection of lists.h. */
#include "vp.h"
#include "internals.h"
unsigned char vp_byte;
static struct irc_network N; static struct irc_line L; static struct irc_client C; static char NAME[2], CP[2], UD[2], NA[2], NB[2];
static GList OLDL, NEWL; int Gma, Gmb, Gins, Grem, Gfn, Gfd; void *Gd; static int Ra, Rb, Ca, Cb; enum data_direction GDIR;
#include "lists.h"
#undef g_free
#undef g_strdup
#undef strcmp
#undef g_debug
#define g_debug(...) ((void)0)
void vp_free(void *p);
char *vp_strdup(const char *s) { __CPROVER_assert(s == NAME, "VP keeps the name"); return CP; }
int vp_strcmp(const char *a, const char *b) { const char *x = a == NAME ? b : a; __CPROVER_assert((a == NAME || b == NAME) && (x == NA || x == NB), "VP compares the name"); return x == NA ? !Gma : !Gmb; }
GList *vp_sorted(GList *l, void *d, GCompareFunc f); GList *vp_append(GList *l, void *d); GList *vp_remove(GList *l, const void *d);
#define g_free vp_free
#define g_strdup vp_strdup
#define strcmp vp_strcmp
#define g_list_insert_sorted vp_sorted
#define g_list_append vp_append
#define g_list_remove vp_remove
static gboolean fa(struct irc_network *n, const struct irc_line *l, enum data_direction d, void *u) { __CPROVER_assert(n == &N && l == &L && d == GDIR && u == UD && !Ca, "VP runs with its own data, once"); Ca = 1; return Ra; }
static gboolean fb(struct irc_network *n, const struct irc_line *l, enum data_direction d, void *u) { __CPROVER_assert(n == &N && l == &L && d == GDIR && u == UD + 1 && !Cb, "VP runs with its own data, once"); Cb = 1; return Rb; }
static gboolean ha(struct irc_client *c, void *u) { __CPROVER_assert(c == &C && u == UD && !Ca, "VP runs with its own data, once"); Ca = 1; return Ra; }
static gboolean hb(struct irc_client *c, void *u) { __CPROVER_assert(c == &C && u == UD + 1 && !Cb, "VP runs with its own data, once"); Cb = 1; return Rb; }
static void visitchk(GList *gl);
#include "src/hooks.c"
#ifdef P_HOOK
static struct new_client_hook_data DA, DB;
#else
static struct filter_data DA, DB;
#endif
void vp_free(void *p) { __CPROVER_assert(!Grem || p == Gd || p == CP || p == NA || p == NB, "VP frees the removed entry"); if (p == NA || p == NB) Gfn++; if (p == &DA || p == &DB) Gfd++; }
GList *vp_sorted(GList *l, void *d, GCompareFunc f) { __CPROVER_assert(l == &OLDL && !Gins && f == filter_cmp, "VP inserted by priority"); Gins = 1; Gd = d; return &NEWL; }
GList *vp_append(GList *l, void *d) { __CPROVER_assert(l == &OLDL && !Gins, "VP added at the end"); Gins = 1; Gd = d; return &NEWL; }
GList *vp_remove(GList *l, const void *d) { __CPROVER_assert(l == Ghead && !Grem && (d == &DA || d == &DB), "VP one entry removed"); Grem = 1; Gd = (void *)d; return &NEWL; }
static void setup(void) { _Bool a, b, c, d; enum data_direction x; Gma = a ? 1 : 0; Gmb = b ? 1 : 0; Ra = c ? 1 : 0; Rb = d ? 1 : 0; GDIR = x; Ca = Cb = Gins = Grem = Gfn = Gfd = 0; Gd = NULL; vp_list(&DA, &DB); DA.name = NA; DB.name = NB; DA.userdata = UD; DB.userdata = UD + 1; }
#ifdef P_CMP
void H(void)
{
	int a, b, r; setup(); DA.priority = a; DB.priority = b; r = filter_cmp(&DA, &DB);
	__CPROVER_assert((r < 0) == (a < b) && (r > 0) == (a > b), "VP compares the priorities");
	VREACH("filter_cmp");
}
#endif
#ifdef P_ADDF
void H(void)
{
	int p; GList *r; struct filter_data *d; setup();
	r = add_filter_ex(&OLDL, NAME, fa, UD, p); d = Gd;
	__CPROVER_assert(r == &NEWL && Gins == 1 && d->name == CP && d->function == fa && d->userdata == UD && d->priority == p, "VP the filter is in the chain with all it was given");
	/* the two chains are separate */
	Gins = 0; log_filters = &OLDL; server_filters = NULL; add_log_filter(NAME, fa, UD, p); __CPROVER_assert(Gins == 1 && log_filters == &NEWL && server_filters == NULL, "VP log filter in the chain of log filters");
	Gins = 0; server_filters = &OLDL; log_filters = NULL; add_server_filter(NAME, fa, UD, p); __CPROVER_assert(Gins == 1 && server_filters == &NEWL && log_filters == NULL, "VP server filter in the chain of server filters");
	VREACH("add_filter_ex");
}
#endif
#ifdef P_DELF
void H(void)
{
	GList *r; setup(); r = del_filter_ex(Ghead, NAME);
	if (Grem) __CPROVER_assert(r == &NEWL && (Gd == &DA ? Gma && (!seenB || !Gmb) : Gmb && (!seenA || !Gma)) && Gfn == 1 && Gfd == 1, "VP the first filter of that name goes, and is freed");
	else __CPROVER_assert(r == Ghead && ALLSEEN && (!seenA || !Gma) && (!seenB || !Gmb) && !Gfn && !Gfd, "VP no filter has that name");
	VREACH("del_filter_ex");
}
#endif
#ifdef P_RUN
void H(void)
{
	gboolean r; setup(); DA.function = fa; DB.function = fb;
	r = filter_class_execute(Ghead, &N, GDIR, &L);
	if (r) __CPROVER_assert(ALLSEEN && Ca == seenA && Cb == seenB && (!Ca || Ra) && (!Cb || Rb), "VP every filter ran and agreed");
	else __CPROVER_assert((Ca && !Ra && (!Cb || Rb)) != (Cb && !Rb && (!Ca || Ra)), "VP stopped by one filter that refused");
	if (!r && Ca && !Ra) __CPROVER_assert(Cb == seenB, "VP nothing runs after a refusal");
	VREACH("filter_class_execute");
}
#endif
#ifdef P_HOOK
void H(void)
{
	gboolean r; struct new_client_hook_data *d; setup(); DA.hook = ha; DB.hook = hb; new_client_hooks = Ghead;
#ifdef P_HRUN
	r = new_client_hook_execute(&C);
	if (r) __CPROVER_assert(ALLSEEN && Ca == seenA && Cb == seenB && (!Ca || Ra) && (!Cb || Rb), "VP every hook ran and agreed");
	else __CPROVER_assert((Ca && !Ra && (!Cb || Rb)) != (Cb && !Rb && (!Ca || Ra)), "VP stopped by one hook that refused");
	__CPROVER_assert(new_client_hooks == Ghead, "VP chain unchanged");
#elif defined(P_HDEL)
	del_new_client_hook(NAME);
	if (Grem) __CPROVER_assert(new_client_hooks == &NEWL && (Gd == &DA ? Gma && (!seenB || !Gmb) : Gmb && (!seenA || !Gma)) && Gfn == 1 && Gfd == 1, "VP the first hook of that name goes, and is freed");
	else __CPROVER_assert(new_client_hooks == Ghead && ALLSEEN && (!seenA || !Gma) && (!seenB || !Gmb), "VP no hook has that name");
#else
	new_client_hooks = &OLDL; add_new_client_hook(NAME, ha, UD); d = Gd;
	__CPROVER_assert(new_client_hooks == &NEWL && Gins == 1 && d->name == CP && d->hook == ha && d->userdata == UD, "VP the hook is last in the chain");
#endif
	VREACH("hooks");
}
#endif
