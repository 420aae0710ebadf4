/* C07: reply handlers of libirc/state.c.  One obligation set per handler; the
 * channel lookup, list operations and string copies are taken by contract, and
 * the frame (assigns) says that nothing but the named fields changes. */
#include "vp.h"
#include "internals.h"
#include "irc.h"
unsigned char vp_byte;
static struct irc_channel_state CH; static struct irc_network_state ST; static struct irc_network_info INFO; static struct irc_line L;
#define NA 8
static char AR[NA][2], DUP[NA + 1], NICK[2], ORIG[2], OLD[4][2];
static char *GA[NA + 1];
int Gfound, Gargk, freed[4], badfree, nargs; long Gnum[NA]; time_t Gnow;
#define DUPOF(k) (GA[k] ? &DUP[k] : NULL)
/* models: a copy of argument k is the token DUP[k]; releasing is counted */
#undef g_strdup
#define g_strdup vp_strdup
char *vp_strdup(const char *s) { int k; if (!s) return NULL; for (k = 0; k < NA; k++) if (s == AR[k]) return &DUP[k]; __CPROVER_assert(0, "VP copies something else than an argument"); return NULL; }
#define g_free vp_free
void vp_free(void *p) { if (p == NULL) return; if (p == OLD[0]) freed[0]++; else if (p == OLD[1]) freed[1]++; else badfree = 1; }
#define time vp_time
time_t vp_time(time_t *t) { __CPROVER_assert(t == NULL, "VP time"); return Gnow; }
static long num(const char *s) { int k; for (k = 0; k < NA; k++) if (s == AR[k]) return Gnum[k]; __CPROVER_assert(0, "VP number from something else than an argument"); return 0; }
#define strtol(s, e, b) num(s)
#define atol(s) num(s)
#define atoi(s) ((int)num(s))
char *line_get_nick(const struct irc_line *l) { __CPROVER_assert(l == &L && L.origin != NULL, "VP line_get_nick() needs an origin"); return NICK; }
struct irc_channel_state *find_channel(struct irc_network_state *st, const char *name)
__CPROVER_requires(st == &ST && name != NULL && name == GA[Gargk])
__CPROVER_assigns() __CPROVER_ensures(__CPROVER_return_value == (Gfound ? &CH : NULL));
int Gadd, Gclr; GList **Glist, **Gclrlist; const char *Gm, *Gby; time_t Gat;
gboolean nicklist_add_entry(GList **l, const char *a, const char *by, time_t at) __CPROVER_requires(Gadd == 0 && a != NULL) __CPROVER_assigns(Gadd, Glist, Gm, Gby, Gat) __CPROVER_ensures(Gadd == 1 && Glist == l && Gm == a && Gby == by && Gat == at);
void free_nicklist(GList **l) __CPROVER_requires(Gclr == 0 && Gadd == 0) __CPROVER_assigns(Gclr, Gclrlist) __CPROVER_ensures(Gclr == 1 && Gclrlist == l);
#define PRE (s == &ST && l == &L && L.args == GA && ST.info == &INFO && Gadd == 0 && Gclr == 0 && freed[0] == 0 && freed[1] == 0 && badfree == 0)
#define UNCH(f) (f == __CPROVER_old(f))
/* frees exactly the value it replaces */
#define REPL(f, k) (freed[k] == (__CPROVER_old(f) == NULL ? 0 : 1))

#ifdef P_TOPIC
#define FN handle_topic
#define CK 1
#define ASSIGNS CH.topic, CH.topic_set_by, CH.topic_set_time, freed, badfree
#define OKLINE (Gfound && L.origin != NULL)
#define POST __CPROVER_ensures(OKLINE ==> (CH.topic == DUPOF(2) && CH.topic_set_by == NICK && CH.topic_set_time == Gnow && REPL(CH.topic, 0) && REPL(CH.topic_set_by, 1) && !badfree)) \
 __CPROVER_ensures(!OKLINE ==> (UNCH(CH.topic) && UNCH(CH.topic_set_by) && UNCH(CH.topic_set_time) && !freed[0] && !freed[1] && !badfree))
#endif
#ifdef P_332
#define FN handle_332
#define CK 2
#define ASSIGNS CH.topic, freed, badfree
#define POST __CPROVER_ensures(Gfound ==> (CH.topic == DUPOF(3) && REPL(CH.topic, 0) && !freed[1] && !badfree)) __CPROVER_ensures(!Gfound ==> (UNCH(CH.topic) && !freed[0] && !freed[1] && !badfree))
#endif
#ifdef P_333
#define FN handle_333
#define CK 2
#define ASSIGNS CH.topic_set_by, CH.topic_set_time, freed, badfree
#define POST __CPROVER_ensures(Gfound ==> (CH.topic_set_by == DUPOF(3) && CH.topic_set_time == Gnum[4] && REPL(CH.topic_set_by, 1) && !freed[0] && !badfree)) \
 __CPROVER_ensures(!Gfound ==> (UNCH(CH.topic_set_by) && UNCH(CH.topic_set_time) && !freed[0] && !freed[1] && !badfree))
#endif
#ifdef P_331
#define FN handle_no_topic
#define CK 2
#define ASSIGNS CH.topic, CH.topic_set_by, CH.topic_set_time, freed, badfree
#define POST __CPROVER_ensures(Gfound ==> (CH.topic == NULL && CH.topic_set_by == NULL && CH.topic_set_time == 0 && REPL(CH.topic, 0) && REPL(CH.topic_set_by, 1) && !badfree)) \
 __CPROVER_ensures(!Gfound ==> (UNCH(CH.topic) && UNCH(CH.topic_set_by) && UNCH(CH.topic_set_time) && !freed[0] && !freed[1] && !badfree))
#endif
#ifdef P_329
#define FN handle_329
#define CK 2
#define ASSIGNS CH.creation_time
#define POST __CPROVER_ensures(Gfound ==> CH.creation_time == Gnum[3]) __CPROVER_ensures(!Gfound ==> UNCH(CH.creation_time))
#endif
#ifdef P_ENTRY
#define CK 2
#define ASSIGNS CH.started, Gadd, Glist, Gm, Gby, Gat, Gclr, Gclrlist
#define started P_STARTED
#define LST (&CH.chanmode_nicklist[(unsigned char)P_MODE])
#ifdef P_BY
#define ENTRYBY (Gby == GA[4] && Gat == ((GA[4] && GA[5]) ? Gnum[5] : 0))
#else
#define ENTRYBY (Gby == NULL && Gat == 0)
#endif
#define FN P_ENTRY
/* the first entry of a reply starts the list afresh, the rest extend it */
#define POST __CPROVER_ensures(Gfound ==> (Gadd == 1 && Glist == LST && Gm == GA[3] && ENTRYBY && CH.started && Gclr == (__CPROVER_old(CH.started) ? 0 : 1) && (!Gclr || Gclrlist == LST))) \
 __CPROVER_ensures(!Gfound ==> (Gadd == 0 && Gclr == 0 && UNCH(CH.started)))
#endif
#ifdef P_END
#define CK 2
#define started P_STARTED
#define LST (&CH.chanmode_nicklist[(unsigned char)P_MODE])
#define PRES CH.chanmode_nicklist_present[(unsigned char)P_MODE]
#define ASSIGNS CH.started, PRES, Gclr, Gclrlist
#define FN P_END
#define POST __CPROVER_ensures(Gfound ==> (Gadd == 0 && !CH.started && PRES && Gclr == (__CPROVER_old(CH.started) ? 0 : 1) && (!Gclr || Gclrlist == LST))) \
 __CPROVER_ensures(!Gfound ==> (Gclr == 0 && UNCH(CH.started) && UNCH(PRES)))
#endif
#ifdef P_AWAY
#define CK 2
#define FN P_AWAY
#define ASSIGNS ST.is_away
#define POST __CPROVER_ensures((ST.is_away != 0) == P_AWAYV)
#endif

static void FN(struct irc_network_state *s, const struct irc_line *l)
__CPROVER_requires(PRE)
__CPROVER_assigns(ASSIGNS)
POST
;
#include "libirc/state.c"
void H(void)
{
	_Bool b[NA], o, t, w; int k, min = P_MIN;
	__CPROVER_havoc_object(&CH); __CPROVER_havoc_object(&ST);
	ST.info = &INFO; ST.log = NULL;
	CH.topic = t ? OLD[0] : NULL; CH.topic_set_by = w ? OLD[1] : NULL;
	/* the dispatcher (state_handle_data, proved below) guarantees the first P_MIN arguments */
	nargs = 0;
	for (k = 0; k < NA; k++) { GA[k] = (k <= min || (b[k] && GA[k - 1])) ? AR[k] : NULL; if (GA[k]) nargs++; }
	GA[NA] = NULL; L.argc = nargs; L.args = GA; L.origin = o ? ORIG : NULL;
	Gargk = CK;
	FN(&ST, &L);
	VREACH("handler");
}
