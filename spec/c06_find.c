/* C06: lookups over channel, member and nick lists of any length. */
#include "vp.h"
#include "internals.h"
#include "irc.h"
#include "lists.h"
unsigned char vp_byte;
static struct irc_network_info INFO; static struct irc_network_state ST;
static char NAMEA[2], NAMEB[2], NAMEM[2]; static const char *Gname, *Gname0; static size_t Gk;
#ifdef P_FCN
#define ARGOK(b) ((b) == Gname0 + Gk && *(b) != '@' && *(b) != '+')
#else
#define ARGOK(b) ((b) == Gname)
#endif
int cmpA, cmpB, cmpM;
int irccmp(const struct irc_network_info *n, const char *a, const char *b)
__CPROVER_requires(n == &INFO && ((ARGOK(b) && (a == NAMEA || a == NAMEB || a == NAMEM)) ))
__CPROVER_assigns()
__CPROVER_ensures(__CPROVER_return_value == (a == NAMEA ? cmpA : a == NAMEB ? cmpB : cmpM));
#define FOUND(ret, A, B) \
__CPROVER_ensures((ret) == NULL ==> (ALLSEEN && (!seenA || cmpA != 0) && (!seenB || cmpB != 0))) \
__CPROVER_ensures((ret) == (A) ==> cmpA == 0) __CPROVER_ensures((ret) == (B) ==> cmpB == 0)

#ifdef P_FC
static struct irc_channel_state CA, CB;
struct irc_channel_state *find_channel(struct irc_network_state *st, const char *name)
__CPROVER_requires(st == &ST && name == Gname && !seenA && !seenB && ST.channels == Ghead && ST.info == &INFO)
__CPROVER_assigns(seenA, seenB)
FOUND(__CPROVER_return_value, &CA, &CB)
__CPROVER_ensures(__CPROVER_return_value == NULL || __CPROVER_return_value == &CA || __CPROVER_return_value == &CB)
;
#include "libirc/state.c"
void H(void)
{
	Gname = "x"; vp_list(&CA, &CB); CA.name = NAMEA; CB.name = NAMEB; ST.info = &INFO; ST.channels = Ghead;
	find_channel(&ST, Gname);
	VREACH("find_channel");
}
#endif
#ifdef P_FCN
static struct irc_channel_state CH; static struct channel_nick CA, CB; static struct network_nick GA, GB;
static size_t LA;
/* exactly the leading prefix characters are stripped: ghost code in the loop
 * counts in Gk and asserts that the character skipped is a prefix; the name
 * handed to irccmp must be the rest and must not start with another prefix */
#define PREF(c) ((c) == '@' || (c) == '+')
gboolean is_prefix(char p, const struct irc_network_info *n)
__CPROVER_requires(n == &INFO) __CPROVER_assigns() __CPROVER_ensures((__CPROVER_return_value != 0) == PREF(p));
struct channel_nick *find_channel_nick(struct irc_channel_state *c, const char *name)
__CPROVER_requires(c == &CH && name == Gname0 && CH.network == &ST && CH.nicks == Ghead && !seenA && !seenB && Gk == 0)
__CPROVER_assigns(seenA, seenB, Gk)
FOUND(__CPROVER_return_value, &CA, &CB)
__CPROVER_ensures(__CPROVER_return_value == NULL || __CPROVER_return_value == &CA || __CPROVER_return_value == &CB)
;
#include "libirc/state.c"
void H(void)
{
	size_t len; char *s;
	__CPROVER_assume(len < 1000000);
	s = g_malloc(len + 1); __CPROVER_assume(s[len] == 0);
	LA = len; Gname0 = s; Gk = 0;
	vp_list(&CA, &CB); CA.global_nick = &GA; CB.global_nick = &GB; GA.nick = NAMEA; GB.nick = NAMEB;
	ST.info = &INFO; CH.network = &ST; CH.nicks = Ghead;
	find_channel_nick(&CH, Gname0);
	VREACH("find_channel_nick");
}
#endif
#ifdef P_FNN
static struct network_nick GA, GB;
struct network_nick *find_network_nick(struct irc_network_state *n, const char *name)
__CPROVER_requires(n == &ST && name == Gname && ST.nicks == Ghead && !seenA && !seenB)
__CPROVER_assigns(seenA, seenB)
__CPROVER_ensures((__CPROVER_return_value == &ST.me) == (cmpM == 0))
__CPROVER_ensures(__CPROVER_return_value == NULL ==> (ALLSEEN && (!seenA || cmpA != 0) && (!seenB || cmpB != 0)))
__CPROVER_ensures((__CPROVER_return_value == &GA) ==> cmpA == 0) __CPROVER_ensures((__CPROVER_return_value == &GB) ==> cmpB == 0)
__CPROVER_ensures(__CPROVER_return_value == NULL || __CPROVER_return_value == &GA || __CPROVER_return_value == &GB || __CPROVER_return_value == &ST.me)
;
#include "libirc/state.c"
void H(void)
{
	Gname = "x"; vp_list(&GA, &GB); GA.nick = NAMEA; GB.nick = NAMEB; ST.me.nick = NAMEM; ST.info = &INFO; ST.nicks = Ghead;
	find_network_nick(&ST, Gname);
	VREACH("find_network_nick");
}
#endif
#ifdef P_FNE
static struct nicklist_entry EA, EB;
int strcmp(const char *a, const char *b)
__CPROVER_requires((b == Gname && (a == NAMEA || a == NAMEB)) || (a == Gname && (b == NAMEA || b == NAMEB)))
__CPROVER_assigns()
__CPROVER_ensures(__CPROVER_return_value == ((a == NAMEA || b == NAMEA) ? cmpA : cmpB));
struct nicklist_entry *find_nicklist_entry(GList *entries, const char *hostmask)
__CPROVER_requires(entries == Ghead && hostmask == Gname && !seenA && !seenB)
__CPROVER_assigns(seenA, seenB)
FOUND(__CPROVER_return_value, &EA, &EB)
__CPROVER_ensures(__CPROVER_return_value == NULL || __CPROVER_return_value == &EA || __CPROVER_return_value == &EB)
;
#include "libirc/state.c"
void H(void)
{
	Gname = "x"; vp_list(&EA, &EB); EA.hostmask = NAMEA; EB.hostmask = NAMEB;
	find_nicklist_entry(Ghead, Gname);
	VREACH("find_nicklist_entry");
}
#endif
