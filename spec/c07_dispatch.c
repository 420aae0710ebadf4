/* state_handle_data: a handler runs only when the arguments it relies on are
 * there, and it runs for its own command.  The whole table is walked (constant
 * size, unwinding assertions on), every argument count is considered. */
#include "vp.h"
#include "internals.h"
#include "irc.h"
unsigned char vp_byte;
static struct irc_network_state ST; static struct irc_line L;
#define NA 9
static char AR[NA][2]; static char *GA[NA + 1]; int Gcmd, Gcalls, Gncmp, Gmatch;
const char *Gname;
/* which comparison succeeds is arbitrary; the handler must fit that command */
int base_strcmp(const char *a, const char *b) { __CPROVER_assert((a == GA[0] || b == GA[0]), "VP compares the command"); Gname = a == GA[0] ? b : a; return Gncmp++ != Gmatch; }
static void chk(struct irc_network_state *s, const struct irc_line *l, const char *c, int n)
{
	int k;
	__CPROVER_assert(s == &ST && l == &L && Gcalls == 0 && Gncmp == Gmatch + 1, "VP one handler runs, for this line");
	Gcalls++;
	for (k = 0; c[k]; k++) __CPROVER_assert(Gname[k] == c[k], "VP the handler belongs to the command");
	__CPROVER_assert(Gname[k] == 0, "VP the handler belongs to the command");
	for (k = 0; k <= n; k++) __CPROVER_assert(GA[k] != NULL, "VP the handler has the arguments it requires");
}
/* Stubs with the handlers' preconditions. The function-like macros rename the
 * real definitions while the table keeps the names below. */
static void handle_join(struct irc_network_state *s, const struct irc_line *l) { chk(s, l, "JOIN", 1); }
#define handle_join(a, b) real_handle_join(a, b)
static void handle_part(struct irc_network_state *s, const struct irc_line *l) { chk(s, l, "PART", 1); }
#define handle_part(a, b) real_handle_part(a, b)
static void handle_kick(struct irc_network_state *s, const struct irc_line *l) { chk(s, l, "KICK", 2); }
#define handle_kick(a, b) real_handle_kick(a, b)
static void handle_quit(struct irc_network_state *s, const struct irc_line *l) { chk(s, l, "QUIT", 0); }
#define handle_quit(a, b) real_handle_quit(a, b)
static void handle_topic(struct irc_network_state *s, const struct irc_line *l) { chk(s, l, "TOPIC", 1); }
#define handle_topic(a, b) real_handle_topic(a, b)
static void handle_nick(struct irc_network_state *s, const struct irc_line *l) { chk(s, l, "NICK", 1); }
#define handle_nick(a, b) real_handle_nick(a, b)
static void handle_privmsg(struct irc_network_state *s, const struct irc_line *l) { chk(s, l, "PRIVMSG", 1); }
#define handle_privmsg(a, b) real_handle_privmsg(a, b)
static void handle_mode(struct irc_network_state *s, const struct irc_line *l) { chk(s, l, "MODE", 2); }
#define handle_mode(a, b) real_handle_mode(a, b)
static void handle_001(struct irc_network_state *s, const struct irc_line *l) { chk(s, l, "001", 1); }
#define handle_001(a, b) real_handle_001(a, b)
static void handle_004(struct irc_network_state *s, const struct irc_line *l) { chk(s, l, "004", 5); }
#define handle_004(a, b) real_handle_004(a, b)
static void handle_umodeis(struct irc_network_state *s, const struct irc_line *l) { chk(s, l, "221", 2); }
#define handle_umodeis(a, b) real_handle_umodeis(a, b)
static void handle_302(struct irc_network_state *s, const struct irc_line *l) { chk(s, l, "302", 2); }
#define handle_302(a, b) real_handle_302(a, b)
static void handle_324(struct irc_network_state *s, const struct irc_line *l) { chk(s, l, "324", 3); }
#define handle_324(a, b) real_handle_324(a, b)
static void handle_329(struct irc_network_state *s, const struct irc_line *l) { chk(s, l, "329", 3); }
#define handle_329(a, b) real_handle_329(a, b)
static void handle_332(struct irc_network_state *s, const struct irc_line *l) { chk(s, l, "332", 3); }
#define handle_332(a, b) real_handle_332(a, b)
static void handle_333(struct irc_network_state *s, const struct irc_line *l) { chk(s, l, "333", 4); }
#define handle_333(a, b) real_handle_333(a, b)
static void handle_no_topic(struct irc_network_state *s, const struct irc_line *l) { chk(s, l, "331", 2); }
#define handle_no_topic(a, b) real_handle_no_topic(a, b)
static void handle_namreply(struct irc_network_state *s, const struct irc_line *l) { chk(s, l, "353", 4); }
#define handle_namreply(a, b) real_handle_namreply(a, b)
static void handle_end_names(struct irc_network_state *s, const struct irc_line *l) { chk(s, l, "366", 2); }
#define handle_end_names(a, b) real_handle_end_names(a, b)
static void handle_banlist_entry(struct irc_network_state *s, const struct irc_line *l) { chk(s, l, "367", 3); }
#define handle_banlist_entry(a, b) real_handle_banlist_entry(a, b)
static void handle_end_banlist(struct irc_network_state *s, const struct irc_line *l) { chk(s, l, "368", 2); }
#define handle_end_banlist(a, b) real_handle_end_banlist(a, b)
static void handle_invitelist_entry(struct irc_network_state *s, const struct irc_line *l) { chk(s, l, "346", 3); }
#define handle_invitelist_entry(a, b) real_handle_invitelist_entry(a, b)
static void handle_end_invitelist(struct irc_network_state *s, const struct irc_line *l) { chk(s, l, "347", 2); }
#define handle_end_invitelist(a, b) real_handle_end_invitelist(a, b)
static void handle_exceptlist_entry(struct irc_network_state *s, const struct irc_line *l) { chk(s, l, "348", 3); }
#define handle_exceptlist_entry(a, b) real_handle_exceptlist_entry(a, b)
static void handle_end_exceptlist(struct irc_network_state *s, const struct irc_line *l) { chk(s, l, "349", 2); }
#define handle_end_exceptlist(a, b) real_handle_end_exceptlist(a, b)
static void handle_whoreply(struct irc_network_state *s, const struct irc_line *l) { chk(s, l, "352", 8); }
#define handle_whoreply(a, b) real_handle_whoreply(a, b)
static void handle_nowaway(struct irc_network_state *s, const struct irc_line *l) { chk(s, l, "306", 0); }
#define handle_nowaway(a, b) real_handle_nowaway(a, b)
static void handle_unaway(struct irc_network_state *s, const struct irc_line *l) { chk(s, l, "305", 0); }
#define handle_unaway(a, b) real_handle_unaway(a, b)
static void handle_end_who(struct irc_network_state *s, const struct irc_line *l) { chk(s, l, "315", 0); }
#define handle_end_who(a, b) real_handle_end_who(a, b)
void handle_005(struct irc_network_state *s, const struct irc_line *l) { chk(s, l, "005", 1); }
#include "libirc/state.c"
void H(void)
{
	_Bool b[NA], p, q, r; int k;
	GA[0] = p ? AR[0] : NULL;
	for (k = 1; k < NA; k++) GA[k] = (b[k] && GA[k - 1]) ? AR[k] : NULL;
	GA[NA] = NULL; L.args = q ? GA : NULL; L.argc = 0;
	for (k = 0; k < NA; k++) if (GA[k]) L.argc++;
	Gcalls = 0; Gncmp = 0; __CPROVER_assume(Gmatch >= 0 && Gmatch < 100);
	{ gboolean ret = state_handle_data(r ? &ST : NULL, &L);
	__CPROVER_assert((ret != 0) == (Gcalls == 1), "VP reports whether a handler ran");
	}
	VREACH("dispatch");
}
