/* C23: what a client hears about the state of a network, read back. */
#include "vp.h"
#include "internals.h"
#include "irc.h"
#include "client.h"
#include "state.h"
#include <string.h>
static struct irc_client C; static struct irc_client_callbacks CB; static GPtrArray *out; static int failat;
gboolean __wrap_transport_send_line(struct irc_transport *t, const struct irc_line *l, GError **e) { char *s; if (failat >= 0 && (int)out->len >= failat) return FALSE; s = irc_line_string(l); VASSERT(strlen(s) <= 510, "a line of at most 512 bytes"); g_ptr_array_add(out, s); return TRUE; }
static int eq(const char *a, const char *b) { return a == b || (a && b && !strcmp(a, b)); }
static void tell(struct irc_network_state *s, const char *fmt, ...) G_GNUC_PRINTF(2, 3);
static void tell(struct irc_network_state *s, const char *fmt, ...) { va_list ap; char *t; struct irc_line *l; va_start(ap, fmt); t = g_strdup_vprintf(fmt, ap); va_end(ap); l = irc_parse_line(t); state_handle_data(s, l); free_line(l); g_free(t); }
static char top(struct irc_network_info *i, struct channel_nick *n) { return get_prefix_from_modes(i, n->modes); }
static void same(struct irc_network_state *s, struct irc_network_state *c, const char *who)
{
	GList *gl, *nl;
	VASSERT(eq(s->me.nick, c->me.nick), "the nick"); VASSERT(g_list_length(s->channels) == g_list_length(c->channels), "the same channels");
	VASSERT(!memcmp(s->me.modes, c->me.modes, sizeof s->me.modes), "the modes of the user");
	for (gl = s->channels; gl; gl = gl->next) {
		struct irc_channel_state *a = gl->data, *b = find_channel(c, a->name);
		VASSERT(b != NULL, "every channel"); VASSERT(eq(a->topic, b->topic), "its topic"); if (a->topic_set_time && a->topic_set_by) VASSERT(eq(a->topic_set_by, b->topic_set_by) && a->topic_set_time == b->topic_set_time, "who set it");
		VASSERT(b->mode == (a->mode ? a->mode : '='), "kind of channel"); VASSERT(!b->namreply_started, "the list is complete");
		VASSERT(g_list_length(a->nicks) == g_list_length(b->nicks), "as many members");
		for (nl = a->nicks; nl; nl = nl->next) { struct channel_nick *n = nl->data, *m = find_channel_nick(b, n->global_nick->nick); VASSERT(m != NULL, "every member"); VASSERT(top(s->info, n) == top(c->info, m), "with its prefix"); }
	}
}
VP_HARNESS(replicate)
{
	struct irc_network_state *s = network_state_init("me", "u", "h"), *c2; int k, nch = ND_BELOW(4), i, changes; static const char *ml[] = { "+i", "+iw", "+x" }; static const char kinds[] = "=@*"; char *t;
	for (k = 0; k < nch; k++) {
		char ch[40]; int nn = ND_BELOW(6) == 0 ? 20 + ND_BELOW(60) : ND_BELOW(5), w = ND_BELOW(5) == 0 ? 30 : 3; sprintf(ch, "#c%d", k); if (ND_BELOW(6) == 0) strcat(ch, "xxxxxxxxxxxxxxxxxxxx");
		tell(s, ":me!u@h JOIN %s", ch);
		if (ND_BELOW(6)) { GString *g = g_string_new("@me"); for (i = 0; i < nn; i++) { g_string_append_printf(g, " %sn%d_%d", ((const char *[]){ "", "@", "+", "%" })[ND_BELOW(4)], k, i % 3 == 0 ? i : 100 + i); if (w > 3) g_string_append(g, "yyyyyyyyyyyyyyyyyyyyyyyyyyyy"); } tell(s, ":srv 353 me %c %s :%s", kinds[ND_BELOW(3)], ch, g->str); tell(s, ":srv 366 me %s :End", ch); g_string_free(g, TRUE); }
		if (ND_BOOL()) { tell(s, ":srv 332 me %s :a topic of %d words", ch, k); if (ND_BOOL()) tell(s, ":srv 333 me %s somebody %d", ch, 1000 + k); }
		if (ND_BOOL()) tell(s, ":srv 324 me %s +%s", ch, ND_BOOL() ? "ntk secret" : "sl 20"); if (ND_BOOL()) tell(s, ":srv 329 me %s 123456", ch);
		if (ND_BELOW(3) == 0) { tell(s, ":n!a@b JOIN %s", ch); tell(s, ":me!u@h MODE %s +v n", ch); }
	}
	if (ND_BOOL()) tell(s, ":me!u@h MODE me %s", ml[ND_BELOW(3)]);
	memset(&C, 0, sizeof C); C.callbacks = &CB; C.connected = TRUE; C.default_origin = ND_BELOW(8) ? "srv" : "a.very.long.server.name.that.takes.much.of.the.room.on.a.line.example.org"; C.state = network_state_init(ND_BOOL() ? "me" : "other", "cu", "ch"); C.description = "c"; out = g_ptr_array_new_with_free_func(g_free); failat = -1; c2 = network_state_init(C.state->me.nick, "cu", "ch");
	vp_note("%d channels\n", nch);
	VASSERT(client_send_state(&C, s), "told");
	for (i = 0; i < (int)out->len; i++) { struct irc_line *l = irc_parse_line(out->pdata[i]); vp_note("  %s\n", (char *)out->pdata[i]); state_handle_data(c2, l); free_line(l); }
	same(s, c2, "what the client can know"); same(s, C.state, "what the proxy knows the client knows");
	/* nothing can be sent any more: failure is reported */
	changes = out->len; if (changes > 0) { struct irc_network_state *keep = C.state; C.state = network_state_init("other", "cu", "ch"); failat = ND_BELOW(changes < 255 ? changes : 255); g_ptr_array_set_size(out, 0); if (failat < changes) VASSERT(!client_send_state(&C, s) && (int)out->len == failat, "failure is reported"); free_network_state(C.state); C.state = keep; failat = -1; }
	/* modes */
	for (k = 0; k < nch; k++) { struct irc_channel_state *ch = g_list_nth_data(s->channels, k), *b; g_ptr_array_set_size(out, 0); VASSERT(client_send_channel_mode(&C, ch), "told"); VASSERT(out->len >= 1, "told the modes"); for (i = 0; i < (int)out->len; i++) { struct irc_line *l = irc_parse_line(out->pdata[i]); state_handle_data(c2, l); free_line(l); } b = find_channel(c2, ch->name); VASSERT(!memcmp(ch->modes, b->modes, sizeof b->modes) && eq(ch->chanmode_option['k'], b->chanmode_option['k']) && eq(ch->chanmode_option['l'], b->chanmode_option['l']) && ch->creation_time == b->creation_time, "the modes and their values");
		VASSERT(strstr(out->pdata[0], " 324 ") && g_str_has_prefix(out->pdata[0], ":"), "as 324"); }
	/* netsplit: everybody else leaves */
	g_ptr_array_set_size(out, 0); VASSERT(client_send_netsplit(&C, "my", "lost"), "told"); for (i = 0; i < (int)out->len; i++) { struct irc_line *l = irc_parse_line(out->pdata[i]); VASSERT(!strcmp(l->args[0], "QUIT") && !strcmp(l->args[1], "my lost"), "QUIT"); t = line_get_nick(l); VASSERT(strcmp(t, s->me.nick), "not ourselves"); VASSERT(find_network_nick(c2, t), "known"); g_free(t); state_handle_data(c2, l); free_line(l); }
	{ GList *gl, *nl; for (gl = c2->channels; gl; gl = gl->next) for (nl = ((struct irc_channel_state *)gl->data)->nicks; nl; nl = nl->next) VASSERT(((struct channel_nick *)nl->data)->global_nick == &c2->me, "nobody else is left"); }
	g_ptr_array_free(out, TRUE); free_network_state(s); free_network_state(c2); free_network_state(C.state);
}
