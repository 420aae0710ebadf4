/* Reference model of what a client may conclude from a server's messages about
 * channels, members and modes; driven against libirc/state.c (C05, C06, C07). */
#include "vp.h"
#include "internals.h"
#include "irc.h"

struct network_nick *find_add_network_nick(struct irc_network_state *n, const char *name);
struct channel_nick *find_add_channel_nick(struct irc_channel_state *c, const char *name);

#define NP 24
#define NC 6
#define NM 8
#define STRN 48
struct mlist { int n; char mask[NM][STRN]; char by[NM][STRN]; long at[NM]; int timed[NM]; int present, started; };
struct mchan {
	int alive, started, mode_received;
	char name[STRN];
	int member[NP]; unsigned char pm[NP][256];
	unsigned char modes[256]; char opt[256][STRN]; int hasopt[256];
	int hastopic; char topic[STRN]; int hasby; char by[STRN]; long at, at2; long created; char nmode;
	struct mlist b, e, I;
};
static struct { int alive; char nick[STRN], user[STRN], host[STRN]; int uh; } P[NP];
static struct mchan C[NC];
static int el, away;
static unsigned char memodes[256];
static const char *px_modes, *px_signs, *cm[4];
static struct irc_network_state *S;

static int fold(int c) { return c >= 65 && c <= el ? c + 32 : c; }
static int feq(const char *a, const char *b)
{
	for (; fold((unsigned char)*a) == fold((unsigned char)*b); a++, b++) if (!*a) return 1;
	return 0;
}
static int feq(const char *a, const char *b);
static int findp(const char *n) { int i; for (i = 0; i < NP; i++) if (P[i].alive && feq(P[i].nick, n)) return i; return -1; }
static int addp(const char *n)
{
	int i = findp(n);
	if (i >= 0) return i;
	for (i = 0; i < NP && P[i].alive; i++);
	VASSUME(i < NP);
	memset(&P[i], 0, sizeof P[i]);
	P[i].alive = 1; strcpy(P[i].nick, n);
	return i;
}
static int findc(const char *n) { int i; for (i = 0; i < NC; i++) if (C[i].alive && feq(C[i].name, n)) return i; return -1; }
static int addc(const char *n)
{
	int i = findc(n);
	if (i >= 0) return i;
	for (i = 0; i < NC && C[i].alive; i++);
	VASSUME(i < NC);
	memset(&C[i], 0, sizeof C[i]);
	C[i].alive = 1; strcpy(C[i].name, n);
	return i;
}
static void reap(void)
{
	int p, c, in;
	for (p = 1; p < NP; p++) if (P[p].alive) {
		for (in = c = 0; c < NC; c++) in |= C[c].alive && C[c].member[p];
		if (!in) P[p].alive = 0;
	}
}

/* ------------------------------------------------ comparison with the code */
static void invariants(struct irc_network_state *s)
{
	GList *gl, *l, *m; int k;
	for (gl = s->channels; gl; gl = gl->next) {
		struct irc_channel_state *c = gl->data;
		VASSERT(c->network == s, "channel points back to its network");
		VASSERT(c->name != NULL, "channel has a name");
		for (l = c->nicks; l; l = l->next) {
			struct channel_nick *n = l->data;
			VASSERT(n->channel == c, "member points back to its channel");
			VASSERT(n->global_nick != NULL && n->global_nick->nick != NULL, "member has a nick");
			VASSERT(n->global_nick == &s->me || g_list_find(s->nicks, n->global_nick), "member is a known nick");
			for (k = 0, m = n->global_nick->channel_nicks; m; m = m->next) k += m->data == n;
			VASSERT(k == 1, "nick lists the channel exactly once");
			for (m = l->next; m; m = m->next)
				VASSERT(((struct channel_nick *)m->data)->global_nick != n->global_nick, "nick is on a channel at most once");
		}
	}
	for (gl = s->nicks; ; gl = gl->next) {
		struct network_nick *nn = gl ? gl->data : &s->me;
		VASSERT(nn->nick != NULL, "nick has a name");
		for (l = nn->channel_nicks; l; l = l->next) {
			struct channel_nick *n = l->data;
			VASSERT(n->global_nick == nn, "channel membership points back to its nick");
			VASSERT(g_list_find(s->channels, n->channel) != NULL, "nick is on a known channel");
			VASSERT(g_list_find(n->channel->nicks, n) != NULL, "channel lists the member");
		}
		if (nn->hostmask && nn->username && nn->hostname) {
			char *h = g_strdup_printf("%s!%s@%s", nn->nick, nn->username, nn->hostname);
			VASSERT(!strcmp(h, nn->hostmask), "hostmask agrees with nick, user and host");
			g_free(h);
		}
		if (!gl) break;
	}
}
static int modes_same(const gboolean *a, const unsigned char *b)
{
	int i;
	for (i = 0; i < 256 && i < MAXMODES; i++) if (!!a[i] != !!b[i]) return 0;
	return 1;
}
static void cmp_list(const char *what, GList *l, struct mlist *m, int present)
{
	int i;
	VASSERT(!!present == !!m->present, "list completeness flag");
	VASSERT((int)g_list_length(l) == m->n, "list length");
	for (i = 0; l; l = l->next, i++) {
		struct nicklist_entry *e = l->data; int j;
		for (j = 0; j < m->n; j++) if (!strcmp(m->mask[j], e->hostmask)) break;
		vp_note("list %s entry %s\n", what, e->hostmask);
		VASSERT(j < m->n, "list entry");
		if (m->by[j][0]) VASSERT(e->by && !strcmp(e->by, m->by[j]), "who set the list entry");
		if (m->timed[j]) VASSERT(e->time_set == m->at[j], "when the list entry was set");
	}
}
#define MEMB 1
#define MODES 2
#define INFO 4
static void compare(int what)
{
	int c, p, n, i;
	GList *gl;
	invariants(S);
	for (n = c = 0; c < NC; c++) n += C[c].alive;
	VASSERT((int)g_list_length(S->channels) == n, "set of channels");
	VASSERT(!strcmp(S->me.nick, P[0].nick), "own nick");
	for (c = 0; c < NC; c++) if (C[c].alive) {
		struct mchan *m = &C[c];
		struct irc_channel_state *ch = find_channel(S, m->name);
		VASSERT(ch != NULL, "channel is known");
		VASSERT(!strcmp(ch->name, m->name), "channel name");
		if (what & MEMB) {
			for (n = p = 0; p < NP; p++) n += P[p].alive && m->member[p];
			VASSERT((int)g_list_length(ch->nicks) == n, "number of members");
		}
		for (p = 0; p < NP; p++) if (P[p].alive && m->member[p]) {
			struct channel_nick *cn = find_channel_nick(ch, P[p].nick);
			if (what & MEMB) {
				VASSERT(cn != NULL, "member is on the channel");
				VASSERT(P[p].uh ? !strcmp(cn->global_nick->nick, P[p].nick) : feq(cn->global_nick->nick, P[p].nick), "nick of the member");
				VASSERT((cn->global_nick == &S->me) == (p == 0), "own membership");
				if (P[p].uh) {
					VASSERT(cn->global_nick->username && !strcmp(cn->global_nick->username, P[p].user), "user name of the member");
					VASSERT(cn->global_nick->hostname && !strcmp(cn->global_nick->hostname, P[p].host), "host name of the member");
					VASSERT(find_channel_nick_hostmask(ch, cn->global_nick->hostmask) == cn, "member found by hostmask");
				}
			}
			if (cn && (what & (MODES | MEMB))) VASSERT(modes_same(cn->modes, m->pm[p]), "status of the member");
		}
		if (what & MODES) {
			char *s; irc_modes_t back; unsigned char same[256];
			VASSERT(modes_same(ch->modes, m->modes), "channel modes");
			VASSERT(!!ch->mode_received == !!m->mode_received, "whether the channel modes are known");
			for (i = 0; i < 256 && i < MAXMODES; i++) {
				VASSERT((ch->chanmode_option[i] != NULL) == m->hasopt[i], "channel setting present");
				if (m->hasopt[i]) VASSERT(!strcmp(ch->chanmode_option[i], m->opt[i]), "value of the channel setting");
			}
			s = mode2string(ch->modes);
			VASSERT(string2mode(s, back), "mode string is valid");
			VASSERT(!memcmp(back, ch->modes, sizeof back), "mode string round trip");
			(void)same;
			g_free(s);
		}
		if (what & (MODES | INFO)) {
			cmp_list("ban", channel_mode_nicklist(ch, 'b'), &m->b, channel_mode_nicklist_present(ch, 'b'));
			cmp_list("except", channel_mode_nicklist(ch, 'e'), &m->e, channel_mode_nicklist_present(ch, 'e'));
			cmp_list("invite", channel_mode_nicklist(ch, 'I'), &m->I, channel_mode_nicklist_present(ch, 'I'));
		}
		if (what & INFO) {
			VASSERT((ch->topic != NULL) == m->hastopic, "whether a topic is set");
			if (m->hastopic) VASSERT(!strcmp(ch->topic, m->topic), "topic");
			VASSERT((ch->topic_set_by != NULL) == m->hasby, "whether it is known who set the topic");
			if (m->hasby) VASSERT(!strcmp(ch->topic_set_by, m->by), "who set the topic");
			VASSERT(ch->topic_set_time >= m->at && ch->topic_set_time <= m->at2, "when the topic was set");
			VASSERT(ch->creation_time == m->created, "channel creation time");
		}
		VASSERT(ch->mode == m->nmode, "kind of channel");
	}
	if (what & MODES) VASSERT(modes_same(S->me.modes, memodes), "own user modes");
	if (what & INFO) VASSERT(!!S->is_away == away, "own away status");
	/* nobody else is on any channel */
	if (what & MEMB) for (gl = S->nicks; gl; gl = gl->next) {
		struct network_nick *nn = gl->data;
		if (nn->channel_nicks) VASSERT(findp(nn->nick) > 0, "only members are on channels");
	}
}

static char LINE[1024];
static void feed(const char *fmt, ...)
{
	va_list ap; struct irc_line *l; char *copy;
	va_start(ap, fmt); vsnprintf(LINE, sizeof LINE, fmt, ap); va_end(ap);
	vp_note("%s\n", LINE);
	l = irc_parse_line(LINE);
	VASSERT(l != NULL, "line parses");
	copy = irc_line_string(l);
	VASSERT(state_handle_data(S, l), "message is recognised");
	{ char *again = irc_line_string(l); VASSERT(!strcmp(copy, again), "the line itself is left alone"); g_free(again); }
	g_free(copy);
	free_line(l);
}

/* ------------------------------------------------------------- generation */
static const char *nicks[] = { "al", "Bo", "c[d", "eve", "f_g", "zoe", "q^r" };
static const char *chans[] = { "#a", "#b[x", "&loc", "#long-name" };
#define NN 7
#define NCH 4
static const char *recase(const char *s)
{
	static char b[4][STRN]; static int k;
	char *r = b[k = (k + 1) & 3]; int i, w = ND_BELOW(4);
	for (i = 0; s[i]; i++) {
		r[i] = s[i];
		if (w == 1 && fold(s[i]) != s[i]) r[i] = fold(s[i]);
		if (w == 2 && s[i] >= 97 && s[i] <= el + 32) r[i] = s[i] - 32;
	}
	r[i] = 0;
	return r;
}
static const char *users[] = { "u1", "~u2" }, *hosts[] = { "h.example.org", "::1", "a@b" };
static int pick_member(int c)	/* any member of channel c, or -1 */
{
	int p, n = 0, k;
	for (p = 0; p < NP; p++) n += P[p].alive && C[c].member[p];
	if (!n) return -1;
	k = ND_BELOW(n);
	for (p = 0; p < NP; p++) if (P[p].alive && C[c].member[p] && k-- == 0) return p;
	return -1;
}
static int pick_chan(void)
{
	int c, n = 0, k;
	for (c = 0; c < NC; c++) n += C[c].alive;
	if (!n) return -1;
	k = ND_BELOW(n);
	for (c = 0; c < NC; c++) if (C[c].alive && k-- == 0) return c;
	return -1;
}
static const char *origin_of(int p)
{
	static char b[4][200]; static int k;
	char *r = b[k = (k + 1) & 3];
	if (P[p].uh) sprintf(r, "%s!%s@%s", P[p].nick, P[p].user, P[p].host);
	else strcpy(r, P[p].nick);
	return r;
}
static void start(void)
{
	static const char *cmaps[] = { NULL, "rfc1459", "ascii", "strict-rfc1459" };
	static const int els[] = { 94, 94, 90, 93 };
	static const char *pm[] = { "ov", "ohv", "qaohv" }, *ps[] = { "@+", "@%+", "~&@%+" };
	int k, c;
	memset(P, 0, sizeof P); memset(C, 0, sizeof C); memset(memodes, 0, sizeof memodes); away = 0;
	S = network_state_init("me", "myuser", "myhost");
	P[0].alive = 1; strcpy(P[0].nick, "me");
	el = 94; px_modes = "ov"; px_signs = "@+"; cm[0] = "beI"; cm[1] = "k"; cm[2] = "l"; cm[3] = "imnpsta";
	k = ND_BELOW(4); c = ND_BELOW(4);
	if (k || c) {
		el = els[k];
		if (c) { px_modes = pm[c - 1]; px_signs = ps[c - 1]; cm[0] = "beIX"; cm[1] = "kf"; cm[2] = "lj"; cm[3] = "imnpstS"; }
		if (k && c) feed(":srv 005 me CASEMAPPING=%s PREFIX=(%s)%s CHANMODES=%s,%s,%s,%s :are supported by this server", cmaps[k], px_modes, px_signs, cm[0], cm[1], cm[2], cm[3]);
		else if (k) feed(":srv 005 me CASEMAPPING=%s CHANTYPES=#& :are supported by this server", cmaps[k]);
		else feed(":srv 005 me PREFIX=(%s)%s CHANMODES=%s,%s,%s,%s :are supported by this server", px_modes, px_signs, cm[0], cm[1], cm[2], cm[3]);
	}
}
static void finish(void) { free_network_state(S); }

static void do_join(int p, const char *nick, const char *chan)
{
	int c = addc(chan);
	if (!C[c].member[p]) memset(C[c].pm[p], 0, 256);
	C[c].member[p] = 1;
	(void)nick;
}
static void do_leave(int p, int c)
{
	if (p == 0) C[c].alive = 0; else C[c].member[p] = 0;
	reap();
}
static void ev_join_me(void)
{
	const char *a = recase(chans[ND_BELOW(NCH)]), *b = recase(chans[ND_BELOW(NCH)]);
	P[0].uh = 1; strcpy(P[0].user, users[0]); strcpy(P[0].host, hosts[0]);
	if (ND_BELOW(4) == 0 && !feq(a, b)) {
		feed(":%s JOIN %s%s,%s", origin_of(0), ND_BOOL() ? ":" : "", a, b);
		do_join(0, "me", a); do_join(0, "me", b);
	} else {
		feed(":%s JOIN %s%s", origin_of(0), ND_BOOL() ? ":" : "", a);
		do_join(0, "me", a);
	}
}
static void ev_join(void)
{
	int c = pick_chan(), p, c2; const char *n;
	if (c < 0) return;
	n = nicks[ND_BELOW(NN)];
	if (findp(n) < 0) { p = addp(n); } else p = findp(n);
	if (p == 0) return;
	if (ND_BELOW(4)) { P[p].uh = 1; strcpy(P[p].user, users[ND_BELOW(2)]); strcpy(P[p].host, hosts[ND_BELOW(3)]); }
	c2 = pick_chan();
	if (c2 != c && ND_BELOW(3) == 0) {
		feed(":%s JOIN %s,%s", origin_of(p), recase(C[c].name), recase(C[c2].name));
		do_join(p, n, C[c2].name);
	} else feed(":%s JOIN %s", origin_of(p), recase(C[c].name));
	do_join(p, n, C[c].name);
}
static void ev_part(void)
{
	int c = pick_chan(), p, c2;
	if (c < 0 || (p = pick_member(c)) < 0) return;
	c2 = pick_chan();
	if (c2 != c && C[c2].member[p] && ND_BOOL()) {
		feed(":%s PART %s,%s%s", origin_of(p), recase(C[c].name), recase(C[c2].name), ND_BOOL() ? " :bye, all" : "");
		do_leave(p, c); do_leave(p, c2);
	} else {
		feed(":%s PART %s%s", origin_of(p), recase(C[c].name), ND_BOOL() ? " :bye, all" : "");
		do_leave(p, c);
	}
}
static void ev_kick(void)
{
	int c = pick_chan(), p, q, c2, p2; char by[200];
	if (c < 0 || (p = pick_member(c)) < 0) return;
	q = pick_member(c); strcpy(by, ND_BOOL() ? origin_of(q) : "services.example.org");
	c2 = pick_chan();
	if (c2 != c && ND_BELOW(3) == 0 && (p2 = pick_member(c2)) >= 0) {
		feed(":%s KICK %s,%s %s,%s%s", by, recase(C[c].name), recase(C[c2].name), recase(P[p].nick), recase(P[p2].nick), ND_BOOL() ? " :go away" : "");
		do_leave(p, c);
		if (C[c2].alive && C[c2].member[p2]) do_leave(p2, c2);
	} else if (ND_BELOW(4) == 0) {
		/* somebody or something we do not know comes first */
		_Bool k = ND_BOOL();
		feed(":%s KICK %s,%s %s,%s%s", by, k ? recase(C[c].name) : "#nowhere", recase(C[c].name), k ? "ghost99" : recase(P[p].nick), recase(P[p].nick), ND_BOOL() ? " :go away" : "");
		do_leave(p, c);
	} else {
		feed(":%s KICK %s %s%s", by, recase(C[c].name), recase(P[p].nick), ND_BOOL() ? " :go away" : "");
		do_leave(p, c);
	}
}
static void ev_quit(void)
{
	int c = pick_chan(), p, i;
	if (c < 0 || (p = pick_member(c)) <= 0) return;
	feed(":%s QUIT%s", origin_of(p), ND_BOOL() ? " :Ping timeout" : "");
	for (i = 0; i < NC; i++) C[i].member[p] = 0;
	reap();
}
static void ev_nick(void)
{
	int c = pick_chan(), p; const char *n; int q;
	p = c < 0 || ND_BELOW(4) == 0 ? 0 : pick_member(c);
	if (p < 0) p = 0;
	n = ND_BELOW(4) == 0 ? recase(P[p].nick) : ND_BELOW(5) == 0 ? "newname" : nicks[ND_BELOW(NN)];
	q = findp(n);
	if (q >= 0 && q != p) return;
	feed(":%s NICK %s%s", origin_of(p), ND_BOOL() ? ":" : "", n);
	strcpy(P[p].nick, n);
}
static void ev_privmsg(void)
{
	const char *n = nicks[ND_BELOW(NN)]; int p = findp(n);
	if (p >= 0) feed(":%s PRIVMSG %s :hello", origin_of(p), recase(P[0].nick));
	else feed(":%s!%s@%s PRIVMSG %s :hello", n, "old", "oldhost", recase(P[0].nick));
	if (ND_BOOL() && p < 0) feed(":%s!old@oldhost QUIT :gone", n);
}
static void ev_names(void)
{
	int c = pick_chan(), lines, i, k, p; char buf[600]; int used[NN] = { 0 }, meused = 0;
	char kind;
	if (c < 0) return;
	lines = 1 + ND_BELOW(2);
	kind = "=@*"[ND_BELOW(3)];
	if (!C[c].started) { memset(C[c].member, 0, sizeof C[c].member); C[c].started = 1; C[c].nmode = kind; reap(); }
	C[c].nmode = kind;
	for (i = 0; i < lines; i++) {
		buf[0] = 0;
		for (k = ND_BELOW(4) + (i == 0); k > 0; k--) {
			int j = ND_BELOW(NN), s; const char *n; unsigned char pm[256];
			if (!meused) { meused = 1; n = P[0].nick; }
			else { if (used[j] || findp(nicks[j]) == 0) continue; used[j] = 1; n = nicks[j]; }
			memset(pm, 0, sizeof pm);
			if (buf[0]) strcat(buf, " ");
			for (s = 0; px_signs[s]; s++) if (ND_BELOW(3) == 0) {
				int l = strlen(buf); buf[l] = px_signs[s]; buf[l + 1] = 0; pm[(int)px_modes[s]] = 1;
				if (ND_BELOW(2)) break;
			}
			p = addp(n);
			if (C[c].member[p]) memcpy(pm, C[c].pm[p], 256);
			strcat(buf, P[p].nick);
			C[c].member[p] = 1; memcpy(C[c].pm[p], pm, 256);
		}
		feed(":srv 353 %s %c %s :%s%s", P[0].nick, kind, recase(C[c].name), buf, ND_BOOL() ? " " : "");
	}
	feed(":srv 366 %s %s :End of /NAMES list.", P[0].nick, recase(C[c].name)); C[c].started = 0;
}
static struct mlist *lst(int c, char m) { return m == 'b' ? &C[c].b : m == 'e' ? &C[c].e : m == 'I' ? &C[c].I : NULL; }
static const char *masks[] = { "*!*@bad.example", "*!~u@*", "x!*@*", "$a:acct" };
static void ev_list(void)
{
	static const char ty[] = "beI"; static const int ent[] = { 367, 348, 346 }, end[] = { 368, 349, 347 };
	int c = pick_chan(), t, i, k; struct mlist *L;
	if (c < 0) return;
	t = ND_BELOW(3); L = lst(c, ty[t]);
	k = ND_BELOW(4);
	memset(L, 0, sizeof *L);
	for (i = 0; i < k; i++) {
		strcpy(L->mask[i], masks[i]);
		if (t == 0 && ND_BOOL()) {
			strcpy(L->by[i], nicks[ND_BELOW(NN)]); L->at[i] = 1000000000 + ND_BELOW(1000); L->timed[i] = 1;
			feed(":srv %d %s %s %s %s %ld", ent[t], P[0].nick, recase(C[c].name), masks[i], L->by[i], L->at[i]);
		} else feed(":srv %d %s %s %s", ent[t], P[0].nick, recase(C[c].name), masks[i]);
	}
	L->n = k; L->present = 1;
	feed(":srv %d %s %s :End of channel list", end[t], P[0].nick, recase(C[c].name));
}
static void ev_mode(void)
{
	int c = pick_chan(), k, sign = 1, first = 1, p; char ms[64] = "", args[400] = "", org[200]; char by[STRN] = ""; int len = 0;
	if (c < 0) return;
	p = pick_member(c);
	if (p >= 0 && ND_BOOL()) { strcpy(org, origin_of(p)); strcpy(by, P[p].nick); } else strcpy(org, "irc.example.org");
	for (k = 1 + ND_BELOW(5); k > 0; k--) {
		int t = ND_BELOW(5), s = ND_BOOL(); char m; const char *a = NULL;
		if (first ? (!s || ND_BOOL()) : s != sign) ms[len++] = s ? '+' : '-';
		else s = sign;
		first = 0; sign = s;
		if (t == 4) { /* member status */
			int q = pick_member(c);
			if (q < 0) { continue; }
			m = px_modes[ND_BELOW(strlen(px_modes))];
			a = ND_BELOW(12) == 0 ? "nobody" : recase(P[q].nick);
			if (feq(a, P[q].nick)) C[c].pm[q][(int)m] = s;
		} else {
			m = cm[t][ND_BELOW(strlen(cm[t]))];
			if (t == 0) {
				struct mlist *L = lst(c, m); int i, w = ND_BELOW(4);
				a = masks[w];
				if (L) for (i = 0; i < L->n && strcmp(L->mask[i], a); i++);
				if (L && L->present) {
					if (s && i == L->n) { strcpy(L->mask[i], a); strcpy(L->by[i], by); L->timed[i] = 0; L->n++; }
					else if (s) { if (len && (ms[len - 1] == '+' || ms[len - 1] == '-')) first = 1, len--, sign = 1; if (!len) { } else { int z; sign = 1; for (z = 0; z < len; z++) if (ms[z] == '-') sign = 0; else if (ms[z] == '+') sign = 1; first = 0; } continue; }
					else if (i < L->n) {
						L->n--;
						memmove(&L->mask[i], &L->mask[i + 1], (L->n - i) * STRN); memmove(&L->by[i], &L->by[i + 1], (L->n - i) * STRN);
						memmove(&L->at[i], &L->at[i + 1], (L->n - i) * sizeof L->at[0]); memmove(&L->timed[i], &L->timed[i + 1], (L->n - i) * sizeof(int));
					}
				}
			} else if (t == 1) { a = s ? (ND_BOOL() ? "secret" : "other") : "*"; C[c].hasopt[(int)m] = C[c].modes[(int)m] = s; strcpy(C[c].opt[(int)m], a); }
			else if (t == 2) { a = s ? (ND_BOOL() ? "12" : "5:10") : NULL; C[c].hasopt[(int)m] = C[c].modes[(int)m] = s; if (s) strcpy(C[c].opt[(int)m], a); }
			else C[c].modes[(int)m] = s;
		}
		ms[len++] = m; ms[len] = 0;
		if (a) { strcat(args, " "); strcat(args, a); }
	}
	ms[len] = 0;
	if (!len) return;
	feed(":%s MODE %s %s%s", org, recase(C[c].name), ms, args);
}
static void ev_324(void)
{
	int c = pick_chan(), i, k, len = 1; char ms[32] = "+", args[200] = ""; unsigned char nm[256] = { 0 };
	if (c < 0) return;
	for (k = ND_BELOW(5); k > 0; k--) {
		int t = 1 + ND_BELOW(3); char m = cm[t][ND_BELOW(strlen(cm[t]))];
		if (nm[(int)m]) continue;
		nm[(int)m] = 1; ms[len++] = m; ms[len] = 0;
		if (t != 3) { const char *a = ND_BOOL() ? "kk" : "7"; strcat(args, " "); strcat(args, a); C[c].hasopt[(int)m] = 1; strcpy(C[c].opt[(int)m], a); }
	}
	for (i = 0; i < 256; i++) if (!nm[i]) C[c].hasopt[i] = 0;
	memcpy(C[c].modes, nm, 256); C[c].mode_received = 1;
	feed(":srv 324 %s %s %s%s", P[0].nick, recase(C[c].name), ms, args);
}
static void ev_umode(void)
{
	static const char um[] = "iwsoxR"; int k, sign = 1, len = 0; char ms[40];
	if (ND_BELOW(3) == 0) {
		memset(memodes, 0, 256); ms[len++] = '+';
		for (k = ND_BELOW(4); k > 0; k--) { char m = um[ND_BELOW(6)]; ms[len++] = m; memodes[(int)m] = 1; }
		ms[len] = 0;
		feed(":srv 221 %s %s", P[0].nick, ms);
		return;
	}
	for (k = 1 + ND_BELOW(4); k > 0; k--) {
		int s = ND_BOOL(); char m = um[ND_BELOW(6)];
		if (!len || s != sign) ms[len++] = s ? '+' : '-';
		sign = s; ms[len++] = m; memodes[(int)m] = s;
	}
	ms[len] = 0;
	feed(":%s MODE %s %s%s", P[0].nick, recase(P[0].nick), ND_BOOL() ? ":" : "", ms);
}
static void ev_topic(void)
{
	int c = pick_chan(), p; const char *t = ND_BELOW(3) == 0 ? "a: b " : ND_BOOL() ? "news" : ":)"; const char *n;
	struct mchan *m;
	if (c < 0) return;
	m = &C[c];
	switch (ND_BELOW(6)) {
	case 0: case 1:
		p = pick_member(c);
		n = p >= 0 && ND_BOOL() ? origin_of(p) : "ChanServ!s@services";
		m->hastopic = 1; strcpy(m->topic, t); m->hasby = 1;
		strcpy(m->by, n); if (strchr(m->by, '!')) *strchr(m->by, '!') = 0;
		m->at = time(NULL);
		feed(":%s TOPIC %s :%s", n, recase(m->name), t);
		m->at2 = time(NULL);
		break;
	case 2: m->hastopic = 1; strcpy(m->topic, t); feed(":srv 332 %s %s :%s", P[0].nick, recase(m->name), t); break;
	case 3: m->hasby = 1; strcpy(m->by, nicks[ND_BELOW(NN)]); m->at = m->at2 = 1111111111 + ND_BELOW(99);
		feed(":srv 333 %s %s %s %ld", P[0].nick, recase(m->name), m->by, m->at); break;
	case 4: m->hastopic = m->hasby = 0; m->at = m->at2 = 0; feed(":srv 331 %s %s :No topic is set", P[0].nick, recase(m->name)); break;
	case 5: m->created = 999999999 + ND_BELOW(99); feed(":srv 329 %s %s %ld", P[0].nick, recase(m->name), m->created); break;
	}
}
static void ev_misc(void)
{
	switch (ND_BELOW(4)) {
	case 0: feed(":srv 305 %s :You are no longer marked as being away", P[0].nick); away = 0; break;
	case 1: feed(":srv 306 %s :You have been marked as being away", P[0].nick); away = 1; break;
	case 2: feed(":srv 332 %s #elsewhere :topic of another channel", P[0].nick); break;
	case 3: feed(":x!y@z TOPIC #elsewhere :t"); break;
	}
}
static void run(int what, int steps, void (**ev)(void), int n)
{
	int k;
	start();
	compare(what);
	for (k = 0; k < steps; k++) { ev[ND_BELOW(n)](); compare(what); }
	finish();
}
VP_HARNESS(state_membership)
{
	static void (*ev[])(void) = { ev_join_me, ev_join, ev_join, ev_join, ev_part, ev_kick, ev_quit, ev_nick, ev_nick, ev_privmsg, ev_names, ev_names, ev_mode };
	run(MEMB, 6 + ND_BELOW(30), ev, 13);
}
VP_HARNESS(state_modes)
{
	static void (*ev[])(void) = { ev_join, ev_join_me, ev_mode, ev_mode, ev_mode, ev_mode, ev_324, ev_umode, ev_list, ev_names, ev_nick, ev_part };
	run(MODES, 6 + ND_BELOW(24), ev, 12);
}
VP_HARNESS(state_info)
{
	static void (*ev[])(void) = { ev_join, ev_join_me, ev_topic, ev_topic, ev_topic, ev_list, ev_list, ev_mode, ev_misc, ev_part, ev_nick };
	run(INFO, 6 + ND_BELOW(24), ev, 11);
}
VP_HARNESS(modes_string)
{
	char s[14]; irc_modes_t m, back; int i, n = ND_STR(s, 12, "+-oivkl"), act = 1; unsigned char want[256] = { 0 }; char *x, *r;
	(void)n;
	x = g_strdup(s);
	vp_note("mode string \"%s\"\n", s);
	memset(m, 0x5a, sizeof m);
	if (s[0] && s[0] != '+' && s[0] != '-') {
		VASSERT(!string2mode(x, m), "a mode string must start with a sign");
	} else {
		VASSERT(string2mode(x, m), "mode string accepted");
		for (i = 0; s[i]; i++) if (s[i] == '+') act = 1; else if (s[i] == '-') act = 0; else want[(unsigned char)s[i]] = act;
		VASSERT(modes_same(m, want), "last setting of each mode wins");
		for (i = 0; i < 256; i++) VASSERT(m[i] == 0 || m[i] == 1, "flags are 0 or 1");
		r = mode2string(m);
		for (n = i = 0; i < 256; i++) n += want[i];
		VASSERT((r == NULL) == (n == 0), "no string exactly when no mode is set");
		if (r) {
			VASSERT((int)strlen(r) == n + 1 && r[0] == '+', "mode string lists every mode once");
			VASSERT(string2mode(r, back) && modes_same(back, want), "mode string round trip");
		}
		g_free(r);
	}
	VASSERT(string2mode(NULL, m), "no mode string"); memset(want, 0, 256); VASSERT(modes_same(m, want), "no modes");
	g_free(x);
}
/* every single mode byte, set and unset: no other flag changes */
VP_HARNESS(modes_change_all)
{
	irc_modes_t m; int i, c = ND_BELOW(256), set = ND_BOOL(), init = ND_BOOL(), r;
	for (i = 0; i < 256; i++) m[i] = init;
	r = modes_change_mode(m, set, (char)c);
	VASSERT(!!r == (init != set), "reports whether the mode changed");
	for (i = 0; i < 256; i++) VASSERT(m[i] == (i == c ? set : init), "exactly this mode is changed");
}
/* anything at all from the server: no crash, structure stays consistent */
static const char *gcmd[] = { "JOIN", "PART", "KICK", "QUIT", "TOPIC", "NICK", "PRIVMSG", "MODE", "001", "004", "005", "221", "302", "324", "329", "332", "333", "331", "353", "366", "367", "368", "346", "347", "348", "349", "352", "315", "306", "305", "433" };
static const char *gtok[] = { "me", "al", "#a", "#b", "#a,#b", "al,me", "", ":", "@", "@+al", "+", "-", "+o", "-o+v", "+bk-l", "+ntkl", "al!u@h", "!", "!@", "al=+u@h", "al*=-u@h", "=", "al=", "CASEMAPPING=ascii", "PREFIX=(ohv)@%+", "PREFIX=", "PREFIX", "CHANMODES=b,k,l,imn", "CHANMODES=b", "CHANTYPES=", "CHANTYPES=#&", "99999999999999999999", "0 real name", ",", ",,", "\xff", "+\xff", "@al +bo me", "=", "NICKLEN=9" };
VP_HARNESS(state_garbage)
{
	int k, i; char b[700];
	S = network_state_init("me", "u", "h");
	for (k = 2 + ND_BELOW(30); k > 0; k--) {
		struct irc_line *l; const char *cmd = gcmd[ND_BELOW(31)]; int n = ND_BELOW(8);
		b[0] = 0;
		if (ND_BELOW(6)) { strcat(b, ":"); strcat(b, ((const char *[]){ "al!u@h", "me!u@h", "al", "srv.example", "me", "!", "@x!y@z", "bo!a", "bo@c" })[ND_BELOW(9)]); strcat(b, " "); }
		strcat(b, cmd);
		for (i = 0; i < n; i++) {
			strcat(b, " ");
			if (ND_BELOW(5) == 0) { char t[9]; ND_STR(t, 8, "@+-#!=ao,:*bkl()\x01"); for (char *q = t; *q; q++) if (*q == '\n' || *q == '\r') *q = 'x'; if (i == n - 1) strcat(b, ":"); strcat(b, t); }
			else { const char *t = gtok[ND_BELOW(40)]; if (i == n - 1) strcat(b, ":"); strcat(b, t); }
		}
		vp_note("%s\n", b);
		l = irc_parse_line(b);
		if (!l) continue;
		state_handle_data(S, l);
		free_line(l);
		invariants(S);
	}
	finish();
}
