/* C01: the line codec of libirc/line.c against an independent reference parser */
#include "vp.h"
#include "internals.h"
#include "irc.h"
#define LM 64
struct ref { int ok; char origin[LM * 8]; int has; int n; char arg[LM][LM * 8]; };
static void ref_parse(const char *s, struct ref *r)
{
	const char *e;
	memset(r, 0, sizeof *r);
	if (*s == ':') {
		e = strchr(s, ' ');
		if (!e) return;
		r->has = 1; memcpy(r->origin, s + 1, e - s - 1);
		for (s = e; *s == ' '; s++);
	}
	r->ok = 1;
	for (;;) {
		const char *stop = (r->n > 0 && *s == ':') ? "\r\n" : " \r\n";
		if (r->n > 0 && *s == ':') s++;
		VASSUME(r->n < LM);
		e = s + strcspn(s, stop);
		memcpy(r->arg[r->n], s, e - s); r->n++;
		if (*e != ' ') return;
		s = e + 1;
	}
}
static char *ex(const char *s) { size_t n = strlen(s); char *r = g_malloc(n + 1); memcpy(r, s, n + 1); return r; }
static void same(const struct irc_line *l, const struct irc_line *m)
{
	size_t i;
	VASSERT((l->origin == NULL) == (m->origin == NULL) && (!l->origin || !strcmp(l->origin, m->origin)), "same origin");
	VASSERT(l->argc == m->argc, "same number of arguments");
	for (i = 0; i < l->argc; i++) VASSERT(!strcmp(l->args[i], m->args[i]), "same argument");
	VASSERT(l->args[l->argc] == NULL && m->args[m->argc] == NULL, "argument list is terminated");
}
static void roundtrip(const struct irc_line *l)
{
	char *s = irc_line_string(l), *nl = irc_line_string_nl(l); struct irc_line *m, *d; char *t;
	VASSERT(strlen(nl) == strlen(s) + 2 && !strncmp(nl, s, strlen(s)) && !strcmp(nl + strlen(s), "\r\n"), "line ends in CRLF");
	VASSERT(strpbrk(s, "\r\n") == NULL, "one line only");
	m = irc_parse_line(nl);
	VASSERT(m != NULL, "rendered line parses"); same(l, m);
	t = irc_line_string(m); VASSERT(!strcmp(s, t), "rendering is stable");
	d = linedup(l); same(l, d); VASSERT(irc_line_cmp(l, d) == 0 && irc_line_cmp(l, m) == 0, "a copy compares equal");
	g_free(t); t = irc_line_string(d); VASSERT(!strcmp(s, t), "a copy renders the same");
	free_line(m); free_line(d); g_free(s); g_free(nl); g_free(t);
}
static void check_parse(const char *raw)
{
	static struct ref r; char *s = ex(raw), *b = ex(raw); struct irc_line *l; int i;
	ref_parse(s, &r);
	l = irc_parse_line(s);
	VASSERT(!strcmp(s, b), "input is left alone");
	VASSERT((l != NULL) == r.ok, "only an origin without a command is refused");
	if (l) {
		VASSERT((l->origin != NULL) == r.has && (!l->origin || !strcmp(l->origin, r.origin)), "origin");
		VASSERT(l->argc == (size_t)r.n, "number of arguments");
		for (i = 0; i < r.n; i++) VASSERT(!strcmp(l->args[i], r.arg[i]), "argument");
		VASSERT(l->args[r.n] == NULL, "terminated");
		if (!l->origin || !strpbrk(l->origin, "\r\n")) roundtrip(l);
		if (l->origin) { char *n = line_get_nick(l); VASSERT(strlen(n) == strcspn(l->origin, "!") && !strncmp(n, l->origin, strlen(n)), "nick of the origin"); g_free(n); }
		free_line(l);
	}
	g_free(s); g_free(b);
}
VP_HARNESS(line_short)
{
	char s[8]; ND_STR(s, 6, ": a\r\n");
	check_parse(s);
}
VP_HARNESS(line_random)
{
	char s[61]; ND_STR(s, 60, "::    aAb!@#,\r\n\001\"+-");
	vp_note("line \"%s\"\n", s);
	check_parse(s);
}
/* lines built from arguments */
static const char *cmds[] = { "PRIVMSG", "NOTICE", "MODE", "NICK", "JOIN", "PART", "TOPIC", "KICK", "QUIT", "324", "332", "333", "341", "367", "353", "001", "004", "221", "329", "219", "mode", "x" };
static struct irc_line *mk(void)
{
	char b[8][24]; const char *o = ND_BOOL() ? "nick!u@h" : NULL; int n = ND_BELOW(7), i; struct irc_line *l; static char *none;
	for (i = 0; i < n; i++) {
		do { ND_STR(b[i], 6, i == n - 1 ? "a b:+#" : "ab+#c"); } while (0);
		if (i < n - 1) { VASSUME(b[i][0] != ':' && !strpbrk(b[i], " ")); }
		VASSUME(!strpbrk(b[i], "\r\n"));
	}
	/* without a colon, the last argument must not start with one or be empty */
	l = irc_parse_line_args(o, cmds[ND_BELOW(22)], n > 0 ? b[0] : NULL, n > 1 ? b[1] : NULL, n > 2 ? b[2] : NULL, n > 3 ? b[3] : NULL, n > 4 ? b[4] : NULL, n > 5 ? b[5] : NULL, NULL);
	(void)none;
	return l;
}
VP_HARNESS(line_args)
{
	struct irc_line *l = mk(); const char *last = l->args[l->argc - 1];
	if (last[0] == ':') {
		/* a leading colon survives only where the command has a trailing argument */
		char *s = irc_line_string(l); size_t k = strlen(s), n = strlen(last);
		if (l->argc > 1 && !(k > n + 1 && s[k - n - 1] == ':')) { g_free(s); free_line(l); return; }
		g_free(s);
	}
	roundtrip(l);
	free_line(l);
}
VP_HARNESS(line_response)
{
	struct irc_line *l; 
	/* numeric replies keep their target and arguments */
	extern struct irc_line *vp_resp(const char *, const char *, int, ...);
	char a[16], b[16]; int num = 1 + ND_BELOW(999); char nb[8];
	ND_STR(a, 8, "abc#"); ND_STR(b, 12, "ab c:"); VASSUME(a[0] && a[0] != ':' && !strpbrk(a, " \r\n") && !strpbrk(b, "\r\n") && b[0] != ':');
	l = vp_resp("srv", "me", num, a, b, NULL);
	sprintf(nb, "%03d", num);
	VASSERT(l->argc == 4 && !strcmp(l->args[0], nb) && !strcmp(l->args[1], "me") && !strcmp(l->args[2], a) && !strcmp(l->args[3], b) && !l->args[4], "reply arguments");
	roundtrip(l); free_line(l);
}
struct irc_line *vp_resp(const char *f, const char *t, int n, ...)
{
	va_list ap; struct irc_line *l; va_start(ap, n); l = virc_parse_response(f, t, n, ap); va_end(ap); return l;
}
/* adding arguments never makes an overlong line, and never loses what was there */
VP_HARNESS(line_grow)
{
	char o[130], a[520], big[600]; struct irc_line *l, *m; int k, n; size_t used;
	ND_STR(o, 120, "n!u@h"); VASSUME(!strpbrk(o, " \r\n"));
	n = ND_BELOW(300); memset(big, 'x', n); big[n] = 0;
	l = irc_parse_line_args(ND_BOOL() ? o : NULL, "353", "me", "=", big, NULL);
	for (k = ND_BELOW(60); k > 0; k--) {
		char *s; size_t before = l->argc; int ok;
		ND_STR(a, 30, "abcd"); VASSUME(!strpbrk(a, " \r\n:"));
		m = linedup(l);
		ok = line_add_arg(l, a);
		s = irc_line_string_nl(l); used = strlen(s); g_free(s);
		if (ok) {
			VASSERT(l->argc == before + 1 && !strcmp(l->args[before], a) && l->args[before + 1] == NULL, "argument was added");
			VASSERT(used <= 512, "line with its origin stays within 512 bytes");
			free_line(m);
		} else { same(l, m); VASSERT(used + strlen(a) + 8 > 512, "only refused when it does not fit"); free_line(m); }
	}
	free_line(l);
}
VP_HARNESS(line_time)
{
	char t[30]; struct irc_line *l; char *s; int how = ND_BELOW(3); char want[200], b[100];
	ND_STR(t, 12, "ab c\001"); VASSUME(!strpbrk(t, "\r\n"));
	if (how == 2) VASSUME(strchr(t, ' ') == NULL && t[0] && t[0] != ':');
	sprintf(b, how == 0 ? ":me!u@h PRIVMSG #c :%s" : how == 1 ? ":me!u@h NOTICE #c :\001ACTION %s\001" : ":me!u@h PRIVMSG #c %s", t);
	l = irc_parse_line(b);
	if (line_prefix_time(l, 3661)) {
		struct irc_line *m; s = irc_line_string_nl(l); m = irc_parse_line(s);
		if (how == 1) sprintf(want, "\001ACTION [01:01:01] %s\001", t); else if (t[0] != '\001') sprintf(want, "[01:01:01] %s", t); else want[0] = 0;
		if (want[0]) VASSERT(m->argc == 3 && !strcmp(m->args[2], want), "timestamp is put before the text");
		g_free(s); free_line(m);
	} else VASSERT(t[0] == '\001' && how != 1, "only CTCP messages other than actions are left alone");
	free_line(l);
}
/* sending through and receiving from a channel */
#include <unistd.h>
VP_HARNESS(line_io)
{
	int p[2]; GIOChannel *in, *out; struct irc_line *q[12], *m; int n = 1 + ND_BELOW(10), i, k = 0; GIOStatus st;
	if (pipe(p) != 0) return;
	in = g_io_channel_unix_new(p[0]); out = g_io_channel_unix_new(p[1]);
	g_io_channel_set_encoding(in, NULL, NULL); g_io_channel_set_encoding(out, NULL, NULL);
	g_io_channel_set_close_on_unref(in, TRUE); g_io_channel_set_close_on_unref(out, TRUE);
	for (i = 0; i < n; i++) {
		struct irc_line *l = mk(); const char *last = l->args[l->argc - 1]; char *s = irc_line_string(l);
		m = irc_parse_line(s); g_free(s);
		VASSUME(m->argc == l->argc && !strcmp(m->args[m->argc - 1], last)); free_line(m);
		VASSUME(strlen(last) == strcspn(last, "\r\n"));
		VASSERT(irc_send_line(out, (GIConv)-1, l, NULL) == G_IO_STATUS_NORMAL, "line is sent");
		q[k++] = l;
	}
	g_io_channel_flush(out, NULL); g_io_channel_unref(out);
	for (i = 0; i < k; i++) {
		st = irc_recv_line(in, (GIConv)-1, NULL, &m);
		VASSERT(st == G_IO_STATUS_NORMAL && m != NULL, "line is received");
		same(q[i], m); free_line(m); free_line(q[i]);
	}
	VASSERT(irc_recv_line(in, (GIConv)-1, NULL, &m) == G_IO_STATUS_EOF && m == NULL, "nothing else arrives");
	g_io_channel_unref(in);
}
