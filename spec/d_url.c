/* C03: URLs of servers, parsed and made, against an independent reading. */
#include "vp.h"
#include "internals.h"
#include "irc.h"
static void check(const char *u)
{
	char *s = (char *)1, *p = (char *)1; gboolean ssl = 7, r; size_t hl, pl = 0, k, off; int isssl = 0, hasport = 0;
	char *cp = g_strdup(u);
	vp_note("url \"%s\"\n", u);
	r = irc_parse_url(cp, &s, &p, &ssl);
	VASSERT(!strcmp(cp, u), "the text is not changed");
	if (!strncmp(u, "irc://", 6)) off = 6; else if (!strncmp(u, "ircs://", 7)) { off = 7; isssl = 1; }
	else { for (k = 0; u[k]; k++) if (u[k] == ':' && u[k + 1] == '/' && u[k + 2] == '/') { VASSERT(!r && !s && !p && !ssl, "unknown scheme refused"); g_free(cp); return; } off = 0; }
	VASSERT(r, "accepted"); VASSERT(!ssl == !isssl, "ssl as the scheme says");
	for (hl = 0; u[off + hl] && u[off + hl] != ':' && u[off + hl] != '/'; hl++) ;
	if (u[off + hl] == ':') { hasport = 1; for (pl = 0; u[off + hl + 1 + pl] && u[off + hl + 1 + pl] != '/'; pl++) ; }
	VASSERT(strlen(s) == hl && !strncmp(s, u + off, hl), "server");
	if (hasport) VASSERT(strlen(p) == pl && !strncmp(p, u + off + hl + 1, pl), "port");
	else VASSERT(!strcmp(p, isssl ? "994" : "6667"), "usual port");
	g_free(s); g_free(p); g_free(cp);
}
VP_HARNESS(url_parse)
{
	static const char *pre[] = { "", "irc://", "ircs://", "http://", "irc:/", "IRC://", "ircs:", "irc" }; char b[32], t[8];
	strcpy(b, pre[ND_BELOW(8)]); ND_STR(t, 5, "a:/s"); strcat(b, t); check(b);
}
VP_HARNESS(url_random)
{
	static const char *pre[] = { "", "irc://", "ircs://", "http://" }; char b[100], t[61];
	strcpy(b, pre[ND_BELOW(4)]); ND_STR(t, 60, "abc.-:/0123[]"); strcat(b, t); check(b);
}
static int stdp(const char *p, int ssl) { return ssl ? !strcmp(p, "ircs") || !strcmp(p, "994") : !strcmp(p, "ircd") || !strcmp(p, "6667"); }
VP_HARNESS(url_roundtrip)
{
	static const char *ports[] = { "6667", "994", "ircd", "ircs", "6668", "66670", "99", "9940", "0", "irc" }; char h[20], pb[8], *u, *s, *p; gboolean ssl = ND_BOOL(), s2; int k = ND_BELOW(11);
	ND_STR(h, 8, "abc.-_0123"); ND_STR(pb, 5, "0123456789a");
	VASSUME(h[0] && !strpbrk(h, ":/") && (k < 10 || (pb[0] && !strchr(pb, '/')))); if (k < 10) strcpy(pb, ports[k]);
	u = irc_create_url(h, pb, ssl); vp_note("host \"%s\" port \"%s\" ssl %d -> \"%s\"\n", h, pb, ssl, u);
	VASSERT(!strncmp(u, ssl ? "ircs://" : "irc://", ssl ? 7 : 6), "scheme");
	VASSERT(irc_parse_url(u, &s, &p, &s2), "a URL made can be read");
	VASSERT(!strcmp(s, h), "same server"); VASSERT(!s2 == !ssl, "same ssl setting");
	VASSERT(!strcmp(p, pb) || (stdp(pb, ssl) && stdp(p, ssl)), "same port");
	g_free(u); g_free(s); g_free(p);
}
