#include "vp.h"
#include "internals.h"
#include "isupport.h"
/* reference: fold table */
static int fold(int c, int el) { return c >= 65 && c <= el ? c + 32 : c; }
static int same(const char *a, const char *b, size_t n, int el)
{
	size_t i;
	for (i = 0; i < n; i++) {
		if (fold((unsigned char)a[i], el) != fold((unsigned char)b[i], el)) return 0;
		if (!a[i]) return 1;
	}
	return 1;
}
static void check(const char *a, const char *b, size_t n)
{
	static const int els[] = { 94, 94, 90, 93 };
	int m;
	VASSERT(!!str_asciicmp(a, b) == !same(a, b, -1, 90), "ascii comparison");
	VASSERT(!!str_strictrfc1459cmp(a, b) == !same(a, b, -1, 93), "strict-rfc1459 comparison");
	VASSERT(!!str_rfc1459cmp(a, b) == !same(a, b, -1, 94), "rfc1459 comparison");
	VASSERT(!!str_asciincmp(a, b, n) == !same(a, b, n, 90), "ascii prefix comparison");
	VASSERT(!!str_strictrfc1459ncmp(a, b, n) == !same(a, b, n, 93), "strict-rfc1459 prefix comparison");
	VASSERT(!!str_rfc1459ncmp(a, b, n) == !same(a, b, n, 94), "rfc1459 prefix comparison");
	VASSERT(!!irccmp(NULL, a, b) == !same(a, b, -1, 94), "default mapping comparison");
	VASSERT(!!ircncmp(NULL, a, b, n) == !same(a, b, n, 94), "default mapping prefix comparison");
	for (m = 0; m < 4; m++) {
		struct irc_network_info *i = network_info_init();
		const char *tok[] = { "CASEMAPPING=foo", "CASEMAPPING=rfc1459", "CASEMAPPING=ascii", "CASEMAPPING=strict-rfc1459" };
		network_info_parse(i, tok[m]);
		VASSERT(!!irccmp(i, a, b) == !same(a, b, -1, els[m]), "network mapping comparison");
		VASSERT(!!ircncmp(i, a, b, n) == !same(a, b, n, els[m]), "network mapping prefix comparison");
		free_network_info(i);
	}
}
/* exact-size heap copies so that any over-read is seen by ASan */
static char *ex(const char *s, unsigned n) { char *r = g_malloc(n + 1); memcpy(r, s, n); r[n] = 0; return r; }
VP_HARNESS(cmp_all_pairs)
{
	char a[2] = { 0, 0 }, b[2] = { 0, 0 };
	a[0] = (char)ND_BELOW(256); b[0] = (char)ND_BELOW(256);
	check(a, b, 1);
}
VP_HARNESS(cmp_strings)
{
	char a[5], b[5]; unsigned la, lb, n; char *xa, *xb;
	const char *al = "aA[{^";
	la = ND_STR(a, 3, al); lb = ND_STR(b, 3, al); n = ND_BELOW(5);
	xa = ex(a, la); xb = ex(b, lb);
	vp_note("a=\"%s\" b=\"%s\" n=%u\n", a, b, n);
	check(xa, xb, n);
	g_free(xa); g_free(xb);
}
VP_HARNESS(cmp_random)
{
	char a[40], b[40]; unsigned la, lb, n, i; char *xa, *xb;
	la = ND_STR(a, 38, "abzAZ[]{}^~|\\`@");
	lb = la; memcpy(b, a, 40);
	for (i = ND_BELOW(4); i > 0 && la; i--) {	/* near-equal pairs */
		unsigned p = ND_BELOW(la);
		char c = ND_BOOL() ? b[p] ^ 32 : ND_CHR("aA[]{}^~");
		if (c) b[p] = c;
	}
	if (ND_BELOW(8) == 0) lb = ND_BELOW(la + 1);
	b[lb] = 0;
	n = ND_BELOW(40);
	xa = ex(a, la); xb = ex(b, lb);
	vp_note("a=\"%s\" b=\"%s\" n=%u\n", xa, xb, n);
	check(xa, xb, n);
	g_free(xa); g_free(xb);
}
