/* C03: libirc/url.c under contract, for URLs of any length (MAXU in the model).
 * The string functions are stood for by their contracts; what is asserted is
 * which part of the text becomes the server and which the port. */
#include "vp.h"
#include "internals.h"
#include "irc.h"
unsigned char vp_byte;
#define MAXU 4000
static char U[MAXU]; size_t NU; size_t Pc, Ps; int Hc, Hs, Hscheme; int Gn;
static char OUT[4]; const char *Ds[4]; size_t Dn[4]; int Dd[4];
#undef g_strdup
#undef strchr
#undef strstr
#undef strncmp
#undef strcmp
static size_t base;
static int pre(const char *lit) { size_t i; for (i = 0; i < 9; i++) { if (!lit[i]) return 1; if (U[i] != lit[i]) return 0; } return 1; }
size_t vp_strlen(const char *s) { size_t i; for (i = 0; i < 9; i++) if (!s[i]) return i; __CPROVER_assert(0, "VP measures a literal"); return i; }
int vp_strncmp(const char *a, const char *b, size_t n) { size_t i; __CPROVER_assert(n < 9 && a == U, "VP compares the scheme"); for (i = 0; i < 9 && i < n; i++) { if (a[i] != b[i]) return 1; if (!a[i]) return 0; } return 0; }
char *vp_strstr(const char *a, const char *b) { __CPROVER_assert(a == U && b[0] == ':' && b[1] == '/' && b[2] == '/' && !b[3], "VP looks for another scheme"); return Hscheme ? U : NULL; }
char *vp_strchr(const char *s, int c) { __CPROVER_assert(s == U + base && (c == ':' || c == '/'), "VP looks behind the scheme"); return c == ':' ? Hc ? U + Pc : NULL : Hs ? U + Ps : NULL; }
char *vp_strdup(const char *s) { __CPROVER_assert(Gn < 4 && s != NULL, "VP copies a string"); Ds[Gn] = s; Dd[Gn] = 1; return OUT + Gn++; }
char *vp_strndup(const char *s, size_t n) { __CPROVER_assert(Gn < 4 && s != NULL, "VP copies a string"); Ds[Gn] = s; Dn[Gn] = n; Dd[Gn] = 2; return OUT + Gn++; }
#define g_strdup vp_strdup
#define g_strndup vp_strndup
#define strchr vp_strchr
#define strstr vp_strstr
#define strncmp vp_strncmp
#define strlen vp_strlen

#ifdef P_CREATE
static char SV[4], PT[8]; int Gp; const char *Gf, *Ga, *Gb, *Gc;
int vp_strcmp(const char *a, const char *b) { size_t i; for (i = 0; i < 8; i++) { if (a[i] != b[i]) return 1; if (!a[i]) return 0; } return 0; }
#define strcmp vp_strcmp
char *vp_printf(const char *f, const char *a, const char *b, const char *c) { __CPROVER_assert(!Gp, "VP one string"); Gp = 1; Gf = f; Ga = a; Gb = b; Gc = c; return OUT; }
#define VP4(f, a, b, c, ...) vp_printf(f, a, b, c)
#define g_strdup_printf(...) VP4(__VA_ARGS__, NULL, NULL, NULL)
#include "libirc/url.c"
#undef strcmp
static int is(const char *a, const char *b) { return !vp_strcmp(a, b); }
/* the text a format of literals and %s gives, as the sequence of its pieces */
static int lit(const char *f, const char *w) { size_t i; for (i = 0; i < 16; i++) { if (f[i] != w[i]) return 0; if (!w[i]) return 1; } return 0; }
void H(void)
{
	_Bool s; int ssl = s ? 1 : 0, std; Gp = 0; __CPROVER_havoc_object(PT); PT[7] = 0;
	char *r = irc_create_url(SV, PT, ssl);
	std = ssl ? is(PT, "ircs") || is(PT, "994") : is(PT, "ircd") || is(PT, "6667");
	__CPROVER_assert(r == OUT && Gp, "VP result");
	if (lit(Gf, "%s://%s:%s")) __CPROVER_assert(is(Ga, ssl ? "ircs" : "irc") && Gb == SV && Gc == PT, "VP scheme, server and port");
	else if (lit(Gf, "ircs://%s")) __CPROVER_assert(ssl && std && Ga == SV, "VP the port is left out when it is the usual one");
	else if (lit(Gf, "irc://%s")) __CPROVER_assert(!ssl && std && Ga == SV, "VP the port is left out when it is the usual one");
	else if (lit(Gf, "ircs://%s:%s")) __CPROVER_assert(ssl && Ga == SV && Gb == PT, "VP scheme, server and port");
	else if (lit(Gf, "irc://%s:%s")) __CPROVER_assert(!ssl && Ga == SV && Gb == PT, "VP scheme, server and port");
	else if (lit(Gf, "%s://%s")) __CPROVER_assert(std && is(Ga, ssl ? "ircs" : "irc") && Gb == SV, "VP the port is left out when it is the usual one");
	else __CPROVER_assert(0, "VP a URL");
	VREACH("irc_create_url");
}
#endif
#ifdef P_PARSE
#include "libirc/url.c"
static int lits(const char *s, const char *w) { size_t i; for (i = 0; i < 6; i++) { if (s[i] != w[i]) return 0; if (!w[i]) return 1; } return 0; }
/* the copy holds exactly U[a..b) */
static int part(int k, size_t a, size_t b) { return k >= 0 && k < Gn && Ds[k] == U + a && (Dd[k] == 2 ? Dn[k] == b - a : b == NU); }
void H(void)
{
	size_t n, pc, ps; _Bool hc, hs, sch; int ssl, want, other; char *sv, *pt; gboolean r, x;
	__CPROVER_havoc_object(U); NU = n; __CPROVER_assume(NU < MAXU - 10 && U[NU] == 0); Gn = 0;
	__CPROVER_assume(NU >= 9 || 1);
	Hc = hc ? 1 : 0; Hs = hs ? 1 : 0; Hscheme = sch ? 1 : 0; Pc = pc; Ps = ps;
	if (NU < 9) { size_t i; for (i = 0; i < 9; i++) if (i > NU) U[i] = 0; }
	want = pre("ircs://"); other = !want && !pre("irc://");
	base = want ? 7 : other ? 0 : 6;
	__CPROVER_assume(NU >= base);	/* the scheme holds no NUL */
	/* first ':' and first '/' behind the scheme */
	if (Hc) __CPROVER_assume(Pc >= base && Pc < NU && U[Pc] == ':');
	if (Hs) __CPROVER_assume(Ps >= base && Ps < NU && U[Ps] == '/');
	sv = pt = OUT; ssl = 7;
	r = irc_parse_url(U, &sv, &pt, &ssl);
	if (other && Hscheme) __CPROVER_assert(!r && sv == NULL && pt == NULL && !ssl, "VP an unknown scheme is refused");
	else {
		int k = sv - OUT, p = pt - OUT, hasport = Hc && (!Hs || Pc < Ps);
		__CPROVER_assert(r && !ssl == !want, "VP ssl as the scheme says");
		__CPROVER_assert(sv >= OUT && sv < OUT + 4 && pt >= OUT && pt < OUT + 4 && sv != pt && Gn == 2, "VP two fresh strings");
		__CPROVER_assert(part(k, base, hasport ? Pc : Hs ? Ps : NU), "VP the server ends at the first colon or slash");
		if (hasport) __CPROVER_assert(part(p, Pc + 1, Hs ? Ps : NU), "VP the port ends where the path begins");
		else __CPROVER_assert(lits(Ds[p], want ? "994" : "6667"), "VP the usual port when none is given");
	}
	VREACH("irc_parse_url");
}
#endif
