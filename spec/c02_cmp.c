/* C02: contracts on the real comparison functions of libirc/util.c and the
 * dispatch in libirc/isupport.c.  Unbounded string lengths. */
#include "vp.h"
#include "internals.h"

unsigned char vp_byte;
size_t LA, LB, K;	/* ghost: the two lengths and one arbitrary position */

#define MAXL 2000000000UL
#define FOLDR(c, el) ((c) >= 65 && (c) <= (el) ? (c) + 32 : (c))

#define STRINGS_OK(a, b) (LA < MAXL && LB < MAXL && __CPROVER_is_fresh(a, LA + 1) && __CPROVER_is_fresh(b, LB + 1) \
	&& (a)[LA] == 0 && (b)[LB] == 0)
/* "a and b, cut at n characters, are the same after folding", without quantifiers:
 * K is an arbitrary position and G the ghost index of the last loop iteration.
 *  (->) zero: the characters at K agree, or K is past the limit, or both strings
 *       ended (NUL) at G+1 before K;
 *  (<-) nonzero: G or G+1 is a position below the limit, not past the end of
 *       either string, where the folded characters differ. */
size_t G;
#define EQAT(a, b, el, k) (FOLDR((a)[k], el) == FOLDR((b)[k], el))
#define DIFFAT(a, b, n, el, k) ((k) < (n) && (k) <= LA && (k) <= LB && !EQAT(a, b, el, k))

#ifdef PROVE_HELPER
static inline int str_cmphelper(const char *a, const char *b, size_t len, char sh, char sl, char eh, char el)
__CPROVER_requires(STRINGS_OK(a, b))
__CPROVER_requires(sl == 65 && sh == 97 && (el == 90 || el == 93 || el == 94) && eh == el + 32)
__CPROVER_requires(G == (size_t)-1)
__CPROVER_assigns(G)
__CPROVER_ensures(__CPROVER_return_value == 0 ==> (K >= len || (K <= LA && K <= LB && EQAT(a, b, el, K)) || (G + 1 < K && a[G + 1] == 0 && b[G + 1] == 0)))
__CPROVER_ensures(__CPROVER_return_value != 0 ==> (DIFFAT(a, b, len, el, G) || DIFFAT(a, b, len, el, G + 1)))
;
#include "libirc/util.c"
void H_helper(void)
{
	char *a, *b; size_t len; char sh, sl, eh, el;
	str_cmphelper(a, b, len, sh, sl, eh, el);
	VREACH("after str_cmphelper");
}
#endif

#ifdef PROVE_WRAPPERS
/* ghost record of the (replaced) helper call: wrappers must pass the whole
 * comparison through with the fold table of their own mapping */
int g_called; const char *g_a, *g_b; size_t g_len; int g_ranges; int g_ret;
static inline int str_cmphelper(const char *a, const char *b, size_t len, char sh, char sl, char eh, char el)
__CPROVER_requires(sl == 65 && sh == 97 && (el == 90 || el == 93 || el == 94) && eh == el + 32)
__CPROVER_assigns(g_called, g_a, g_b, g_len, g_ranges, g_ret)
__CPROVER_ensures(g_called == __CPROVER_old(g_called) + 1 && g_a == a && g_b == b && g_len == len && g_ranges == el && g_ret == __CPROVER_return_value)
;
#define WRAP(f, el_) int f(const char *a, const char *b) \
__CPROVER_requires(a != NULL && b != NULL && g_called == 0) \
__CPROVER_assigns(g_called, g_a, g_b, g_len, g_ranges, g_ret) \
__CPROVER_ensures(g_called == 1 && g_a == a && g_b == b && g_len == (size_t)-1 && g_ranges == el_ && g_ret == __CPROVER_return_value);
#define WRAPN(f, el_) int f(const char *a, const char *b, size_t n) \
__CPROVER_requires(a != NULL && b != NULL && g_called == 0) \
__CPROVER_assigns(g_called, g_a, g_b, g_len, g_ranges, g_ret) \
__CPROVER_ensures(g_called == 1 && g_a == a && g_b == b && g_len == n && g_ranges == el_ && g_ret == __CPROVER_return_value);
WRAP(str_asciicmp, 90)
WRAP(str_strictrfc1459cmp, 93)
WRAP(str_rfc1459cmp, 94)
WRAPN(str_asciincmp, 90)
WRAPN(str_strictrfc1459ncmp, 93)
WRAPN(str_rfc1459ncmp, 94)
#include "libirc/util.c"
void H_wrap(void)
{
	char xa, xb; size_t n; 
	const char *a = &xa, *b = &xb;
	g_called = 0;
	WRAPCALL;
	VREACH("after wrapper");
}
#endif

#ifdef PROVE_DISPATCH
int g_el, g_n, g_ret; const char *g_a, *g_b; size_t g_len;
#define C2(f, el_) int f(const char *a, const char *b) \
__CPROVER_requires(a != NULL && b != NULL) __CPROVER_assigns(g_el, g_n, g_ret, g_a, g_b) \
__CPROVER_ensures(g_el == el_ && g_n == 0 && g_ret == __CPROVER_return_value && g_a == a && g_b == b);
#define C3(f, el_) int f(const char *a, const char *b, size_t n) \
__CPROVER_requires(a != NULL && b != NULL) __CPROVER_assigns(g_el, g_n, g_ret, g_a, g_b, g_len) \
__CPROVER_ensures(g_el == el_ && g_n == 1 && g_ret == __CPROVER_return_value && g_a == a && g_b == b && g_len == n);
C2(str_asciicmp, 90)
C2(str_strictrfc1459cmp, 93)
C2(str_rfc1459cmp, 94)
C3(str_asciincmp, 90)
C3(str_strictrfc1459ncmp, 93)
C3(str_rfc1459ncmp, 94)
#define WANT(n) ((n) == NULL ? 94 : (n)->casemapping == CASEMAP_ASCII ? 90 : (n)->casemapping == CASEMAP_STRICT_RFC1459 ? 93 : 94)
int irccmp(const struct irc_network_info *n, const char *a, const char *b)
__CPROVER_requires(n == NULL || __CPROVER_is_fresh(n, sizeof(*n)))
__CPROVER_requires(a != NULL && b != NULL)
__CPROVER_assigns(g_el, g_n, g_ret, g_a, g_b)
__CPROVER_ensures(g_el == WANT(n) && g_n == 0 && g_a == a && g_b == b && g_ret == __CPROVER_return_value);
int ircncmp(const struct irc_network_info *n, const char *a, const char *b, size_t len)
__CPROVER_requires(n == NULL || __CPROVER_is_fresh(n, sizeof(*n)))
__CPROVER_requires(a != NULL && b != NULL)
__CPROVER_assigns(g_el, g_n, g_ret, g_a, g_b, g_len)
__CPROVER_ensures(g_el == WANT(n) && g_n == 1 && g_a == a && g_b == b && g_len == len && g_ret == __CPROVER_return_value);
#include "libirc/isupport.c"
void H_irccmp(void)
{
	struct irc_network_info *n; char xa, xb;
	irccmp(n, &xa, &xb);
	VREACH("after irccmp");
}
void H_ircncmp(void)
{
	struct irc_network_info *n; char xa, xb; size_t len;
	ircncmp(n, &xa, &xb, len);
	VREACH("after ircncmp");
}
#endif
