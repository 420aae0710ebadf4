/* vp.h - one harness, two readings.
 *
 * CBMC (VP_CBMC defined): ND()/ND_BELOW()/ND_CHR() are symbolic and
 * VASSERT/VASSUME are verification conditions.
 * Native (gcc + ASan/UBSan + the real glib, real /repo objects): the choices
 * come from a recorded sequence (replay), from an exhaustive depth-first
 * enumeration of the choice tree, or from a seeded pseudo-random source.
 */
#ifndef VP_H
#define VP_H
#include <stddef.h>
#include <stdint.h>

#ifdef VP_CBMC
unsigned char nondet_uchar(void);
extern unsigned char vp_byte;		/* assignments to it are read back from the trace */
static inline unsigned char ND(void)
{
	vp_byte = nondet_uchar();
	return vp_byte;
}
#define VASSUME(c) __CPROVER_assume(c)
#define VASSERT(c, msg) __CPROVER_assert(c, "VP " msg)
#ifdef VP_REACHCHECK
#define VREACH(msg) __CPROVER_assert(0, "VPREACH " msg)
#else
#define VREACH(msg) ((void)0)
#endif
static inline unsigned ND_BELOW(unsigned n)
{
	unsigned char b = ND();
	VASSUME(b < n);
	return b;
}
static inline char ND_CHR(const char *alphabet)
{
	(void)alphabet;
	return (char)ND();
}
#define VP_HARNESS(fn) void fn(void)
#else
unsigned vp_choose(unsigned n);
char vp_choose_chr(const char *alphabet);
void vp_assume_fail(void) __attribute__((noreturn));
void vp_fail(const char *msg, const char *file, int line) __attribute__((noreturn));
void vp_note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void vp_register(const char *name, void (*fn)(void));
#define VASSUME(c) do { if (!(c)) vp_assume_fail(); } while (0)
#define VASSERT(c, msg) do { if (!(c)) vp_fail(msg, __FILE__, __LINE__); } while (0)
#define VREACH(msg) ((void)0)
#define ND() ((unsigned char)vp_choose(256))
#define ND_BELOW(n) vp_choose(n)
#define ND_CHR(alphabet) vp_choose_chr(alphabet)
#define VP_HARNESS(fn) \
	static void fn(void); \
	static void __attribute__((constructor)) vp_reg_##fn(void) { vp_register(#fn, fn); } \
	static void fn(void)
#endif

static inline int ND_BOOL(void) { return ND_BELOW(2); }

/* NUL-terminated string of length <= max (buf has max+1 bytes), no inner NUL */
static inline unsigned ND_STR(char *buf, unsigned max, const char *alphabet)
{
	unsigned i, n = ND_BELOW(max + 1);
	for (i = 0; i < max; i++) {
		buf[i] = 0;
		if (i < n) {
			buf[i] = ND_CHR(alphabet);
			VASSUME(buf[i] != 0);
		}
	}
	buf[max] = 0;
	return n;
}
#endif
