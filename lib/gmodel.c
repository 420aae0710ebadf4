/* Models of the glib/libc functions the verified code calls (trusted base). */
#include <glib.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#undef g_strdup
gpointer g_malloc(gsize n) { void *p; if (n == 0) return NULL; p = malloc(n); __CPROVER_assume(p != NULL); return p; }
gpointer g_malloc0(gsize n) { void *p; if (n == 0) return NULL; p = calloc(1, n); __CPROVER_assume(p != NULL); return p; }
gpointer g_malloc_n(gsize a, gsize b) { return g_malloc(a * b); }
gpointer g_malloc0_n(gsize a, gsize b) { return g_malloc0(a * b); }
gpointer g_realloc(gpointer m, gsize n) { void *p; if (n == 0) { free(m); return NULL; } p = realloc(m, n); __CPROVER_assume(p != NULL); return p; }
void g_free(gpointer p) { free(p); }
void g_assertion_message_expr(const char *d, const char *f, int l, const char *fn, const char *e)
{
	__CPROVER_assert(0, "VP g_assert() in the code can fail");
	__CPROVER_assume(0);
}
