/* Native driver runtime: replay / exhaustive / random exploration of harnesses
 * linked against the real objects built from /repo. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <stdint.h>
#include <setjmp.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <glib.h>
#include "vp.h"

void __attribute__((weak)) register_hup_handler(void *fn, void *ud) { (void)fn; (void)ud; }
#define MAXCH 65536
#define MAXNOTE 65536
struct shared {
	unsigned n;
	unsigned val[MAXCH];
	unsigned ar[MAXCH];
	char msg[1024];
	unsigned long long runs, skipped, distinct;
	int exhausted, failed;
	unsigned notelen;
	char note[MAXNOTE];
};
static struct shared *S;
static struct { const char *name; void (*fn)(void); } H[64];
static int nH;
void vp_register(const char *name, void (*fn)(void)) { H[nH].name = name; H[nH++].fn = fn; }

enum { M_REPLAY, M_EXH, M_RAND } mode;
static unsigned plan[MAXCH], planlen;	/* prefix for exhaustive / full for replay */
static int raw_chr;
static uint64_t rng;
static jmp_buf jb;
static uint64_t rnd(void)
{
	rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
	return rng * 0x2545F4914F6CDD1DULL >> 11;
}
static unsigned choose(unsigned n, int kind)
{
	unsigned v;
	(void)kind;
	if (n == 0) n = 1;
	if (S->n >= MAXCH) vp_assume_fail();
	switch (mode) {
	case M_REPLAY: v = S->n < planlen ? plan[S->n] % n : 0; break;
	case M_EXH: v = S->n < planlen ? plan[S->n] : 0; break;
	default: v = rnd() % n; break;
	}
	S->val[S->n] = v; S->ar[S->n] = n; S->n++;
	return v;
}
unsigned vp_choose(unsigned n) { return choose(n, 0); }
char vp_choose_chr(const char *a)
{
	unsigned n = strlen(a);
	if (raw_chr) return (char)choose(256, 1);
	if (mode == M_RAND || mode == M_REPLAY) {
		/* arity n+255: mostly the alphabet, sometimes any byte */
		unsigned w = n * 16 + 255, v;
		v = choose(w, 1);
		if (v < n * 16) return a[v % n];
		return (char)(v - n * 16 + 1);
	}
	return a[choose(n, 1)];
}
void vp_assume_fail(void) { longjmp(jb, 1); }
void vp_note(const char *fmt, ...)
{
	va_list ap; int k;
	if (mode != M_REPLAY) return;
	va_start(ap, fmt);
	k = vsnprintf(S->note + S->notelen, MAXNOTE - S->notelen, fmt, ap);
	va_end(ap);
	if (k > 0) S->notelen += k;
	if (S->notelen > MAXNOTE - 2) S->notelen = MAXNOTE - 2;
}
void vp_fail(const char *msg, const char *file, int line)
{
	const char *b = strrchr(file, '/');
	snprintf(S->msg, sizeof(S->msg), "%s (%s:%d)", msg, b ? b + 1 : file, line);
	S->failed = 1;
	_exit(77);
}
static void quiet(const gchar *d, GLogLevelFlags l, const gchar *m, gpointer u) { (void)d; (void)m; (void)u; if (l & G_LOG_FLAG_FATAL) abort(); }

static void one(void (*fn)(void))
{
	S->n = 0;
	if (setjmp(jb) == 0) fn(); else S->skipped++;
	S->runs++;
}
#define HS (1u << 22)
static uint64_t *seen;
static void count_distinct(void)
{
	uint64_t h = 1469598103934665603ULL; unsigned i;
	for (i = 0; i < S->n; i++) { h ^= S->val[i] + 1; h *= 1099511628211ULL; h ^= h >> 29; }
	if (!h) h = 1;
	for (i = h % HS; ; i = (i + 1) % HS) {
		if (seen[i] == h) return;
		if (!seen[i]) { if (S->distinct < HS * 3 / 4) { seen[i] = h; S->distinct++; } return; }
	}
}
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

int main(int argc, char **argv)
{
	const char *hn = NULL, *replay = NULL; double limit = 5; uint64_t seed = 1; unsigned long long maxruns = ~0ULL;
	int i, exh = 0, status; pid_t pid; void (*fn)(void) = NULL;
	for (i = 1; i < argc; i++) {
		if (!strcmp(argv[i], "--list")) { for (i = 0; i < nH; i++) puts(H[i].name); return 0; }
		else if (!strcmp(argv[i], "--harness")) hn = argv[++i];
		else if (!strcmp(argv[i], "--replay")) replay = argv[++i];
		else if (!strcmp(argv[i], "--raw")) raw_chr = 1;
		else if (!strcmp(argv[i], "--exhaustive")) exh = 1;
		else if (!strcmp(argv[i], "--time")) limit = atof(argv[++i]);
		else if (!strcmp(argv[i], "--runs")) maxruns = strtoull(argv[++i], 0, 10);
		else if (!strcmp(argv[i], "--seed")) seed = strtoull(argv[++i], 0, 10);
	}
	for (i = 0; i < nH; i++) if (hn && !strcmp(H[i].name, hn)) fn = H[i].fn;
	if (!fn) { fprintf(stderr, "no such harness\n"); return 2; }
	S = mmap(NULL, sizeof(*S), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (replay) {
		FILE *f = fopen(replay, "r"); char line[1 << 20]; 
		if (!f) { perror(replay); return 2; }
		while (fgets(line, sizeof line, f)) if (!strncmp(line, "choices:", 8)) {
			char *p = line + 8, *e; 
			while (planlen < MAXCH) { unsigned long v = strtoul(p, &e, 10); if (e == p) break; plan[planlen++] = v; p = e; }
		} else if (!strncmp(line, "raw: 1", 6)) raw_chr = 1;
		fclose(f);
		mode = M_REPLAY;
	} else mode = exh ? M_EXH : M_RAND;
	fflush(stdout);
	pid = fork();
	if (pid == 0) {
		double t0 = now(); unsigned long long k;
		g_log_set_default_handler(quiet, NULL);
		if (mode == M_REPLAY) { alarm(20); one(fn); _exit(0); }
		seen = calloc(HS, sizeof(*seen));
		rng = seed * 0x9E3779B97F4A7C15ULL + 88172645463325252ULL;
		for (k = 0; k < maxruns; k++) {
			if ((k & 63) == 0) { alarm(20); if (now() - t0 > limit) break; }
			one(fn);
			if (mode == M_RAND) count_distinct();
			else {
				int j = (int)S->n - 1;
				S->distinct++;
				memcpy(plan, S->val, S->n * sizeof(unsigned));
				while (j >= 0 && plan[j] + 1 >= S->ar[j]) j--;
				if (j < 0) { S->exhausted = 1; break; }
				plan[j]++; planlen = j + 1;
			}
		}
		_exit(0);
	}
	waitpid(pid, &status, 0);
	if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0)) {
		if (!S->failed) snprintf(S->msg, sizeof S->msg, WIFSIGNALED(status) ? "killed by signal %d" : "exited with status %d", WIFSIGNALED(status) ? WTERMSIG(status) : WEXITSTATUS(status));
		S->failed = 1;
	}
	printf("runs: %llu\nskipped: %llu\ndistinct: %llu\nexhausted: %d\nfailed: %d\n", S->runs, S->skipped, S->distinct, S->exhausted, S->failed);
	if (replay && S->notelen) printf("note: %s\n", S->note);
	if (S->failed) {
		printf("msg: %s\nraw: %d\nchoices:", S->msg, raw_chr);
		{ unsigned k; for (k = 0; k < S->n; k++) printf(" %u", S->val[k]); }
		printf("\n");
	}
	return S->failed ? 1 : 0;
}
