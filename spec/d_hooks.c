/* C21: histories of filters and hooks against a model of the three chains. */
#include "vp.h"
#include "internals.h"
#define MX 12
static struct ent { int id, name, prio; } M[3][MX]; static int nm[3], seq, log_[MX * 2], nlog, refuse; static struct irc_network N; static struct irc_line L; static struct irc_client C; static int dir;
static gboolean f(struct irc_network *n, const struct irc_line *l, enum data_direction d, void *u) { VASSERT(n == &N && l == &L && (int)d == dir, "given the line"); VASSERT(nlog < MX, "each filter once"); log_[nlog++] = GPOINTER_TO_INT(u); return GPOINTER_TO_INT(u) != refuse; }
static gboolean h(struct irc_client *c, void *u) { VASSERT(c == &C && nlog < MX, "given the client"); log_[nlog++] = GPOINTER_TO_INT(u); return GPOINTER_TO_INT(u) != refuse; }
static const char *NM[] = { "log", "admin", "x", "" };
static int prio(void) { static const int p[] = { 0, 1, -1, 1000, -1000, 0x7fffffff, -0x7fffffff - 1, 5 }; return p[ND_BELOW(8)]; }
static gboolean run(int k) { nlog = 0; return k == 0 ? run_log_filter(&N, &L, dir) : k == 1 ? run_server_filter(&N, &L, dir) : new_client_hook_execute(&C); }
VP_HARNESS(chains)
{
	int n, k, i, j; char nb[8];
	memset(nm, 0, sizeof nm); seq = 0;
	for (n = 1 + ND_BELOW(20); n > 0; n--) {
		k = ND_BELOW(3);
		switch (ND_BELOW(3)) {
		case 0: { struct ent e; if (nm[k] >= MX) break; e.id = ++seq; e.name = ND_BELOW(4); e.prio = k == 2 ? 0 : prio(); strcpy(nb, NM[e.name]); vp_note("add %d \"%s\" prio %d to chain %d\n", e.id, nb, e.prio, k);
			if (k == 0) add_log_filter(nb, f, GINT_TO_POINTER(e.id), e.prio); else if (k == 1) add_server_filter(nb, f, GINT_TO_POINTER(e.id), e.prio); else add_new_client_hook(nb, h, GINT_TO_POINTER(e.id));
			memset(nb, 'q', 7); M[k][nm[k]++] = e; break; }
		case 1: { int w = ND_BELOW(4); gboolean ok; vp_note("delete \"%s\" from chain %d\n", NM[w], k);
			/* which of several of one name goes: the first in the order of the chain */
			refuse = 0; ok = run(k); VASSERT(ok, "none refuses");
			if (k == 0) del_log_filter(NM[w]); else if (k == 1) del_server_filter(NM[w]); else del_new_client_hook(NM[w]);
			for (i = 0; i < nlog; i++) { for (j = 0; j < nm[k] && M[k][j].id != log_[i]; j++) ; VASSERT(j < nm[k], "a known filter"); if (M[k][j].name == w) { memmove(M[k] + j, M[k] + j + 1, (nm[k] - j - 1) * sizeof(struct ent)); nm[k]--; break; } }
			break; }
		case 2: { gboolean r; int all[MX], na; dir = ND_BOOL() ? FROM_SERVER : TO_SERVER; refuse = 0; r = run(k); vp_note("run chain %d: %d ran\n", k, nlog);
			VASSERT(r && nlog == nm[k], "all run when none refuses");
			for (i = 0; i < nlog; i++) { for (j = 0; j < nm[k] && M[k][j].id != log_[i]; j++) ; VASSERT(j < nm[k], "a filter of this chain"); if (k == 2) VASSERT(j == i, "hooks run in the order they were added"); all[i] = log_[i];
				if (k < 2 && i > 0) { int q; for (q = 0; M[k][q].id != log_[i - 1]; q++) ; VASSERT(M[k][q].prio <= M[k][j].prio, "filters run in the order of their priorities"); }
				for (j = 0; j < i; j++) VASSERT(log_[j] != log_[i], "each once"); }
			na = nlog;
			if (na) { int w = ND_BELOW(na); refuse = all[w]; r = run(k); VASSERT(!r && nlog == w + 1, "the first refusal ends the chain"); for (i = 0; i <= w; i++) VASSERT(log_[i] == all[i], "same order"); }
			break; }
		}
	}
	for (k = 0; k < 3; k++) for (j = 0; j < nm[k]; j++) { const char *w = NM[M[k][j].name]; if (k == 0) del_log_filter(w); else if (k == 1) del_server_filter(w); else del_new_client_hook(w); }
	refuse = 0; for (k = 0; k < 3; k++) { run(k); VASSERT(nlog == 0, "all deleted"); }
}
