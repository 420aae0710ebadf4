/* C17: networks, channels and keys through saving and loading the configuration. */
#define _GNU_SOURCE
#include "vp.h"
#include "internals.h"
#include "settings.h"
#include "irc.h"
#include <string.h>
#include <unistd.h>
#include <stdio.h>
#include <stdlib.h>
#include <ftw.h>
#include <sys/stat.h>
struct network_config *config_find_network(struct ctrlproxy_config *cfg, const char *name);
static int rmf(const char *p, const struct stat *s, int t, struct FTW *f) { return remove(p); }
struct mch { char name[8], key[16]; int hask, aj; }; struct msv { char host[16], port[8], pw[8], bind[12]; int ssl; };
struct mnet { char name[16], nick[8], user[8], full[16]; int hasnick, hasuser, hasfull, ac, qs, ri, nc, ns, ncmd, implicit; struct mch c[4]; struct msv s[3]; const char *cmd[3]; };
static const char *keys[] = { "key", "k;2", "*", "k\xe9y", "a,b", "#c", "longerkey" }, *chs[] = { "#a", "#B", "&loc", "#c[" }, *cmds[] = { "PRIVMSG q :a;b, c", "MODE me +i", "X \\ \"q\"" }, *names[] = { "alpha", "Beta", "net.one" };
static struct mnet M[3]; static int nm;
static char *dup_(int h, const char *s) { return h ? g_strdup(s) : NULL; }
static void mut(struct mnet *m, int idx)
{
	int i; m->hasnick = ND_BOOL(); strcpy(m->nick, ND_BOOL() ? "joe" : "x[]"); m->hasuser = ND_BOOL(); strcpy(m->user, "us"); m->hasfull = ND_BOOL(); strcpy(m->full, ND_BOOL() ? "Real Name;x" : "r"); m->ac = ND_BELOW(3) == 0; m->nc = 0; m->qs = ND_BELOW(3) ? m->qs : 1 + ND_BELOW(9); m->ri = ND_BELOW(3) ? m->ri : (int)ND_BELOW(9);
	for (i = 0; i < 4; i++) if (ND_BOOL()) { struct mch *c = &m->c[m->nc++]; strcpy(c->name, chs[i]); c->hask = ND_BOOL(); strcpy(c->key, keys[ND_BELOW(7)]); c->aj = ND_BOOL(); }
	m->ns = ND_BELOW(3); for (i = 0; i < m->ns; i++) { struct msv *s = &m->s[i]; sprintf(s->host, "%s%d.org", m->name, i); strcpy(s->port, ND_BOOL() ? "6667" : "7000"); s->ssl = ND_BELOW(4) == 0; strcpy(s->pw, ND_BOOL() ? "spw" : ""); strcpy(s->bind, ND_BELOW(3) == 0 ? "127.0.0.1" : ""); }
	m->ncmd = ND_BELOW(4); for (i = 0; i < m->ncmd; i++) m->cmd[i] = cmds[i];
}
/* as an administrator would change the configuration in memory */
static void put(struct ctrlproxy_config *cfg, struct mnet *m)
{
	struct network_config *n = config_find_network(cfg, m->name); int i; GList *l;
	if (!n) { n = network_config_init(cfg); n->name = g_strdup(m->name); n->type = NETWORK_TCP; n->reconnect_interval = 60; m->ri = 60; m->implicit = ND_BELOW(6) == 0; n->implicit = m->implicit ? 1 : 0; }
	g_free(n->nick); n->nick = dup_(m->hasnick, m->nick); g_free(n->username); n->username = dup_(m->hasuser, m->user); g_free(n->fullname); n->fullname = dup_(m->hasfull, m->full); n->autoconnect = m->ac ? 1 : 0; n->queue_speed = m->qs; n->reconnect_interval = m->ri;
	g_strfreev(n->autocmd); n->autocmd = NULL; if (m->ncmd) { n->autocmd = g_new0(char *, 4); for (i = 0; i < m->ncmd; i++) n->autocmd[i] = g_strdup(m->cmd[i]); }
	for (l = n->channels; l; l = l->next) { struct channel_config *c = l->data; g_free(c->key); c->key = NULL; c->autojoin = 0; }
	for (i = 0; i < m->nc; i++) { struct channel_config *c = NULL; for (l = n->channels; l; l = l->next) if (!strcmp(((struct channel_config *)l->data)->name, m->c[i].name)) c = l->data; if (!c) { c = g_new0(struct channel_config, 1); c->name = g_strdup(m->c[i].name); n->channels = g_list_append(n->channels, c); } c->key = dup_(m->c[i].hask, m->c[i].key); c->autojoin = m->c[i].aj; }
	for (l = n->type_settings.tcp.servers; l; l = l->next) { struct tcp_server_config *t = l->data; g_free(t->host); g_free(t->port); g_free(t->password); g_free(t->bind_address); g_free(t); } g_list_free(n->type_settings.tcp.servers); n->type_settings.tcp.servers = NULL;
	for (i = 0; i < m->ns; i++) { struct tcp_server_config *t = g_new0(struct tcp_server_config, 1); t->host = g_strdup(m->s[i].host); t->port = g_strdup(m->s[i].port); t->ssl = m->s[i].ssl; t->password = dup_(m->s[i].pw[0], m->s[i].pw); t->bind_address = dup_(m->s[i].bind[0], m->s[i].bind); n->type_settings.tcp.servers = g_list_append(n->type_settings.tcp.servers, t); }
}
static int seq(int h, const char *w, const char *g) { return h ? g && !strcmp(w, g) : g == NULL; }
static void chk(struct ctrlproxy_config *cfg)
{
	int i, j, cnt = 0; GList *l;
	for (i = 0; i < nm; i++) {
		struct mnet *m = &M[i]; struct network_config *n = config_find_network(cfg, m->name); VASSERT((n != NULL) == !m->implicit, "every network, but those made up for a client, is kept"); if (!n) continue; cnt++; vp_note("network %s\n", m->name);
		VASSERT(!strcmp(n->name, m->name) && n->type == NETWORK_TCP && seq(m->hasnick, m->nick, n->nick) && seq(m->hasuser, m->user, n->username) && seq(m->hasfull, m->full, n->fullname), "the user's names are kept"); VASSERT((n->autoconnect != 0) == m->ac, "which networks to connect to is kept"); VASSERT(n->queue_speed == m->qs && (int)n->reconnect_interval == m->ri, "intervals are kept");
		for (j = 0; j < m->ncmd; j++) VASSERT(n->autocmd && n->autocmd[j] && !strcmp(n->autocmd[j], m->cmd[j]), "commands are kept"); VASSERT(n->autocmd == NULL || n->autocmd[j] == NULL, "no other commands");
		for (j = 0, l = n->type_settings.tcp.servers; l; l = l->next, j++) { struct tcp_server_config *t = l->data; vp_note("server %s %s %d %s %s", t->host, t->port, t->ssl, t->password, t->bind_address); if (j < m->ns) vp_note(", want %s %s %d %s %s", m->s[j].host, m->s[j].port, m->s[j].ssl, m->s[j].pw, m->s[j].bind); vp_note("\n"); VASSERT(j < m->ns && !strcmp(t->host, m->s[j].host) && !strcmp(t->port, m->s[j].port) && !t->ssl == !m->s[j].ssl && seq(m->s[j].pw[0], m->s[j].pw, t->password) && seq(m->s[j].bind[0], m->s[j].bind, t->bind_address), "servers are kept, in order"); } VASSERT(j == m->ns, "all servers");
		for (j = 0; j < m->nc; j++) { struct channel_config *c = NULL; for (l = n->channels; l; l = l->next) if (!strcmp(((struct channel_config *)l->data)->name, m->c[j].name)) { VASSERT(!c, "once"); c = l->data; } vp_note("channel %s key %s aj %d: %s %d\n", m->c[j].name, m->c[j].hask ? m->c[j].key : "-", m->c[j].aj, c ? c->key : "none", c ? c->autojoin : 0); if (!c) VASSERT(!m->c[j].hask && !m->c[j].aj, "channels are kept"); else { VASSERT(seq(m->c[j].hask, m->c[j].key, c->key), "the key of each channel is kept"); VASSERT(!c->autojoin == !m->c[j].aj, "which channels to join is kept"); } }
		for (l = n->channels; l; l = l->next) { for (j = 0; j < m->nc; j++) if (!strcmp(((struct channel_config *)l->data)->name, m->c[j].name)) break; VASSERT(j < m->nc || (!((struct channel_config *)l->data)->key && !((struct channel_config *)l->data)->autojoin), "no other channels"); }
	}
	VASSERT((int)g_list_length(cfg->networks) == cnt, "no other networks");
}
VP_HARNESS(config)
{
	char dir[] = "/tmp/vp-cf-XXXXXX", fn[100], other[100]; int i, k, rounds = 1 + ND_BELOW(4); struct ctrlproxy_config *cfg; FILE *f; struct stat st;
	memset(M, 0, sizeof M); nm = 0; VASSUME(mkdtemp(dir)); sprintf(fn, "%s/config", dir); f = fopen(fn, "w"); VASSUME(f); fprintf(f, "[global]\nadmin-user = ctrlproxy\n"); if (ND_BOOL()) fprintf(f, "autoconnect = gamma;\n[gamma]\nservers = irc://g.org:6667\n"), strcpy(M[nm].name, "gamma"), M[nm].ac = 1, M[nm].ns = 1, strcpy(M[nm].s[0].host, "g.org"), strcpy(M[nm].s[0].port, "6667"), M[nm].ri = -1, nm++; fclose(f);
	if (ND_BOOL()) { char p[120]; sprintf(p, "%s/networks", dir); VASSUME(mkdir(p, 0700) == 0); sprintf(p, "%s/networks/delta", dir); f = fopen(p, "w"); VASSUME(f); fprintf(f, "[global]\nnick=joe\n[#a]\nkey=old\nautojoin=true\n[#B]\nautojoin=false\n"); fclose(f); struct mnet *m = &M[nm++]; strcpy(m->name, "delta"); m->hasnick = 1; strcpy(m->nick, "joe"); m->ri = -1; m->nc = 2; strcpy(m->c[0].name, "#a"); strcpy(m->c[0].key, "old"); m->c[0].hask = m->c[0].aj = 1; strcpy(m->c[1].name, "#B"); }
	cfg = load_configuration(dir, FALSE); VASSERT(cfg, "loaded"); chk(cfg);
	for (k = 0; k < rounds; k++) {
		const char *to = dir; vp_note("round %d\n", k);
		for (i = 0; i < 3; i++) if (ND_BOOL()) { int j; for (j = 0; j < nm; j++) if (!strcmp(M[j].name, names[i])) break; if (j == nm) { if (nm == 3) continue; nm++; memset(&M[j], 0, sizeof M[j]); strcpy(M[j].name, names[i]); } mut(&M[j], j); put(cfg, &M[j]); if (M[j].implicit) { M[j].ac = 0; config_find_network(cfg, M[j].name)->autoconnect = 0; } }
		for (i = 0; i < nm; i++) if (!M[i].implicit && ND_BELOW(3) == 0) { mut(&M[i], i); put(cfg, &M[i]); }
		(void)other; save_configuration(cfg, to); sprintf(fn, "%s/keys", to); if (stat(fn, &st) == 0) VASSERT((st.st_mode & 077) == 0, "others can't read keys");
		free_config(cfg); cfg = load_configuration(dir, FALSE); VASSERT(cfg, "loaded"); chk(cfg); { int j; for (i = j = 0; i < nm; i++) if (!M[i].implicit) { if (i != j) M[j] = M[i]; j++; } nm = j; }
	}
	free_config(cfg); nftw(dir, rmf, 10, FTW_DEPTH | FTW_PHYS);
}
