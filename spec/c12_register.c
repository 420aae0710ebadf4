/* C12: from connection to client (libirc/client.c) under contract. */
#include "vp.h"
#include "internals.h"
#include "irc.h"
unsigned char vp_byte;
#define MAXN 30
static struct irc_line L; static char *GA[MAXN + 2], A0[12], AR[8], ORIG[2], OLD[8], DUP[8], HOST[2], NAME[2], DEF[2]; size_t NA;
static struct irc_client C; static struct irc_login_details LD; static struct irc_network_state CS; static struct irc_client_callbacks CB; static GList PEND, PEND2;
int nresp, nresp1, nconn, nproc, ninit, nwelcome, npend, ndup, Gret, Gwel, Gport, freed[8]; int hist;
static int lo(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int ci(const char *a, const char *b, size_t n) { size_t i; for (i = 0; i < n && i < 12; i++) { if (lo(a[i]) != lo(b[i])) return 1; if (!a[i]) return 0; } return 0; }
int base_strcmp(const char *a, const char *b) { __CPROVER_assert(a == A0, "VP compares the command"); return ci(a, b, 12); }
#undef g_free
#undef g_strdup
#undef atoi
void vp_free(void *p) { if (p == NULL) return; int k = (char *)p - OLD; __CPROVER_assert(__CPROVER_same_object(p, OLD) && !freed[k], "VP releases an old value, once"); freed[k] = 1; }
char *vp_strdup(const char *s) { if (s == NULL) return NULL; __CPROVER_assert(__CPROVER_same_object(s, AR), "VP keeps an argument"); ndup++; return DUP + (s - AR); }
int vp_atoi(const char *s) { __CPROVER_assert(NA > 2 && s == GA[2], "VP the port that was given"); return Gport; }
#define g_free vp_free
#define g_strdup vp_strdup
#define atoi vp_atoi
#define client_log(...) ((void)0)
gboolean vp_resp(struct irc_client *c, int r) { __CPROVER_assert(c == &C && (r == ERR_NEEDMOREPARAMS || r == ERR_NOTREGISTERED), "VP an error reply"); nresp++; if (r == ERR_NEEDMOREPARAMS) nresp1++; return nondet_int() ? 1 : 0; }
#define VPR(c, r, ...) vp_resp(c, r)
#define vp_client_send_response(...) VPR(__VA_ARGS__, NULL)
void on_conn(struct irc_client *c, const char *h, guint16 p) { __CPROVER_assert(c == &C && NA > 1 && h == GA[1] && p == (guint16)(NA > 2 ? Gport : 6667), "VP the network that was named"); nconn++; }
#ifdef P_PEND
#define client_send_response vp_client_send_response
#include "libirc/client.c"
static int is(const char *w) { return !ci(A0, w, 12); }
#define OLDV(f, k) do { _Bool vp_h; LD.f = vp_h ? OLD + (k) : NULL; } while (0)
#define KEPT(f, k, was) (LD.f == (was) && !freed[k])
#define TAKEN(f, k, was, a) (LD.f == ((a) < NA ? DUP + (a) : NULL) && freed[k] == ((was) != NULL))
void H(void)
{
	size_t n; gboolean r; struct irc_login_details W; int k;
	__CPROVER_havoc_object(GA); __CPROVER_havoc_object(A0); A0[11] = 0; NA = n; __CPROVER_assume(NA >= 1 && NA < MAXN); GA[0] = A0; if (NA > 1) GA[1] = AR + 1; if (NA > 2) GA[2] = AR + 2; if (NA > 3) GA[3] = AR + 3; if (NA > 4) GA[4] = AR + 4; GA[NA] = NULL;
	Gport = nondet_int(); L.args = GA; L.argc = NA; L.origin = ORIG; C.login_details = &LD; C.callbacks = &CB; C.default_origin = DEF; CB.on_connect = on_conn;
	OLDV(nick, 0); OLDV(username, 1); OLDV(mode, 2); OLDV(unused, 3); OLDV(realname, 4); OLDV(password, 5); W = LD; nresp = nresp1 = nconn = ndup = 0;
	r = process_from_pending_client(&C, &L);
	__CPROVER_assert(r && C.login_details == &LD && L.args == GA, "VP the connection stays");
	if (is("NICK") && NA >= 2) __CPROVER_assert(TAKEN(nick, 0, W.nick, 1) && !nresp && !nconn, "VP the nick is noted"); else __CPROVER_assert(KEPT(nick, 0, W.nick), "VP only NICK changes the nick");
	if (is("USER") && NA >= 5) __CPROVER_assert(TAKEN(username, 1, W.username, 1) && TAKEN(mode, 2, W.mode, 2) && TAKEN(unused, 3, W.unused, 3) && TAKEN(realname, 4, W.realname, 4) && !nresp && !nconn, "VP the user is noted");
	else __CPROVER_assert(KEPT(username, 1, W.username) && KEPT(mode, 2, W.mode) && KEPT(unused, 3, W.unused) && KEPT(realname, 4, W.realname), "VP only a complete USER changes the user");
	if (is("PASS")) __CPROVER_assert(TAKEN(password, 5, W.password, 1) && !nresp && !nconn, "VP the password is noted"); else __CPROVER_assert(KEPT(password, 5, W.password), "VP only PASS changes the password");
	if ((is("NICK") && NA < 2) || (is("USER") && NA < 5) || (is("CONNECT") && NA < 2)) __CPROVER_assert(nresp == 1 && nresp1 == 1 && !nconn, "VP told that arguments are missing");
	else if (is("CONNECT")) __CPROVER_assert(nconn == 1 && !nresp, "VP looks for that network");
	else if (!is("NICK") && !is("USER") && !is("PASS")) __CPROVER_assert(nresp == 1 && !nresp1 && !nconn, "VP nothing else before registration");
	VREACH("process_from_pending_client");
}
#endif
#ifdef P_RECV
#undef g_list_remove
int known, gn, gu;
GList *vp_remove(GList *l, const void *d) { __CPROVER_assert(l == &PEND && d == &C && !npend, "VP no longer pending"); npend = 1; return &PEND2; }
#define g_list_remove vp_remove
struct irc_network_state *network_state_init(const char *n, const char *u, const char *h) { __CPROVER_assert(nproc == 2 && n == LD.nick && n != NULL && u == LD.username && u != NULL && h == HOST && !ninit, "VP the state of a client with nick, user and host"); ninit = 1; return &CS; }
static gboolean process_from_pending_client(struct irc_client *client, const struct irc_line *l);
gboolean vp_proc(struct irc_client *c, const struct irc_line *l) { __CPROVER_assert(c == &C && l == &L && !nproc, "VP this line"); nproc = 1; return Gret; }
gboolean vp_welcome(struct irc_client *c) { __CPROVER_assert(c == &C && C.state == &CS && ninit && npend && !C.authenticated && !nwelcome, "VP welcomed once nick and user are known"); nwelcome = 1; return Gwel; }
#include "libirc/client.c"
static gboolean process_from_pending_client(struct irc_client *client, const struct irc_line *l) { __CPROVER_assert(client == &C && l == &L && !nproc, "VP this line"); nproc = 2; LD.nick = gn ? DUP : NULL; LD.username = gu ? DUP + 1 : NULL; return 1; }
void H(void)
{
	size_t n; _Bool a, e, w, g, nn, uu; gboolean r; static struct irc_transport T; int reg; __CPROVER_havoc_object(A0); A0[11] = 0;
	C.login_details = &LD; C.callbacks = &CB; CB.process_from_client = vp_proc; CB.welcome = vp_welcome; C.client_hostname = HOST; C.state = a ? &CS : NULL; C.authenticated = a ? 1 : 0; T.userdata = &C; NA = n; __CPROVER_assume(NA < MAXN); L.argc = n; L.args = GA; GA[NA] = NULL; if (NA) GA[0] = A0; L.origin = ORIG; Gret = g ? 1 : 0; Gwel = w ? 1 : 0; gn = nn ? 1 : 0; gu = uu ? 1 : 0; pending_clients = &PEND;
	nproc = ninit = nwelcome = npend = 0;
	r = on_transport_receive_line(&T, e ? NULL : &L);
	reg = !a && gn && gu;
	if (e || NA == 0 || !A0[0]) __CPROVER_assert(r && !nproc && !npend && !ninit && !nwelcome && C.authenticated == (a ? 1 : 0), "VP an empty line does nothing");
	else if (a) __CPROVER_assert(nproc == 1 && !r == !Gret && !npend && !ninit && !nwelcome && C.authenticated, "VP a line of a client");
	else __CPROVER_assert(nproc == 2 && nwelcome == reg && ninit == reg && npend == reg && !r == (reg && !Gwel) && !C.authenticated == !(reg && Gwel) && C.state == (reg ? &CS : NULL), "VP a client exactly when nick and user are known and it is welcome");
	VREACH("on_transport_receive_line");
}
#endif
#ifdef P_WELCOME
static struct irc_network N; static struct irc_network_info INFO, CINFO; static struct irc_network_state XS; static struct global G; static struct ctrlproxy_config CFG; static struct network_config NC; static GList OL, NL; static char CN[2], XN[2], LN[2], MASK[2], FEAT[2], MOTD[2], TMP[2], *LINES[2]; int Gsame, Ghook, Gmotd, Gempty, ord, napp, nnick, ntry, nhook, nrep, nmotd, ndisc, nluser, nw, last001;
#undef g_list_append
#undef g_list_length
#undef g_strfreev
#undef strcmp
#undef g_strdup_printf
GList *vp_append(GList *l, void *d) { __CPROVER_assert(l == &OL && d == &C && !napp, "VP joins the clients of the network"); napp = 1; return &NL; }
char *vp_printf(void) { return TMP; }
void vp_freev(char **v) { __CPROVER_assert(v == LINES, "VP frees the text"); }
int vp_strcmp(const char *a, const char *b) { __CPROVER_assert(a == MOTD && !*b, "VP is there a message"); return !Gempty; }
#define g_list_append vp_append
#define g_list_length(l) 1
#define g_strdup_printf(...) vp_printf()
#define g_strfreev vp_freev
#define strcmp vp_strcmp
#undef g_free
#define g_free(p) ((void)0)
char *network_generate_feature_string(struct irc_network *n) { __CPROVER_assert(n == &N, "VP of the network"); return FEAT; }
int n001, n005;
gboolean vp_wresp(struct irc_client *c, int r, const char *a) { __CPROVER_assert(c == &C && napp && !nrep && !nnick && !ndisc, "VP greeted first"); if (r == RPL_WELCOME) { __CPROVER_assert(!n001 && !n005, "VP 001 comes first"); n001++; } else __CPROVER_assert(n001 == 1, "VP 001 comes first"); if (r == RPL_BOUNCE) { __CPROVER_assert(a == FEAT && !nmotd, "VP the features of the network"); n005++; } return nondet_int() ? 1 : 0; }
#define VPW(c, r, a, ...) vp_wresp(c, r, (char *)(a))
#define client_send_response(...) VPW(__VA_ARGS__, NULL, NULL)
gboolean vp_nick(struct irc_client *c, const char *h, const char *a, const char *b) { __CPROVER_assert(c == &C && h == MASK && a[0] == 'N' && b == XN && !nnick && !nrep && nmotd, "VP told its nick on the network"); nnick = 1; return nondet_int() ? 1 : 0; }
#define client_send_args_ex(c, h, a, b, ...) vp_nick(c, h, a, b)
gboolean vp_try(struct irc_network *n, const char *a, const char *b) { __CPROVER_assert(n == &N && a[0] == 'N' && b == LN && !ntry, "VP the nick it wanted is asked for"); ntry = 1; return 1; }
#define network_send_args(n, a, b, ...) vp_try(n, a, b)
gboolean client_send_luserchannels(struct irc_client *c, int n) { __CPROVER_assert(c == &C && N.external_state, "VP channels"); return 1; }
gboolean client_send_motd(struct irc_client *c, char **l) { __CPROVER_assert(c == &C && !nmotd && n005 == 1 && l == (Gmotd && !Gempty ? LINES : NULL), "VP the message of the day"); nmotd = 1; return 1; }
char **get_motd_lines(const char *f) { __CPROVER_assert(f == MOTD, "VP of that file"); return LINES; }
int irccmp(const struct irc_network_info *i, const char *a, const char *b) { __CPROVER_assert(i == &CINFO && ((a == CN && b == XN) || (a == XN && b == CN)), "VP compares the nicks"); return !Gsame; }
gboolean new_client_hook_execute(struct irc_client *c) { __CPROVER_assert(c == &C && nmotd && !nhook && !nrep, "VP hooks"); nhook = 1; return Ghook; }
void client_disconnect(struct irc_client *c, const char *r) { __CPROVER_assert(c == &C && !ndisc, "VP this client"); ndisc = 1; }
void client_replicate(struct irc_client *c) { __CPROVER_assert(c == &C && nhook && Ghook && !nrep, "VP then the state of the network"); nrep = 1; }
const char *ctrlproxy_version(void) { return TMP; }
#include "src/client.c"
void H(void)
{
	_Bool net, ext, s, h, m, e, ig; gboolean r; int want;
	C.network = net ? &N : NULL; C.state = &CS; CS.info = &CINFO; CS.me.nick = CN; CS.me.hostmask = MASK; C.login_details = &LD; LD.nick = LN; C.default_origin = DEF; N.clients = &OL; N.name = NAME; N.info = &INFO; N.external_state = ext ? &XS : NULL; XS.me.nick = XN; N.global = &G; G.config = &CFG; N.private_data = &NC; NC.ignore_first_nick = ig ? 1 : 0; CFG.motd_file = m ? MOTD : NULL; Gmotd = m ? 1 : 0; Gempty = e ? 1 : 0; Gsame = s ? 1 : 0; Ghook = h ? 1 : 0;
	napp = nnick = ntry = nhook = nrep = nmotd = ndisc = n001 = n005 = 0;
	r = welcome_client(&C);
	want = ext && !Gsame;
	if (!net) __CPROVER_assert(!r && ndisc && !napp && !nrep && !n001, "VP nothing to join");
	else { __CPROVER_assert(napp && N.clients == &NL && n001 == 1 && n005 == 1 && nmotd && nhook && nnick == want && ntry == (want && !ig), "VP greeted and told its nick"); __CPROVER_assert(Ghook ? r && nrep && !ndisc : !r && !nrep && ndisc, "VP gets the state unless a hook refuses"); }
	VREACH("welcome_client");
}
#endif
