/* C10: who gets in (src/listener.c) under contract. */
#include "vp.h"
#include "internals.h"
#include "irc.h"
#include "listener.h"
#include "socks.h"
#include <netinet/in.h>
unsigned char vp_byte; int nondet_int(void);
static struct irc_listener LI; static struct listener_config LC; static struct global G; static struct ctrlproxy_config CFG; static struct pending_client PC; static GIOChannel CONN;
static char USER[2], PW[2], UA[2], UB[2], PA[2], PB[2], LPW[2], GPW[2]; int Gua, Gub, Gpa, Gpb, Glp, Ggp, MA, MB;
static struct irc_network NL, NF; static struct network_config NC; static struct irc_line L; static char *GA[4], CMD[8], A1[20], DESC[2], DUP[2]; int Gcolon, Gok, Gfound, Gconn, Gdesc; static int ncheck, nfind, nconn, ninit, nsend, nok, pwfree, descfree, nsend461, nerr, nrep; static struct irc_network *inet; int Gsendst;
#include "lists.h"
#undef g_free
#undef g_strdup
#undef g_strndup
#undef strcmp
#undef strchr
#undef listener_log
#undef network_log
void vp_log(void) { }
#define listener_log(...) ((void)0)
#define network_log(...) ((void)0)
static const char *other(const char *a, const char *b, const char *t) { return a == t ? b : b == t ? a : NULL; }
#ifdef P_CHECK
int vp_strcmp(const char *a, const char *b) { const char *x; __CPROVER_assert(a != NULL && b != NULL, "VP compares two strings"); x = other(a, b, PW); if (x != NULL) { __CPROVER_assert(x == PA || x == PB || x == LPW || x == GPW, "VP a password with a password"); return x == PA ? !Gpa : x == PB ? !Gpb : x == LPW ? !Glp : !Ggp; } x = other(a, b, USER); __CPROVER_assert(x == UA || x == UB, "VP a name with a name"); return x == UA ? !Gua : !Gub; }
#define strcmp vp_strcmp
#endif
#if defined(P_LINE) || defined(P_FQDN)
void vp_free(void *p) { if (p == PW) { __CPROVER_assert(ncheck == 1, "VP password freed after the check"); pwfree++; } else if (p == DESC) descfree++; else __CPROVER_assert(p == NULL || p == DUP, "VP frees its own strings"); }
char *vp_strdup(const char *s) { if (s == A1) { __CPROVER_assert(Gcolon < 0, "VP the whole argument is the password"); return PW; } return DESC; }
char *vp_strndup(const char *s, gsize n) { __CPROVER_assert(s == A1 && Gcolon >= 0 && n == Gcolon, "VP the password ends at the colon"); return PW; }
char *vp_strchr(const char *s, int c) { __CPROVER_assert(s == A1 && c == ':', "VP looks for the colon"); return Gcolon < 0 ? NULL : A1 + Gcolon; }
#define g_free vp_free
#define g_strdup vp_strdup
#define g_strndup vp_strndup
#define strchr vp_strchr
static int startswith(const char *a, const char *b) { int i; for (i = 0; i < 20; i++) { if (!b[i]) return 1; if (a[i] != b[i]) return 0; } return 1; }
GIOStatus vp_sendf(GIOChannel *c, GIConv iv, const char *f) { __CPROVER_assert(c == &CONN, "VP to this client"); nsend++; if (startswith(f, "NOTICE AUTH")) { __CPROVER_assert(Gok && ncheck == 1, "VP welcomed only with the password"); nok++; } return Gsendst ? G_IO_STATUS_NORMAL : G_IO_STATUS_ERROR; }
#define irc_sendf(c, i, e, f, ...) vp_sendf(c, i, f)
#undef g_io_channel_flush
#define g_io_channel_flush(a, b) ((void)0)
const char *get_my_hostname(void) { return DUP; }
struct irc_network *find_network_by_hostname(struct global *g, const char *h, guint16 p, gboolean cr, struct irc_login_details *d);
gboolean connect_network(struct irc_network *n) { __CPROVER_assert(n == &NF && NF.connection.state == NETWORK_CONNECTION_STATE_NOT_CONNECTED, "VP connects a network that isn't"); nconn++; return Gconn; }
char *g_io_channel_ip_get_description(GIOChannel *c) { __CPROVER_assert(c == &CONN, "VP connection"); return Gdesc ? DESC : NULL; }
struct irc_client *client_init_iochannel(struct irc_network *n, GIOChannel *c, const char *d) { static struct irc_client cl; __CPROVER_assert(c == &CONN && d == DESC && !descfree, "VP a client on this connection"); ninit++; inet = n; return &cl; }
int base_strcmp(const char *a, const char *b) { int i; __CPROVER_assert(a == CMD, "VP the command"); for (i = 0; i < 7; i++) { if ((a[i] >= 'a' && a[i] <= 'z' ? a[i] - 32 : a[i]) != b[i]) return 1; if (!a[i]) return 0; } return 0; }
guint16 vp_ntohs(guint16 x) { return (x << 8) | (x >> 8); }
#undef ntohs
#define ntohs vp_ntohs
#endif
#ifdef P_FQDN
static char HOST[2]; static guint16 Gport; static union { struct sockaddr sa; struct sockaddr_in s4; struct sockaddr_in6 s6; } SA; int Gnamed; static struct irc_network *fn;
gboolean listener_socks_error(struct pending_client *pc, guint8 e) { __CPROVER_assert(pc == &PC && e == REP_NET_UNREACHABLE && !nrep, "VP refused"); nerr++; return FALSE; }
gboolean listener_socks_reply(struct pending_client *pc, guint8 e, guint8 at, guint8 n, gchar *d, guint16 port) { __CPROVER_assert(pc == &PC && e == REP_OK && !ninit, "VP success before the connection is handed over");
	if (NC.type == NETWORK_TCP) { __CPROVER_assert(SA.sa.sa_family == AF_INET ? at == ATYP_IPV4 && n == 4 && d == (gchar *)&SA.s4.sin_addr : at == ATYP_IPV6 && n == 16 && d == (gchar *)&SA.s6.sin6_addr, "VP our address");
	__CPROVER_assert(port == vp_ntohs(SA.sa.sa_family == AF_INET ? SA.s4.sin_port : SA.s6.sin6_port), "VP our port"); }
	nrep++; return TRUE; }
#endif
int default_socks_auth_simple_cb;
#ifdef P_SIMPLE
static int cbres, cbarg, ncb; static gboolean cb(struct pending_client *p, gboolean ok) { __CPROVER_assert(p == &PC, "VP this client"); ncb++; cbarg = ok; return cbres; }
#endif
#include "src/listener.c"
#ifdef P_CHECK
void H(void)
{
	static struct allow_rule RA, RB; _Bool a, b, c, d, e, f, g, h, i, j, k, m, u; gboolean r, w;
	vp_list(&RA, &RB); RA.username = a ? UA : NULL; RA.password = b ? PA : NULL; RB.username = c ? UB : NULL; RB.password = d ? PB : NULL; Gua = e ? 1 : 0; Gub = f ? 1 : 0; Gpa = g ? 1 : 0; Gpb = h ? 1 : 0; Glp = i ? 1 : 0; Ggp = j ? 1 : 0;
	LC.allow_rules = Ghead; LC.password = k ? LPW : NULL; CFG.password = m ? GPW : NULL; G.config = &CFG; LI.global = &G; { _Bool lc; LI.config = lc ? &LC : NULL; }
	MA = u && RA.username && RA.password && Gua && Gpa; MB = u && RB.username && RB.password && Gub && Gpb;
	r = listener_check_username_password(&LI, u ? USER : NULL, PW);
	w = (LI.config && LC.password) ? Glp : CFG.password ? Ggp : 1;
	if (LI.config && ((seenA && MA) || (seenB && MB))) __CPROVER_assert(r, "VP a rule admits this user with this password");
	else { __CPROVER_assert(!LI.config || ALLSEEN, "VP no rule admits them"); __CPROVER_assert(!r == !w, "VP else the listener's password decides, then the global one, if there is one"); }
	VREACH("listener_check_username_password");
}
#endif
#ifdef P_SIMPLE
gboolean listener_check_username_password(struct irc_listener *l, const char *u, const char *p) { __CPROVER_assert(l == &LI && u == USER && p == PW, "VP checks what the client gave"); ncheck++; return Gok; }
void H(void) { _Bool a, b; gboolean r; Gok = a ? 1 : 0; cbres = b ? 1 : 0; ncheck = ncb = 0; PC.listener = &LI; r = default_socks_auth_simple(&PC, USER, PW, cb); __CPROVER_assert(ncheck == 1 && ncb == 1 && !cbarg == !Gok && r == cbres, "VP the client hears the outcome of the check"); VREACH("default_socks_auth_simple"); }
#endif
#ifdef P_LINE
gboolean listener_check_username_password(struct irc_listener *l, const char *u, const char *p) { __CPROVER_assert(l == &LI && u == NULL && p == PW && !pwfree, "VP checks the password given"); ncheck++; return Gok; }
struct irc_network *find_network_by_hostname(struct global *g, const char *h, guint16 p, gboolean cr, struct irc_login_details *d) { __CPROVER_assert(g == &G && Gcolon >= 0 && h == A1 + Gcolon + 1 && !cr == !CFG.create_implicit && Gok && ncheck == 1, "VP the network named behind the colon"); nfind++; return Gfound ? &NF : NULL; }
void H(void)
{
	_Bool a, b, c, d, e, f, g, has; int col, st; gboolean r; int pass, ok;
	__CPROVER_havoc_object(CMD); CMD[7] = 0; __CPROVER_assume(col >= -1 && col < 18); Gcolon = col; Gok = a ? 1 : 0; Gfound = b ? 1 : 0; Gconn = c ? 1 : 0; Gdesc = d ? 1 : 0; Gsendst = e ? 1 : 0; CFG.create_implicit = f ? 1 : 0; CFG.password = NULL;
	ncheck = nfind = nconn = ninit = nsend = nok = pwfree = descfree = 0; inet = NULL; GA[0] = CMD; GA[1] = has ? A1 : NULL; GA[2] = NULL; L.args = GA; L.argc = has ? 2 : 1;
	__CPROVER_assume(st >= NETWORK_CONNECTION_STATE_NOT_CONNECTED && st <= NETWORK_CONNECTION_STATE_MOTD_RECVD); NF.connection.state = st; G.config = &CFG; LI.global = &G; LI.network = g ? &NL : NULL; PC.listener = &LI; PC.connection = &CONN; { _Bool ux; G.unix_domain_socket_listener = ux ? &LI : NULL; }
	r = handle_client_line(&PC, &L);
	pass = !base_strcmp(CMD, "PASS"); ok = Gcolon < 0 || (Gfound && (st != NETWORK_CONNECTION_STATE_NOT_CONNECTED || Gconn));
	__CPROVER_assert(ninit == (pass && has && Gok && ok), "VP a client is let in exactly when its password was accepted and its network is there");
	if (ninit) __CPROVER_assert(inet == (Gcolon < 0 ? LI.network : &NF) && nok == 1 && !r, "VP on the network it asked for");
	__CPROVER_assert(ncheck == (pass && has) && pwfree == ncheck && nfind == (pass && has && Gok && Gcolon >= 0), "VP one check per PASS, no network touched before it");
	if (!ninit) __CPROVER_assert(nsend == 1 && nok == 0 && (r || (pass && has && (Gok || !Gsendst))), "VP everybody else hears an error");
	VREACH("handle_client_line");
}
#endif
#ifdef P_FQDN
struct irc_network *find_network_by_hostname(struct global *g, const char *h, guint16 p, gboolean cr, struct irc_login_details *d) { __CPROVER_assert(g == &G && h == HOST && p == Gport && !cr == !CFG.create_implicit && d == NULL, "VP the network asked for"); nfind++; return Gfound ? &NF : NULL; }
void H(void)
{
	_Bool a, b, c, f, u, nn; int st; guint16 p; gboolean r; int ok, addr; int fam, ty;
	Gport = p; Gfound = a ? 1 : 0; Gconn = b ? 1 : 0; Gdesc = c ? 1 : 0; CFG.create_implicit = f ? 1 : 0; ncheck = nfind = nconn = ninit = nsend = nerr = nrep = descfree = 0; inet = NULL;
	__CPROVER_assume(st >= NETWORK_CONNECTION_STATE_NOT_CONNECTED && st <= NETWORK_CONNECTION_STATE_MOTD_RECVD); NF.connection.state = st; NF.private_data = &NC; __CPROVER_assume(ty == NETWORK_TCP || ty == NETWORK_VIRTUAL); NC.type = ty;
	__CPROVER_havoc_object(&SA); NF.connection.data.tcp.local_name = nn ? (void *)&SA : NULL; G.config = &CFG; LI.global = &G; PC.listener = &LI; PC.connection = &CONN; G.unix_domain_socket_listener = u ? &LI : NULL;
	r = default_socks_connect_fqdn(&PC, HOST, Gport);
	addr = NC.type != NETWORK_TCP || (nn && (SA.sa.sa_family == AF_INET || SA.sa.sa_family == AF_INET6)); ok = Gfound && (st != NETWORK_CONNECTION_STATE_NOT_CONNECTED || Gconn) && addr;
	__CPROVER_assert(!r && nfind == 1 && ninit == ok && nrep == ok && nerr == !ok && (!ninit || inet == &NF), "VP handed over to the network that was asked for, or refused");
	VREACH("default_socks_connect_fqdn");
}
#endif
