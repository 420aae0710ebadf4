/* C04: ISUPPORT tokens, prefix and mode class lookups against a reference model */
#include "vp.h"
#include "internals.h"
#include "irc.h"
#include <stddef.h>
gboolean is_prefix_mode(const struct irc_network_info *info, char mode);
#define O(f) offsetof(struct irc_network_info, f)
static const struct { const char *key; char kind; size_t off; } T[] = {
	{ "NICKLEN", 'i', O(nicklen) }, { "MAXNICKLEN", 'i', O(nicklen) }, { "USERLEN", 'i', O(userlen) }, { "HOSTLEN", 'i', O(hostlen) },
	{ "CHANNELLEN", 'i', O(channellen) }, { "MAXCHANNELLEN", 'i', O(channellen) }, { "AWAYLEN", 'i', O(awaylen) }, { "KICKLEN", 'i', O(kicklen) },
	{ "TOPICLEN", 'i', O(topiclen) }, { "WATCH", 'i', O(watch) }, { "MAXPARA", 'i', O(maxpara) }, { "MAXCHANNELS", 'i', O(maxchannels) },
	{ "MAXTARGETS", 'i', O(maxtargets) }, { "MAXBANS", 'i', O(maxbans) }, { "MODES", 'i', O(maxmodes) }, { "KEYLEN", 'i', O(keylen) },
	{ "OVERRIDE", 'f', O(operoverride) }, { "VBANLIST", 'f', O(vbanlist) }, { "REMOVE", 'f', O(remove) }, { "WALLCHOPS", 'f', O(wallchops) },
	{ "MAP", 'f', O(map) }, { "SSL", 'f', O(ssl) }, { "WALLVOICES", 'f', O(wallvoices) }, { "RFC2812", 'f', O(rfc2812) }, { "PENALTY", 'f', O(penalty) },
	{ "FNC", 'f', O(forced_nick_changes) }, { "SAFELIST", 'f', O(safelist) }, { "USERIP", 'f', O(userip) }, { "CPRIVMSG", 'f', O(cprivmsg) },
	{ "CNOTICE", 'f', O(cnotice) }, { "KNOCK", 'f', O(knock) }, { "CAPAB", 'f', O(capab) }, { "HCN", 'f', O(hcn) }, { "VCHANNELS", 'f', O(vchannels) },
	{ "WHOX", 'f', O(whox) }, { "CALLERID", 'f', O(callerid) }, { "ACCEPT", 'f', O(accept) }, { "ESILENCE", 'f', O(esilence) }, { "UHNAMES", 'f', O(uhnames) },
	{ "NAMESX", 'f', O(namesx) }, { "SECURELIST", 'f', O(securelist) },
	{ "NETWORK", 's', O(name) }, { "IRCD", 's', O(ircd) }, { "CHANLIMIT", 's', O(chanlimit) }, { "MAXLIST", 's', O(maxlist) }, { "IDCHAN", 's', O(idchan) },
	{ "STATUSMSG", 's', O(statusmsg) }, { "CHARSET", 's', O(charset) },
};
#define NT (sizeof T / sizeof *T)
static struct model { long iv[NT]; char sv[NT][40]; int sh[NT]; char prefix[64], types[40]; int cmok; char cm[4][40]; int el; int ex, inv, deaf, sil, sill; char elist[8]; int eb; char ebp[40], ebs[40]; int ebsn; } M;
static const char *pxs[] = { "(ov)@+", "(ohv)@%+", "(qaohv)~&@%+", "(o)@", "", "(ov)@", "(ov", "ov@+", "()", "(vo)+@", "(ov)@+%", "@+", ")", "(", "(ov))+" };
static const char *cms[] = { "beI,k,l,imnpst", "b,k,l,i", "IXZbegw,k,FHJLWdfjl,ABCDKMN", "b,k,l", "b,k", "", ",,,", "b,k,l,imn,x", "b", "be,,l,m" };
static int lookup(size_t off, int k) { int i; for (i = k - 1; i >= 0; i--) if (T[i].off == off) return i; return k; }
static char *mkval(char *b, int kind)
{
	if (kind == 'i') { sprintf(b, "%s%d", ND_BELOW(8) ? "" : "-", ND_BELOW(1000)); return b; }
	ND_STR(b, 12, "abc#:1,&+@"); VASSUME(!strpbrk(b, " \r\n")); return b;
}
static void step(struct irc_network_info *info)
{
	char tok[120], v[64]; int hasv, k; 
	switch (ND_BELOW(9)) {
	case 0: case 1: case 2: case 3: {
		int i = ND_BELOW(NT), j = lookup(T[i].off, i); hasv = ND_BELOW(6) != 0; mkval(v, T[i].kind);
		if (T[i].kind == 'f') hasv = ND_BELOW(6) == 0;
		sprintf(tok, hasv ? "%s=%s" : "%s", T[i].key, v);
		if (T[i].kind == 'i') M.iv[j] = hasv ? atoi(v) : 0;
		else if (T[i].kind == 'f') M.iv[j] = 1;
		else { M.sh[j] = hasv; strcpy(M.sv[j], hasv ? v : ""); }
		break; }
	case 4: { const char *p = pxs[ND_BELOW(15)], *e = strchr(p, ')'); hasv = ND_BELOW(8) != 0; sprintf(tok, hasv ? "PREFIX=%s" : "PREFIX", p);
		if (!hasv) M.prefix[0] = 0;
		else if (!*p || (*p == '(' && e && strlen(e + 1) == (size_t)(e - p - 1))) strcpy(M.prefix, p);
		break; }
	case 5: { const char *c = cms[ND_BELOW(10)]; int n = 0; char b[64], *q = b, *z; hasv = ND_BELOW(8) != 0; sprintf(tok, hasv ? "CHANMODES=%s" : "CHANMODES", c);
		M.cmok = 0;
		if (hasv) { strcpy(b, c); while (*c && n < 4) { z = n < 3 ? strchr(q, ',') : NULL; if (z) *z = 0; strcpy(M.cm[n++], q); if (!z) break; q = z + 1; } M.cmok = n == 4; }
		break; }
	case 6: { static const char *cs[] = { "ascii", "rfc1459", "strict-rfc1459", "foo", "" }; static const int els[] = { 90, 94, 93, 94, 94 }; k = ND_BELOW(5); hasv = ND_BELOW(8) != 0;
		sprintf(tok, hasv ? "CASEMAPPING=%s" : "CASEMAPPING", cs[k]); M.el = hasv ? els[k] : 94; break; }
	case 7: hasv = ND_BELOW(8) != 0; ND_STR(v, 5, "#&+!"); VASSUME(!strpbrk(v, " \r\n")); sprintf(tok, hasv ? "CHANTYPES=%s" : "CHANTYPES", v); strcpy(M.types, hasv ? v : ""); break;
	default: hasv = ND_BOOL(); k = ND_BELOW(6); mkval(v, 's'); if (k == 5) mkval(v, 'i'); v[ND_BELOW(3)] = 0;
		{ static const char *ks[] = { "EXCEPTS", "INVEX", "DEAF", "ELIST", "EXTBAN", "SILENCE" };
		if (k == 3) ND_STR(v, 4, "MNTUCx"); VASSUME(!strpbrk(v, " \r\n"));
		sprintf(tok, hasv ? "%s=%s" : "%s", ks[k], v);
		if (k < 3) { int *w = k == 0 ? &M.ex : k == 1 ? &M.inv : &M.deaf; if (!hasv) *w = "eID"[k]; else if (strlen(v) <= 1) *w = (unsigned char)v[0]; }
		if (k == 3 && hasv) { char *c; for (c = v; *c; c++) if (strchr("MNUCT", *c)) M.elist[strchr("MNUCT", *c) - "MNUCT"] = 1; }
		if (k == 4) { if (!hasv) { strcpy(M.ebp, "~"); strcpy(M.ebs, "cqr"); M.eb = M.ebsn = 1; } else { char *c = strchr(v, ','); M.eb = v[0] != 0; M.ebsn = c != NULL; strcpy(M.ebs, c ? c + 1 : ""); if (c) *c = 0; strcpy(M.ebp, v); if (c) *c = ','; } }
		if (k == 5) { M.sil = 1; if (hasv) M.sill = atoi(v); } }
		break;
	}
	vp_note("token %s\n", tok);
	network_info_parse(info, tok);
}
static void check_info(struct irc_network_info *i)
{
	size_t k; int c, j; const char *e = strchr(M.prefix, ')'), *sg = e ? e + 1 : M.prefix, *ml = e ? M.prefix + 1 : ""; int n = e ? e - M.prefix - 1 : 0;
	static const char *dm[] = { "beI", "k", "l", "imnpsta" };
	for (k = 0; k < NT; k++) if (lookup(T[k].off, k) == (int)k) {
		char *p = (char *)i + T[k].off;
		if (T[k].kind != 's') VASSERT(*(int *)p == M.iv[k], "value last announced");
		else VASSERT(M.sh[k] ? *(char **)p != NULL && !strcmp(*(char **)p, M.sv[k]) : *(char **)p == NULL, "text last announced");
	}
	VASSERT(!strcmp(i->prefix, M.prefix), "well-formed PREFIX last announced"); VASSERT(!strcmp(i->chantypes, M.types), "channel types last announced");
	VASSERT((unsigned char)i->excepts_mode == M.ex && (unsigned char)i->invex_mode == M.inv && (unsigned char)i->deaf_mode == M.deaf, "special modes");
	VASSERT(i->silence == M.sil && i->silence_limit == M.sill, "SILENCE");
	VASSERT(!!i->elist_mask_search == M.elist[0] && !!i->elist_inverse_mask_search == M.elist[1] && !!i->elist_usercount_search == M.elist[2] && !!i->elist_creation_time_search == M.elist[3] && !!i->elist_topic_search == M.elist[4], "ELIST");
	VASSERT((i->extban_prefix != NULL) == M.eb && (!M.eb || !strcmp(i->extban_prefix, M.ebp)) && (!M.eb || ((i->extban_supported != NULL) == M.ebsn && (!M.ebsn || !strcmp(i->extban_supported, M.ebs)))), "EXTBAN");
	VASSERT((i->chanmodes != NULL) == M.cmok, "four mode classes or none");
	for (c = 1; c < 256; c++) {
		char nm[3] = { (char)c, 'x', 0 }; int cl = 0; char want; const char *q;
		VASSERT(!!is_channelname(nm, i) == (strchr(M.types, (char)c) != NULL), "channel type");
		for (j = 3; j >= 0; j--) if (strchr(M.cmok ? M.cm[j] : dm[j], (char)c)) cl = j + 1;
		VASSERT((int)network_chanmode_type((char)c, i) == cl, "mode class");
		VASSERT(!!is_prefix((char)c, i) == (strchr(sg, (char)c) != NULL), "sign");
		if (n || !M.prefix[0]) {
			q = memchr(ml, c, n); want = q ? sg[q - ml] : ' ';
			VASSERT(get_prefix_by_mode((char)c, i) == want, "sign of a mode");
			q = strchr(sg, (char)c); want = q ? ml[q - sg] : 0;
			VASSERT(get_mode_by_prefix((char)c, i) == want, "mode of a sign");
		}
	}
	VASSERT(!is_channelname("", i) && !is_prefix(0, i), "nothing is no channel and no sign");
	{ irc_modes_t m; char want = 0; memset(m, 0, sizeof m); for (k = ND_BELOW(4); k > 0; k--) m[(unsigned char)ND_CHR("ovhqab")] = 1;
	  for (j = 0; j < n && !want; j++) if (m[(unsigned char)ml[j]]) want = sg[j];
	  VASSERT(get_prefix_from_modes(i, m) == want, "highest status is shown"); }
}
static void init_model(void) { memset(&M, 0, sizeof M); strcpy(M.prefix, "(ov)@+"); strcpy(M.types, "#&"); M.el = 94; }
VP_HARNESS(isupport_history)
{
	struct irc_network_info *i = network_info_init(), *j; int n; char *s, *t, **w; int k;
	init_model(); 
	for (n = ND_BELOW(14); n > 0; n--) step(i);
	check_info(i);
	VASSERT(!!irccmp(i, "a[^", "A{~") == (M.el != 94) && !!irccmp(i, "[", "{") == (M.el < 93) && !irccmp(i, "x", "X"), "case mapping");
	/* what we announce to clients means the same */
	s = network_info_string(i); w = g_strsplit(s, " ", 0); j = network_info_init();
	for (k = 0; w[k]; k++) network_info_parse(j, w[k]);
	if (M.eb && !M.ebsn) { M.ebsn = 1; M.ebs[0] = 0; }
	check_info(j);
	VASSERT(!!irccmp(j, "a[^", "A{~") == (M.el != 94) && !!irccmp(j, "[", "{") == (M.el < 93), "announced case mapping");
	t = network_info_string(j); VASSERT(!strcmp(s, t), "announcement is stable");
	g_strfreev(w); g_free(s); g_free(t); free_network_info(i); free_network_info(j);
}
/* any bytes at all */
static const char *gk[] = { "CASEMAPPING", "NETWORK", "CHANTYPES", "CHANMODES", "CHANLIMIT", "EXCEPTS", "INVEX", "ELIST", "DEAF", "EXTBAN", "MAXLIST", "PREFIX", "SILENCE", "NICKLEN", "STATUSMSG", "", "-PREFIX", "WATCH", "IDCHAN", "CHARSET" };
VP_HARNESS(isupport_garbage)
{
	struct irc_network_info *i = network_info_init(); int n, c; char v[24], tok[64], *s; irc_modes_t m;
	memset(m, ND_BOOL(), sizeof m);
	if (ND_BOOL()) { i->supported_channel_modes = g_strdup("beIk"); i->supported_user_modes = g_strdup("iw"); }
	for (n = 1 + ND_BELOW(8); n > 0; n--) {
		ND_STR(v, 20, "()@+ov,,=#beIkl~"); sprintf(tok, "%s%s%s", gk[ND_BELOW(20)], ND_BELOW(6) ? "=" : "", v); vp_note("token %s\n", tok);
		network_info_parse(i, tok);
		VASSERT(i->prefix && i->chantypes, "always usable");
		for (c = 0; c < 256; c++) { char nm[2] = { (char)c, 0 }; is_channelname(nm, i); is_prefix((char)c, i); get_prefix_by_mode((char)c, i); get_mode_by_prefix((char)c, i); network_chanmode_type((char)c, i); is_channel_mode(i, (char)c); is_user_mode(i, (char)c); }
		get_prefix_from_modes(i, m);
		s = network_info_string(i); g_free(s);
	}
	free_network_info(i);
}
