/* C13: lines over a real connection whose buffers fill up. */
#include "vp.h"
#include "internals.h"
#include "irc.h"
#include "transport.h"
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <sys/socket.h>
static int nhup, nlog, nrecv, ndis; static GString *got;
static void lg(struct irc_transport *t, const struct irc_line *l, const GError *e) { nlog++; VASSERT(e != NULL, "the reason is given"); }
static void hup(struct irc_transport *t) { nhup++; irc_transport_disconnect(t); }
static void dis(struct irc_transport *t) { ndis++; }
static gboolean rcv(struct irc_transport *t, const struct irc_line *l) { char *s = irc_line_string(l); nrecv++; g_string_append(got, s); g_string_append_c(got, '\n'); g_free(s); return TRUE; }
static void cs(struct irc_transport *t, const char *m) { VASSERT(0, "no charset"); }
static gboolean err(struct irc_transport *t, const char *m) { irc_transport_disconnect(t); return FALSE; }
static const struct irc_transport_callbacks cb = { .log = lg, .hangup = hup, .disconnect = dis, .recv = rcv, .charset_error = cs, .error = err };
static struct irc_transport *mk(int fd) { GIOChannel *ch = g_io_channel_unix_new(fd); struct irc_transport *t; g_io_channel_set_flags(ch, G_IO_FLAG_NONBLOCK, NULL); g_io_channel_set_encoding(ch, NULL, NULL); g_io_channel_set_close_on_unref(ch, TRUE); t = irc_transport_new_iochannel(ch); g_io_channel_unref(ch); irc_transport_set_callbacks(t, &cb, NULL); return t; }
VP_HARNESS(fifo)
{
	int sv[2], n = 1 + ND_BELOW(60), i, k, small = 2048, sent = 0, early = 0, freed = 0, late = 0; GString *want = g_string_new(NULL), *raw = g_string_new(NULL); struct irc_transport *t; char buf[4096]; ssize_t r;
	VASSUME(socketpair(AF_UNIX, SOCK_STREAM, 0, sv) == 0); if (ND_BOOL()) setsockopt(sv[1], SOL_SOCKET, SO_SNDBUF, &small, sizeof small);
	got = g_string_new(NULL); nhup = nlog = nrecv = ndis = 0; t = mk(sv[1]);
	for (i = 0; i < n; i++) {
		static const int lens[] = { 1, 10, 100, 400, 900, 1010, 1017, 1024, 1400, 2600 }; int len = lens[ND_BELOW(10)]; char *txt = g_malloc(len + 40); struct irc_line *l; char *args[3]; struct irc_line L; memset(&L, 0, sizeof L);
		sprintf(txt, "%d:", i); memset(txt + strlen(txt), 'a' + i % 26, len); txt[len] = 0; if (!*txt) strcpy(txt, "x");
		args[0] = "PRIVMSG"; args[1] = txt; args[2] = NULL; L.args = args; L.argc = 2; l = linedup(&L); { char *s; s = irc_line_string(l); g_string_append(want, s); g_string_append(want, "\r\n"); g_free(s); } g_free(txt);
		VASSERT(transport_send_line(t, l, NULL), "accepted while connected"); free_line(l); sent++;
		for (k = ND_BELOW(4); k > 0; k--) g_main_context_iteration(NULL, FALSE);
		if (ND_BELOW(4) == 0 && (r = recv(sv[0], buf, 1 + ND_BELOW(4096), MSG_DONTWAIT)) > 0) g_string_append_len(raw, buf, r);
		vp_note("%d ", len);
	}
	if (ND_BELOW(3) == 0) { struct irc_line *l = irc_parse_line("LATE"); early = 1; irc_transport_disconnect(t); VASSERT(ndis == 1 && !transport_send_line(t, l, NULL), "no lines after disconnecting"); free_line(l); r = send(sv[0], "HELLO\r\n", 7, MSG_NOSIGNAL); (void)r; late = 1; if (ND_BELOW(2) == 0) { free_irc_transport(t); freed = 1; } }
	for (k = 0; k < 3000; k++) { for (i = 0; i < 3; i++) g_main_context_iteration(NULL, FALSE); r = recv(sv[0], buf, sizeof buf, MSG_DONTWAIT); if (r > 0) { g_string_append_len(raw, buf, r); continue; } if (r == 0) break; if (raw->len >= want->len) break; }
	if (!freed) { VASSERT(raw->len == want->len && !strcmp(raw->str, want->str), "every line arrives in whole, once, in order"); } else VASSERT(raw->len <= want->len && !strncmp(raw->str, want->str, raw->len), "what arrives is in order");
	if (late) VASSERT(nrecv == 0, "nothing is received after disconnecting");
	if (!early) {
		/* the other way */
		GString *in = g_string_new(NULL), *exp = g_string_new(NULL); int m = ND_BELOW(10); size_t off = 0; for (i = 0; i < m; i++) { int j; g_string_append_printf(exp, ND_BOOL() ? "NOTICE n%d :x y%d\n" : "NOTICE n%d :x\xe2\x80\xa9QUIT y%d\n", i, ND_BELOW(100)); (void)j; } for (off = 0; off < exp->len; off++) { if (exp->str[off] == '\n' && ND_BOOL()) g_string_append_c(in, '\r'); g_string_append_c(in, exp->str[off]); }
		for (off = 0; off < in->len;) { size_t c = 1 + ND_BELOW(60); if (c > in->len - off) c = in->len - off; r = send(sv[0], in->str + off, c, MSG_NOSIGNAL); VASSUME(r == (ssize_t)c); off += c; for (k = ND_BELOW(3); k > 0; k--) g_main_context_iteration(NULL, FALSE); }
		for (k = 0; k < 20; k++) g_main_context_iteration(NULL, FALSE);
		VASSERT(nrecv == m && !strcmp(got->str, exp->str), "every line is received, in order"); close(sv[0]); sv[0] = -1; for (k = 0; k < 20; k++) g_main_context_iteration(NULL, FALSE); VASSERT(nhup == 1 && ndis == 1, "hung up"); g_string_free(in, TRUE); g_string_free(exp, TRUE);
	}
	if (!freed) free_irc_transport(t);
	if (sv[0] >= 0) close(sv[0]);
	for (k = 0; k < 10; k++) g_main_context_iteration(NULL, FALSE);
	g_string_free(want, TRUE); g_string_free(raw, TRUE); g_string_free(got, TRUE);
}
