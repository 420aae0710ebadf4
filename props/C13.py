S="libirc/transport_ioc.c"; T="libirc/transport.c"; L="libirc/line.c"
def ob(name, d, loops=None, stub=(), fns=None, src=S, file="c13_transport.c", **k):
    r = dict(name=name, file=file, entry="H", defs=["-D" + x for x in d.split()], enforce=[], replace=[], functions=[src + ":" + x for x in (fns or [name])], timeout=200, unwind=14)
    if loops: r["loops"] = {src: {name: {"n": 1, 0: loops}}}
    if stub: r["stub"] = {src: list(stub)}
    r.update(k); return r
OBS=[
 ob("irc_transport_iochannel_send_line","P_SENDL"),
 ob("transport_send_queue","P_QUEUE",("__CPROVER_assigns(status, Qh, W, D, dirty, broken, held, nlog, nerrs, nsent, sendst, flushst, nclock, nhup, T.last_line_sent)\n__CPROVER_loop_invariant(0 <= Qh && Qh <= Qt && !held && W >= 0 && D >= 0 && W <= Qh && D <= Qh && W + D == Qh && nerrs == 0 && !nhup && (!dirty || broken) && sendst != G_IO_STATUS_EOF)\n__CPROVER_decreases(Qt - Qh)", 'VREACH("loop body");'), stub=["really_disconnect"]),
 ob("disconnect","P_DISC",fns=["irc_transport_iochannel_disconnect","really_disconnect","irc_transport_iochannel_is_connected","irc_transport_iochannel_free_data"]),
 ob("handle_transport_receive","P_RECV",("__CPROVER_assigns(l, ret, status, error, live, Rst, nrecv, nerr, ok, done, gone, backend_data->pending_disconnect)\n__CPROVER_loop_invariant(!live && ok && ret == 1 && !done && !nerr && error == NULL && !backend_data->pending_disconnect && !gone && (Rst == -1 || Rst == G_IO_STATUS_NORMAL))", 'VREACH("loop body"); nrecv = 0;'), fns=["handle_transport_receive","handle_recv_status"]),
 ob("irc_transport_iochannel_set_charset","P_CHARSET"),
 ob("irc_transport_new_iochannel","P_NEW"),
 ob("transport","P_TOP",src=T,fns=["transport_send_line","irc_transport_disconnect","transport_set_charset"]),
 ob("irc_send_line","P_SEND",src=L,file="c01_line.c",stub=["irc_line_string_nl"]),
]
PROP = dict(obligations=OBS, drivers=[dict(file="d_transport.c", harnesses=[dict(name="fifo", time=6, bound="random schedules of up to 60 lines over a socket with a small buffer", functions=[S+":"+x for x in ("irc_transport_iochannel_send_line","transport_send_queue","handle_transport_receive")])])], trusted=["GLib's buffered channels"], assumptions=["a buffered GIOChannel writes a line that fits its empty buffer in whole", "writing to a socket never reports EOF"])
