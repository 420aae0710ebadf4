S="libirc/connection.c"; N="src/network.c"
def ob(name, d, stub=(), loops=None, fns=None, **k):
    r = dict(name=name, file="c20_connection.c", entry="H", defs=["-D" + x for x in d.split()], enforce=[], replace=[], functions=[S + ":" + x for x in (fns or [name])], timeout=200, unwind=14)
    if loops: r["loops"] = {S: {name: {"n": 1, 0: loops}}}
    r["stub"] = {S: ["network_log", "network_report_disconnect", "network_send_args"] + list(stub)}
    r.update(k); return r
OBS=[
 ob("close_server","P_CLOSE TCPLIKE",fns=["close_server","disconnect_network","free_tcp_names"]),
 ob("close_server:virtual","P_CLOSE VIRT",fns=["close_server"]),
 ob("reconnect","P_RECON",["close_server","network_get_next_tcp_server","connect_server"],fns=["reconnect","schedule_reconnect","on_transport_hup","on_transport_error"]),
 ob("connect_network","P_CONNECT",["connect_server"],fns=["connect_network","delayed_connect_server","schedule_reconnect"]),
 ob("server_finish_connect","P_FINISH",["reconnect","network_set_iochannel"]),
 ob("ping_server","P_PING",["reconnect"]),
 ob("server_send_login","P_LOGIN"),
 ob("network_send_line","P_SEND SEPU",fns=["network_send_line","network_send_line_direct"]),
 ob("network_get_next_tcp_server","P_NEXT",fns=["network_get_next_tcp_server","irc_network_select_next_server"]),
 ob("network_set_iochannel","P_SETIO",["server_send_login"],fns=["network_set_iochannel","on_transport_recv"]),
 ob("connect_current_tcp_server","P_TCP",["network_get_next_tcp_server","server_finish_connect","bindsock","reconnect"],("__CPROVER_assigns(sock, ioc, res, connect_finished, left, AI, nsock, nch, refs, bound, vp_errno, connected)\n__CPROVER_loop_invariant(left >= 0 && left <= total && (left > 0 ? res == &AI : res == NULL) && nsock == 0 && nch == 0 && refs == 0 && connected == 0 && ioc == NULL && connect_finished == 1)\n__CPROVER_decreases(left)", "VISIT;")),
]
INV2 = ("__CPROVER_assigns(i, ncmd, clive, CL.argc)\n__CPROVER_loop_invariant(i >= 0 && i <= NCMD && ncmd == i && !clive && NCMD <= MAXC && AC[NCMD] == NULL)\n__CPROVER_decreases(NCMD - i)", 'VREACH("loop body");')
INV3 = ("__CPROVER_assigns(gl, left, owed, CC, CELL)\n__CPROVER_loop_invariant(left >= 0 && left <= total && (left > 0 ? gl == &CELL : gl == NULL) && !owed)\n__CPROVER_decreases(left)", "VISIT;")
def nob(name, d, stub=(), loops=None, fns=None, **k):
    r = dict(name=name, file="c20_network.c", entry="H", defs=["-D" + d], enforce=[], replace=[], functions=[N + ":" + x for x in (fns or [name])], timeout=200, unwind=14)
    if loops: r["loops"] = {N: {name: loops}}
    if stub: r["stub"] = {N: list(stub)}
    r.update(k); return r
OBS += [
 nob("process_from_server","P_FROM",["network_update_isupport"],{"n":2,0:INV2,1:INV3},fns=["process_from_server","network_process_ctcp_request"]),
 nob("process_to_server","P_TO"),
 nob("handle_network_disconnect","P_END",["new_linestack"],fns=["handle_network_disconnect","handle_network_state_set"]),
 nob("get_login_details","P_DETAILS"),
]
PROP = dict(obligations=OBS, drivers=[dict(file="d_connect.c", wrap=["time","g_timeout_add","connect"], harnesses=[dict(name="servers", time=8, bound="random histories of up to 42 events with up to 3 servers on the loopback interface", functions=[S+":"+x for x in ("connect_network","connect_current_tcp_server","close_server","reconnect","ping_server","server_send_login")]+[N+":process_from_server","src/gen_config.c:network_update_config"])])], trusted=["the kernel's sockets", "GLib's main loop"], assumptions=["writing to a socket never reports EOF", "up to 20 commands are configured (process_from_server)", "members of the union of TCP and virtual connection data that aren't in use aren't looked at (CBMC: the two are kept apart)"])
