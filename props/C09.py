S="src/ctcp.c"; R="src/ctcp_redirect.c"
def ob(name, d, f, loops=None, stub=(), **k):
    r = dict(name=name, file="c09_ctcp.c", entry="H", defs=["-D" + x for x in d.split()], enforce=[], replace=[], functions=[f + ":" + name], timeout=200)
    if loops: r["loops"] = {f: {name: loops}}
    if stub: r["stub"] = {f: list(stub)}
    r.update(k); return r
OBS=[
 ob("ctcp_process_request","P_REQ",S,loops={"n":2,0:("__CPROVER_assigns(gl, seenA, seenB, ret, Ca, Cb)\n__CPROVER_loop_invariant(CELL(gl) && COVER(gl) && !ret && !Ca && !Cb && !(seenA && Gma) && !(seenB && Gmb))","VREACH(\"loop body\"); VISIT(gl);"),1:("__CPROVER_assigns(i, ret, Cbi, bi_mask)\n__CPROVER_loop_invariant(i >= 0 && i < sizeof(builtins) / sizeof(*builtins) && ret == ((seenA && Gma) || (seenB && Gmb)) && (ret ? i == 0 : Gb >= i) && !Cbi && !bi_mask)","VREACH(\"loop body\");")},
    stub=["handle_version","handle_clientinfo","handle_source","handle_ping","handle_finger","handle_time","ctcp_reply"]),
 ob("get_ctcp_command","P_CMD",R),
 ob("ctcp_client_request_record","P_REC",R,stub=["get_ctcp_command"]),
 ob("ctcp_network_redirect_response","P_REDIR",R,stub=["get_ctcp_command"],loops={"n":1,0:("__CPROVER_assigns(gl, seenA, seenB, nsend, nrem, reqfree, frees, nickfrees, to, rem, ctcp_request_queue)\n__CPROVER_loop_invariant(CELL(gl) && COVER(gl) && !nsend && !nrem && !reqfree && !frees && !nickfrees && to == NULL && rem == NULL && ctcp_request_queue == Ghead && !(seenA && MA) && !(seenB && MB))","VREACH(\"loop body\"); VISIT(gl);")}),
]
PROP = dict(obligations=OBS, drivers=[dict(file="d_ctcp.c", includes=["src/ctcp.c"], wrap=["network_send_args","client_send_line"], harnesses=[
    dict(name="answer", time=5, bound="16 commands, 5 arguments, up to 4 registered handlers", functions=[S+":"+f for f in ("ctcp_process_request","ctcp_reply","toarg","ctcp_register_handler","handle_version","handle_clientinfo","handle_source","handle_ping","handle_finger","handle_time")]),
    dict(name="route", time=5, bound="random histories of up to 12 requests and replies", functions=[R+":"+f for f in ("get_ctcp_command","ctcp_client_request_record","ctcp_network_redirect_response")])])], trusted=["lists are finite and acyclic"], assumptions=[])
