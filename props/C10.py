S="src/listener.c"
def ob(name, d, loops=None, stub=(), **k):
    r = dict(name=name, file="c10_gate.c", entry="H", defs=["-D" + x for x in d.split()], enforce=[], replace=[], functions=[S + ":" + name], timeout=200)
    if loops: r["loops"] = {S: {name: loops}}
    r["stub"] = {S: list(stub) + ["listener_log"]}
    r.update(k); return r
OBS=[
 ob("listener_check_username_password","P_CHECK",loops={"n":1,0:("__CPROVER_assigns(gl, seenA, seenB)\n__CPROVER_loop_invariant(CELL(gl) && COVER(gl) && !(seenA && MA) && !(seenB && MB))","VREACH(\"loop body\"); VISIT(gl);")}),
 ob("default_socks_auth_simple","P_SIMPLE",stub=["listener_check_username_password"]),
 ob("handle_client_line","P_LINE",stub=["listener_check_username_password"],unwind=22),
 ob("default_socks_connect_fqdn","P_FQDN",unwind=22),
]
PROP = dict(obligations=OBS, drivers=[dict(file="d_listener.c", wrap=["client_init_iochannel","find_network_by_hostname","connect_network","gss_import_name","gss_acquire_cred"], harnesses=[dict(name="login", time=6, bound="up to 4 lines in random pieces, random rules and passwords", functions=["src/listener.c:handle_client_line","src/listener.c:listener_check_username_password","libirc/listener.c:handle_client_detect","libirc/listener.c:handle_client_receive"]), dict(name="socks", time=5, bound="random negotiations", functions=["src/listener.c:default_socks_auth_simple","src/listener.c:default_socks_connect_fqdn"])])], trusted=["lists are finite and acyclic"], assumptions=[])
