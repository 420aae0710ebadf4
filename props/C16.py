S="src/nickserv.c"
def ob(name, d, stub=(), loops=None, fns=None, **k):
    r = dict(name=name, file="c16_nickserv.c", entry="H", defs=["-D" + d], enforce=[], replace=[], functions=[S + ":" + x for x in (fns or [name])], timeout=200, unwind=22)
    if loops: r["loops"] = {S: {name: {"n": 1, 0: loops}}}
    if stub: r["stub"] = {S: list(stub)}
    r.update(k); return r
OBS=[
 ob("nickserv_find_nick","P_FIND",loops=("__CPROVER_assigns(gl, pass, left, em, es, spec, wild, E, E0, CELL)\n__CPROVER_loop_invariant(left >= 0 && left <= total && (left > 0 ? gl == &CELL : gl == NULL) && spec == NULL && pass == wild)\n__CPROVER_decreases(left)", "VISIT;")),
 ob("cache_nickserv_pass","P_CACHE",["nickserv_find_nick"],("__CPROVER_assigns(gl, e, left, em, es, spec, wild, E, E0, CELL)\n__CPROVER_loop_invariant(left >= 0 && left <= total && (left > 0 ? gl == &CELL : gl == NULL) && spec == NULL && E.pass == E0.pass && E.nick == E0.nick && E.network == E0.network)\n__CPROVER_decreases(left)", "VISIT;")),
 ob("nickserv_identify_me","P_IDENT",["nickserv_find_nick"],fns=["nickserv_identify_me","nickserv_nick"]),
 ob("log_data","P_LOG",["nickserv_find_nick","cache_nickserv_pass","nickserv_identify_me"],fns=["log_data","nickserv_nick"]),
 ob("nickserv_save","P_SAVE",fns=["nickserv_save","nickserv_load"],unwind=302),
]
PROP = dict(obligations=OBS, drivers=[dict(file="d_nickserv.c", wrap=["network_send_args"], harnesses=[dict(name="nickserv", time=5, bound="random histories of up to 33 events on two networks", functions=[S+":"+x for x in ("log_data","cache_nickserv_pass","nickserv_find_nick","nickserv_identify_me","nickserv_save","nickserv_load")]+["src/keyfile.c:keyfile_read_file","src/keyfile.c:keyfile_write_file"])])], trusted=[], assumptions=["commands, nicks and NickServ messages are compared over their first 9 characters (log_data)"])
