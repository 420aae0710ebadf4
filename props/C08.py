S="libirc/redirect.c"
def ob(name, d, fns=None, loops=None, stub=(), **k):
    r = dict(name=name, file="c08_redirect.c", entry="H", defs=["-D" + d], enforce=[], replace=[], functions=[S + ":" + f for f in (fns or [name])], timeout=200)
    if loops: r["loops"] = {S: {name: loops}}
    if stub: r["stub"] = {S: list(stub)}
    r.update(k); return r
OBS = [
 ob("is_reply", "P_REPLY", unwind=22), ob("find_query", "P_FIND", unwind=60), ob("queries", "P_TABLE", ["find_query","is_reply"], unwind=60, timeout=600),
 ob("handle_default", "P_DEFAULT"), ob("query_stack_record", "P_RECORD", ["query_stack_record","handle_topic"], stub=["find_query","handle_default"]),
 ob("query_stack_free_entry", "P_FREEENTRY"),
 ob("query_stack_match_response", "P_MATCH", loops={"n": 1, 0: ("__CPROVER_assigns(gl, ret, seenA, seenB, Grem, Gfree, S.entries)\n__CPROVER_loop_invariant(CELL(gl) && COVER(gl) && (!seenA || !MA) && (!seenB || !MB) && Grem == NULL && Gfree == NULL && S.entries == Ghead)", "VISIT(gl);")}, stub=["is_reply","query_stack_free_entry"], defs=["-DP_MATCH","-DMA=(Ra || Ea || Xa)","-DMB=(Rb || Eb || Xb)"]),
 ob("query_stack_clear", "P_CLEAR", loops={"n": 1, 0: ("__CPROVER_assigns(Nrem, Left, S.entries)\n__CPROVER_loop_invariant(Nrem == 0 && S.entries == (Left ? &C1 : NULL))\n__CPROVER_decreases(Left)", "VREACH(\"loop body\");")}, stub=["query_stack_free_entry"]),
 ob("redirect_response", "P_SEND", unwind=30, functions=["src/redirect.c:redirect_response"]),
]
F=["libirc/redirect.c:"+f for f in ("query_stack_record","query_stack_match_response","query_stack_clear","is_reply","find_query","handle_default","handle_topic")]+["src/redirect.c:redirect_response"]
PROP = dict(obligations=OBS, drivers=[dict(file="d_redirect.c", wrap=["client_send_line","clients_send"], harnesses=[
    dict(name="redirect_table", mode="exhaustive", time=20, bound="every command of the table (and an unknown one) with every numeric 1..999", functions=F),
    dict(name="redirect_history", time=6, bound="random, up to 14 queries and replies"),
    dict(name="redirect_send", time=6, bound="random, up to 8 queries and replies")])], trusted=[], assumptions=[])
