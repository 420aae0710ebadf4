S="libirc/line.c"
SV='z3'
def ob(name, d, loops=None, stub=(), **k):
    r = dict(name=name, file="c01_line.c", entry="H", defs=["-D" + d], enforce=[], replace=[], functions=[S + ":" + name], timeout=200, solver=SV, reach_inline=True)
    if loops: r["loops"] = {S: loops}
    if stub: r["stub"] = {S: list(stub)}
    r.update(k); return r
OBS=[
 ob("irc_line_string:order","P_STRING",{"irc_line_string":{"n":2,
   0:("__CPROVER_assigns(i, len, Gi)\n__CPROVER_loop_invariant(NN(i) && i <= NA && Gi == (int)i - 1)","VREACH(\"loop body\"); Gi = i; AX();"),
   1:("__CPROVER_assigns(i, Gi, Gph)\n__CPROVER_loop_invariant(NN(i) && i <= NA && (i == 0 ? Gph == 0 : Gi == (int)i - 1 && Gph == (i == NA ? 2 : 3)))","VREACH(\"loop body 2\"); Gi = i; AX(); Gph = 0;")}}, ["requires_colon"], functions=[S+":irc_line_string"], defs=["-DP_STRING","-DP_ORDER"]),
 ob("irc_line_string:room","P_STRING",{"irc_line_string":{"n":2,
   0:("__CPROVER_assigns(i, len, Gi)\n__CPROVER_loop_invariant(NN(i) && i <= NA && Gi == (int)i - 1 && len == PS[i] + 2 * (size_t)i + (L.origin ? LO : 0) && PS[i] <= PS[NA])","VREACH(\"loop body\"); Gi = i; AX();"),
   1:("__CPROVER_assigns(i, Gi, Gadd, Gone, CUR)\n__CPROVER_loop_invariant(NN(i) && i <= NA && PS[i] <= PS[NA] && (i == 0 ? CUR == (L.origin ? LO + 2 : 0) : Gadd <= 1 && Gone <= 2 && CUR <= PS[i] + 2 * (size_t)i + (L.origin ? LO + 2 : 0)))","VREACH(\"loop body 2\"); Gi = i; AX(); Gadd = Gone = 0;")}}, ["requires_colon"], functions=[S+":irc_line_string"], solver=None, timeout=500, defs=["-DP_STRING","-DMAXN=40"]),
 ob("requires_colon","P_COLON"),
 ob("line_add_arg","P_ADD",{"line_len":{"n":1,0:("__CPROVER_assigns(i, len, Gi)\n__CPROVER_loop_invariant(NN(i) && 0 <= i && (size_t)i <= NA && Gi == i - 1 && PS[i] <= PS[NA] && (size_t)len == 4 + (L.origin ? LO + 1 : 0) + PS[i] + i)","VREACH(\"loop body\"); Gi = i; AX();")}}, functions=[S+":line_add_arg",S+":line_len"], solver=None, timeout=400, defs=["-DP_ADD","-DMAXN=80"]),
 ob("irc_line_cmp","P_CMP",{"irc_line_cmp":{"n":1,0:("__CPROVER_assigns(i, ret, Gi, Glast)\n__CPROVER_loop_invariant(NN(i) && 0 <= i && (size_t)i <= NA && (size_t)i <= NB && Gi == i - 1 && Glast == 0 && (K < (size_t)i ==> CR[K] == 0))","VREACH(\"loop body\"); Gi = i; AX();")}}),
 ob("linedup","P_DUP",{"linedup":{"n":1,0:("__CPROVER_assigns(i, Gi, __CPROVER_object_whole(GR))\n__CPROVER_loop_invariant(NN(i) && 0 <= i && (size_t)i <= NA && Gi == i - 1 && (K < (size_t)i ==> GR[K] == &CP[K]))","VREACH(\"loop body\"); Gi = i; AX();")}}),
 ob("line_get_nick","P_NICK"),
 ob("irc_recv_line","P_RECV",stub=["irc_parse_line"]),
 ob("irc_send_line","P_SEND",stub=["irc_line_string_nl"]),
]
F=["libirc/line.c:"+f for f in ("irc_parse_line","virc_parse_line","irc_line_string","irc_line_string_nl","requires_colon","linedup","irc_line_cmp","line_get_nick","line_add_arg","line_prefix_time","virc_parse_response","irc_send_line","irc_recv_line")]
PROP = dict(obligations=OBS, drivers=[dict(file="d_line.c", harnesses=[
    dict(name="line_short", mode="exhaustive", time=20, bound="every string of up to 6 characters over ': a\\r\\n'", functions=F),
    dict(name="line_random", time=8, bound="random strings up to 60 characters"),
    dict(name="line_args", time=5, bound="random argument lists up to 6"),
    dict(name="line_response", time=3, bound="random"),
    dict(name="line_grow", time=4, bound="random"),
    dict(name="line_time", time=2, bound="random"),
    dict(name="line_io", time=4, bound="up to 10 lines through a pipe")])], trusted=[], assumptions=[])
