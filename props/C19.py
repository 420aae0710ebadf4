S="src/client.c"
def ob(name, d, loops=None, stub=(), **k):
    r = dict(name=name, file="c19_hostmask.c", entry="H", defs=["-D" + x for x in d.split()], enforce=[], replace=[], functions=[S + ":" + name], timeout=300)
    if loops: r["loops"] = {S: {name: loops}}
    if stub: r["stub"] = {S: list(stub)}
    r.update(k); return r
OBS=[
 ob("irc_line_replace_hostmask","P_REPL",loops={"n":1,0:("__CPROVER_assigns(i, Gi, KM, Gtn, Tn, Gstar, Gmatch, __CPROVER_object_whole(TB), __CPROVER_object_whole(TC), __CPROVER_object_whole(T302), __CPROVER_object_whole(US))\n__CPROVER_loop_invariant(0 <= i && (size_t)i <= NU && Gi == i - 1 && US[NU] == NULL && NNU(i) && (KU < NU ==> US[KU] == ((size_t)i > KU && KM ? NEWU : UPOOL + KU)))","VREACH(\"loop body\"); Gi = i; __CPROVER_assume((size_t)i + 1 == KU || NNU(i + 1)); ENTRY();")}),
 ob("clients_send","P_LIST",loops={"n":1,0:("__CPROVER_assigns(g, seenA, seenB, Sa, Sb)\n__CPROVER_loop_invariant(CELL(g) && COVER(g) && Sa == (seenA && Gx != 1) && Sb == (seenB && Gx != 2))","VREACH(\"loop body\"); __CPROVER_assume(!((g == &LA_ && seenA) || (g == &LB_ && seenB))); VISIT(g);")},stub=["client_forward_from_server"]),
 ob("client_forward_from_server","P_FWD",stub=["irc_line_replace_hostmask"]),
]
F=[S+":irc_line_replace_hostmask",S+":clients_send"]
PROP = dict(obligations=OBS, drivers=[dict(file="d_hostmask.c", wrap=["client_send_line"], harnesses=[
    dict(name="hostmask", time=6, bound="random lines of up to 9 arguments", functions=F), dict(name="deliver", time=4, bound="up to 4 clients")])], trusted=["lists are finite and acyclic"], assumptions=[])
