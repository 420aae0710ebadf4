S="src/hooks.c"
def ob(name, d, fns=None, loops=None, **k):
    r = dict(name=name, file="c21_hooks.c", entry="H", defs=["-D" + x for x in d.split()], enforce=[], replace=[], functions=[S + ":" + f for f in (fns or [name])], timeout=200)
    if loops: r["loops"] = {S: {name: loops}}
    r.update(k); return r
INV="CELL(%(v)s) && COVER(%(v)s) && (!seenA || !Gma) && (!seenB || !Gmb) && !Grem && !Gfn && !Gfd && Gd == NULL"
RUN="CELL(%(v)s) && COVER(%(v)s) && Ca == seenA && Cb == seenB && (!Ca || Ra) && (!Cb || Rb)"
def al(v, extra): return "__CPROVER_assigns(%s, %s)\n__CPROVER_loop_invariant(" % (v, extra)
NEWCELL="__CPROVER_assume(!((%(v)s == &LA_ && seenA) || (%(v)s == &LB_ && seenB)));"
OBS=[ob("filter_cmp","P_CMP"), ob("add_filter_ex","P_ADDF",["add_filter_ex","add_log_filter","add_server_filter"]),
 ob("del_filter_ex","P_DELF",loops={"n":1,0:(al("gl","seenA, seenB, Grem, Gfn, Gfd, Gd")+INV%{"v":"gl"}+")","VREACH(\"loop body\"); VISIT(gl);")}),
 ob("filter_class_execute","P_RUN",loops={"n":1,0:(al("gl","seenA, seenB, Ca, Cb")+RUN%{"v":"gl"}+")","VREACH(\"loop body\"); "+NEWCELL%{"v":"gl"}+" VISIT(gl);")}),
 ob("new_client_hook_execute","P_HOOK P_HRUN",loops={"n":1,0:(al("l","seenA, seenB, Ca, Cb")+RUN%{"v":"l"}+")","VREACH(\"loop body\"); "+NEWCELL%{"v":"l"}+" VISIT(l);")}),
 ob("del_new_client_hook","P_HOOK P_HDEL",loops={"n":1,0:(al("l","seenA, seenB, Grem, Gfn, Gfd, Gd, new_client_hooks")+INV%{"v":"l"}+" && new_client_hooks == Ghead)","VREACH(\"loop body\"); VISIT(l);")}),
 ob("add_new_client_hook","P_HOOK"),
]
F=[S+":"+f for f in ("add_log_filter","del_log_filter","run_log_filter","add_server_filter","del_server_filter","run_server_filter","add_new_client_hook","del_new_client_hook","new_client_hook_execute")]
PROP = dict(obligations=OBS, drivers=[dict(file="d_hooks.c", harnesses=[dict(name="chains", time=6, bound="random histories of up to 20 operations on three chains", functions=F)])],
  trusted=["g_list_insert_sorted keeps a list sorted by its comparison function", "lists are finite and acyclic (a cell is visited once)"], assumptions=[])
