F=["libirc/state.c:"+f for f in ("handle_join","handle_part","handle_kick","handle_quit","handle_nick","handle_namreply","handle_end_names","find_add_channel_nick","free_channel_nick","free_network_nick","network_nick_set_hostmask","network_nick_set_nick","state_handle_data")]
S="libirc/state.c:"
def L(fn, v, extra=""):
    return {"libirc/state.c": {fn: {0: ("__CPROVER_assigns(%s, seenA, seenB)\n__CPROVER_loop_invariant(CELL(%s) && COVER(%s) && (!seenA || cmpA != 0) && (!seenB || cmpB != 0)%s)" % (v, v, v, extra), "VISIT(%s);" % v)}}}
LFCN = L("find_channel_nick", "l"); 
a = LFCN["libirc/state.c"]["find_channel_nick"]
a[1] = a.pop(0)
a[0] = ("__CPROVER_assigns(realname, Gk)\n__CPROVER_loop_invariant(Gk <= LA && realname == Gname0 + Gk)\n__CPROVER_decreases(LA - Gk)", "__CPROVER_assert(PREF(Gname0[Gk]), \"only prefix characters are skipped\"); Gk++;")
def ob(name, d, loops, repl, **k):
    return dict(dict(name=name, file="c06_find.c", entry="H", defs=["-D" + d], enforce=[name], replace=repl, loops=loops, functions=[S + name], timeout=300), **k)
def mob(fn, d, ass, inv, repl, ghost="", arr="GC", n="NC", arr2=False, **k):
    return ob(fn, d, {"libirc/state.c": {fn: {0: ("__CPROVER_assigns(i, Gi%s, %s)\n__CPROVER_loop_invariant(0 <= i && (size_t)i <= %s%s && Gi == i - 1 && %s)" % (
        {"handle_join": ", c, ni"}.get(fn, ""), ass, n, " && (size_t)i <= NN_" if arr2 else "", inv), "VREACH(\"loop body\"); Gi = i; " + ghost)}}}, repl, **dict(dict(file="c06_members.c"), **k))
PROP = dict(
  obligations=[
    ob("find_channel", "P_FC", L("find_channel", "cl"), ["irccmp"]),
    ob("find_channel_nick", "P_FCN", LFCN, ["irccmp", "is_prefix"]),
    ob("find_network_nick", "P_FNN", L("find_network_nick", "gl"), ["irccmp"]),
    ob("find_nicklist_entry", "P_FNE", L("find_nicklist_entry", "gl"), ["strcmp"]),
  ] + [
    ob("find_add_channel_nick", "P_FACN", {"libirc/state.c": {"find_add_channel_nick": {
        0: ("__CPROVER_assigns(realname, Gk)\n__CPROVER_loop_invariant(Gk <= LA && realname == Gname0 + Gk)\n__CPROVER_decreases(LA - Gk)", "__CPROVER_assert(PREF(Gname0[Gk]), \"only prefix characters are skipped\"); Gk++;"),
        1: ("__CPROVER_assigns(name, Gj, Gmodeset)\n__CPROVER_loop_invariant(Gj <= Gk && name == Gname0 + Gj)\n__CPROVER_decreases(Gk - Gj)", "__CPROVER_assert(Gj < Gk, \"prefixes only\"); Gj++;")}}}, [], file="c06_members.c", enforce=[], stub={"libirc/state.c": ["find_channel_nick","find_add_network_nick","modes_change_mode"]}),
    ob("free_channel_nick", "P_FREECN", {}, ["free_network_nick"], file="c06_members.c", enforce=[]),
    ob("find_add_network_nick", "P_FANN", {}, ["find_network_nick"], file="c06_members.c", enforce=[]),
    ob("find_add_channel", "P_FAC", {}, ["find_channel"], file="c06_members.c", enforce=[]),
    mob("handle_join", "P_JOIN", "Gstage", "Gstage == 0", [], enforce=[], stub={"libirc/state.c": ['find_add_channel', 'find_add_channel_nick', 'network_nick_set_hostmask']}),
    mob("handle_part", "P_PART", "Gstage, Gc, Gn, Gfn, Gfc, c, n", "PARTDONE", [], ghost="Gstage = 0;", enforce=[], stub={"libirc/state.c": ['find_channel', 'find_channel_nick', 'free_channel_nick', 'free_channel_state']}),
    mob("handle_kick", "P_KICK", "Gstage, Gc, Gn, Gfn, Gfc, Gme, Gmk, c, n", "KICKDONE", [], ghost="Gstage = 0;", arr2=True, enforce=[], stub={"libirc/state.c": ["find_channel", "find_channel_nick", "free_channel_nick", "free_channel_state"]}),
    mob("handle_namreply", "P_NAMREPLY", "Gpend", "Gpend == 0", [], arr="GN", n="NN_", enforce=[], stub={"libirc/state.c": ['find_channel', 'free_names', 'find_add_channel_nick']}),
    ob("handle_end_names", "P_ENDNAMES", {}, ["find_channel"], file="c06_members.c"),
    ob("handle_quit", "P_QUIT", {"libirc/state.c": {"handle_quit": {0: "__CPROVER_assigns(ST.me.channel_nicks)\n__CPROVER_loop_invariant(ST.me.channel_nicks == NULL || ST.me.channel_nicks == &LA_ || ST.me.channel_nicks == &LB_)"}}}, ["find_network_nick", "free_network_nick", "free_channel_nick"], file="c06_members.c"),
    ob("handle_nick", "P_NICK", {}, ["find_network_nick", "find_add_network_nick", "free_network_nick", "network_nick_set_nick"], file="c06_members.c"),
    ob("handle_privmsg", "P_PRIVMSG", {}, ["irccmp", "find_add_network_nick"], file="c06_members.c"),
  ],
  drivers=[dict(file="d_state.c", harnesses=[
    dict(name="state_membership", time=25, bound="random message histories up to 36 messages", functions=F),
    dict(name="state_garbage", time=12, bound="random arguments, up to 32 messages")])],
  trusted=[], assumptions=[])
