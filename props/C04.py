S="libirc/isupport.c"
def ob(name, d, loops=None, stub=(), extra=(), **k):
    r = dict(name=name, file="c04_isupport.c", entry="H", defs=["-D" + d] + ["-D" + x for x in extra], enforce=[], replace=[], functions=[S + ":" + name], timeout=200)
    if loops: r["loops"] = {S: {name: loops}}
    if stub: r["stub"] = {S: list(stub)}
    r.update(k); return r
def lk(name, x, inv=None):
    l = None
    if inv: l = {"n": 1, 0: ("__CPROVER_assigns(i, Gi)\n__CPROVER_loop_invariant(0 <= i && (size_t)i <= E - 1 && Gi == i - 1 && ((size_t)i < E - 1) == (PX[E + 1 + i] != 0) && %s)" % inv, "VREACH(\"loop body\"); Gi = i; __CPROVER_assume(TXT(E + 2 + i) && NOPAR(2 + i));")}
    return ob(name, "P_LOOKUP", l, ["network_info_log"], [x])
OBS = [
 lk("is_channelname", "F_CHANTYPE"), lk("is_channel_mode", "F_MODES", None), lk("is_prefix", "F_ISPREFIX"),
 lk("get_prefix_by_mode", "F_PBM", "((K >= 1 && K < 1 + (size_t)i) ==> PX[K] != mode) && (Gi >= 0 ==> PX[1 + Gi] != mode)"),
 lk("get_mode_by_prefix", "F_MBP", "((K > E && K < E + 1 + (size_t)i) ==> PX[K] != prefix) && (Gi >= 0 ==> PX[E + 1 + Gi] != prefix)"),
 lk("get_prefix_from_modes", "F_PFM", "((K >= 1 && K < 1 + (size_t)i) ==> !GM[(unsigned char)PX[K]]) && (Gi >= 0 ==> !GM[(unsigned char)PX[1 + Gi]])"),
 ob("network_chanmode_type", "P_TYPE", unwind=10),
 ob("handle_005", "P_005", {"n": 1, 0: ("__CPROVER_assigns(i, Gi, Gdone)\n__CPROVER_loop_invariant(i >= 2 && (NA < 3 ? i == 2 : (size_t)i <= NA - 1) && Gi == i - 1 && Gdone == 1)", "VREACH(\"loop body\"); Gi = i; Gdone = 0;")}, ["network_info_parse"]),
 ob("network_info_parse", "P_PARSE", {"n": 1, 0: ("__CPROVER_assigns(i, SM, SN, ST_, SU, SC, I.elist_mask_search, I.elist_inverse_mask_search, I.elist_topic_search, I.elist_usercount_search, I.elist_creation_time_search)\n__CPROVER_loop_invariant(0 <= i && (hasv ==> (size_t)i <= Lv && ((size_t)i < Lv) == (VAL[i] != 0)) && (!hasv ==> i == 0) && (SM ==> I.elist_mask_search == TRUE) && (SN ==> I.elist_inverse_mask_search == TRUE) && (ST_ ==> I.elist_topic_search == TRUE) && (SU ==> I.elist_usercount_search == TRUE) && (SC ==> I.elist_creation_time_search == TRUE) && (!SM ==> I.elist_mask_search == __CPROVER_loop_entry(I.elist_mask_search)) && (!SN ==> I.elist_inverse_mask_search == __CPROVER_loop_entry(I.elist_inverse_mask_search)) && (!ST_ ==> I.elist_topic_search == __CPROVER_loop_entry(I.elist_topic_search)) && (!SU ==> I.elist_usercount_search == __CPROVER_loop_entry(I.elist_usercount_search)) && (!SC ==> I.elist_creation_time_search == __CPROVER_loop_entry(I.elist_creation_time_search)))", "VREACH(\"loop body\"); __CPROVER_assume(TXT((size_t)i + 1)); if (VAL[i] == 'M') SM = 1; if (VAL[i] == 'N') SN = 1; if (VAL[i] == 'T') ST_ = 1; if (VAL[i] == 'U') SU = 1; if (VAL[i] == 'C') SC = 1;")}, ["network_info_log", "check_chanmodes_inconsistency"], unwind=18),
]
F=["libirc/isupport.c:"+f for f in ("network_info_parse","network_info_string","is_channelname","is_prefix","get_prefix_by_mode","get_mode_by_prefix","get_prefix_from_modes","network_chanmode_type","handle_005","check_chanmodes_inconsistency")]
PROP = dict(obligations=OBS, drivers=[dict(file="d_isupport.c", harnesses=[
    dict(name="isupport_history", time=10, bound="random sequences of up to 13 tokens", functions=F),
    dict(name="isupport_garbage", time=6, bound="random bytes, up to 8 tokens")])], trusted=[], assumptions=[])
