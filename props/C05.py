F=["libirc/state.c:"+f for f in ("handle_mode","channel_state_change_mode","string2mode","mode2string","modes_change_mode","handle_324","handle_umodeis","handle_banlist_entry","handle_namreply")]
PROP = dict(
  obligations=[],
  drivers=[dict(file="d_state.c", harnesses=[
    dict(name="modes_change_all", mode="exhaustive", time=10, bound="all 256 mode bytes"),
    dict(name="modes_string", time=8, bound="random mode strings up to 12 characters", functions=F),
    dict(name="state_modes", time=20, bound="random message histories up to 30 messages", functions=F),
    dict(name="state_garbage", time=12, bound="random arguments, up to 32 messages")])],
  trusted=[], assumptions=[])

L_S2M = {"libirc/state.c": {"string2mode": {"n": 1, 0: (
 "__CPROVER_assigns(modes, action, Gact, Gval, __CPROVER_object_whole(GM))\n"
 "__CPROVER_loop_invariant(__CPROVER_same_object(modes, G0) && __CPROVER_POINTER_OFFSET(modes) <= LA)\n"
 "__CPROVER_loop_invariant((action == 0 || action == 1) && action == Gact && ar[K] == Gval)\n"
 "__CPROVER_decreases(LA - __CPROVER_POINTER_OFFSET(modes))",
 "if (*modes == '+') Gact = 1; else if (*modes == '-') Gact = 0; else if ((unsigned char)*modes == K) Gval = Gact;")}}}
L_M2S = {"libirc/state.c": {"mode2string": {"n": 1, 0: (
 "__CPROVER_assigns(i, pos, Gpos, __CPROVER_object_whole(ret))\n"
 "__CPROVER_loop_invariant(0 <= i && i <= MAXMODES && 0 <= pos && pos <= i)\n"
 "__CPROVER_loop_invariant((i > K && GM[K]) ==> (0 <= Gpos && Gpos < pos && ret[Gpos] == (char)K))\n"
 "__CPROVER_loop_invariant((pos == 0) ==> (i <= K || !GM[K]))\n"
 "__CPROVER_loop_invariant(pos > 0 ==> ret[0] != 0)\n"
 "__CPROVER_decreases(MAXMODES - i)", "if (i == K && GM[K]) Gpos = pos;")}}}
LI = ("__CPROVER_assigns(i, t, arg%s, Gi, Gsign, Garg, Gpend, Gstop)\n"
 "__CPROVER_loop_invariant(0 <= i && (size_t)i <= LA && (t == 0 || t == 1) && t == Gsign && Gi == i - 1 && Gpend == 0 && Gstop == 0)\n"
 "__CPROVER_loop_invariant(arg == Garg && 3 <= arg && (size_t)arg <= NARG)\n"
 "__CPROVER_decreases(LA - i)")
GH = "Gi = i; if (GS[i] == '+') Gsign = 1; else if (GS[i] == '-') Gsign = 0; else Gpend = 1;"
L_HM = {"libirc/state.c": {"handle_mode": {"n": 2, 0: (LI % ", ret", GH), 1: (LI % "", GH)}}}
S = "libirc/state.c:"
PROP["obligations"] = [
  dict(name="modes_change_mode", file="c05_modes.c", entry="H", defs=["-DP_CHANGE"], enforce=["modes_change_mode"], functions=[S + "modes_change_mode"]),
  dict(name="string2mode", file="c05_modes.c", entry="H", defs=["-DP_S2M"], enforce=["string2mode"], replace=["modes_change_mode", "strlen", "memset"], loops=L_S2M, functions=[S + "string2mode"], timeout=300, weight=5),
  dict(name="mode2string", file="c05_modes.c", entry="H", defs=["-DP_M2S"], enforce=["mode2string"], replace=["strlen", "vp_printf"], loops=L_M2S, functions=[S + "mode2string"], timeout=300, weight=5),
  dict(name="channel_state_change_mode", file="c05_modes.c", entry="H", defs=["-DP_CHG"], enforce=["channel_state_change_mode"],
     replace=["network_chanmode_type", "is_prefix_mode", "nicklist_add_entry", "nicklist_remove_entry", "find_channel_nick", "modes_change_mode", "vp_strdup", "vp_free", "vp_time", "network_state_log"], functions=[S + "channel_state_change_mode"], timeout=300, weight=5),
  dict(name="handle_mode", file="c05_modes.c", entry="H", defs=["-DP_HMODE"], enforce=["handle_mode"],
     replace=["is_channelname", "find_channel", "line_get_nick", "find_network_nick", "find_add_network_nick", "channel_state_change_mode", "modes_change_mode", "strcmp", "vp_free"], loops=L_HM, functions=[S + "handle_mode"], timeout=300, weight=5),
]
