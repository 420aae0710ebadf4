S="libirc/state.c:"
F=[S+f for f in ("handle_topic","handle_332","handle_333","handle_no_topic","handle_329","handle_banlist_entry","handle_end_banlist","handle_invitelist_entry","handle_end_invitelist","handle_exceptlist_entry","handle_end_exceptlist","state_handle_data")]
def ob(fn, mn, defs, repl=("find_channel",)):
    return dict(name=fn, file="c07_info.c", entry="H", defs=defs + ["-DP_MIN=%d" % mn], enforce=[fn], replace=list(repl), functions=[S + fn], flags=["--unwind", "10"], timeout=120)
LI=["find_channel", "nicklist_add_entry", "free_nicklist"]
PROP = dict(
  obligations=[
    ob("handle_topic", 1, ["-DP_TOPIC"]), ob("handle_332", 3, ["-DP_332"]), ob("handle_333", 4, ["-DP_333"]), ob("handle_no_topic", 2, ["-DP_331"]), ob("handle_329", 3, ["-DP_329"])]
  + [ob("handle_%s_entry" % n, 3, ["-DP_ENTRY=handle_%s_entry" % n, "-DP_STARTED=%s_started" % n, "-DP_MODE=%d" % ord(m)] + (["-DP_BY"] if m == "b" else []), LI) for n, m in (("banlist", "b"), ("invitelist", "I"), ("exceptlist", "e"))]
  + [ob("handle_end_%s" % n, 2, ["-DP_END=handle_end_%s" % n, "-DP_STARTED=%s_started" % n, "-DP_MODE=%d" % ord(m)], LI) for n, m in (("banlist", "b"), ("invitelist", "I"), ("exceptlist", "e"))]
  + [ob(f, 1, ["-DP_AWAY=" + f, "-DP_AWAYV=%d" % v], []) for f, v in (("handle_nowaway", 1), ("handle_unaway", 0))]
  + [dict(name="state_handle_data", file="c07_dispatch.c", entry="H", functions=[S + "state_handle_data"], unwind=34, timeout=200)],
  drivers=[dict(file="d_state.c", harnesses=[
    dict(name="state_info", time=25, bound="random message histories up to 30 messages", functions=F),
    dict(name="state_garbage", time=12, bound="random arguments, up to 32 messages")])],
  trusted=["CBMC 6.11 C semantics and dfcc contract instrumentation", "CaDiCaL"],
  assumptions=["glib string copies, strtol/atol/time modelled as functions of their argument", "find_channel, nicklist_add_entry and free_nicklist by contract"])
