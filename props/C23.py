S="libirc/client.c"
VAR=["client_log","client_send_response","client_send_args","client_send_args_ex"]
def ob(name, d, loops=None, stub=(), **k):
    r = dict(name=name, file="c23_state.c", entry="H", defs=["-D" + x for x in d.split()], enforce=[], replace=[], functions=[S + ":" + name], timeout=300, unwind=14)
    if loops: r["loops"] = {S: {name: {"n":1,0:loops}}}
    r["stub"] = {S: VAR + list(stub)}
    r.update(k); return r
def lst(v, assigns, inv, new=True, ghost=""):
    return ("__CPROVER_assigns(%s, seenA, seenB, %s)\n__CPROVER_loop_invariant(CELL(%s) && COVER(%s) && %s)" % (v, assigns, v, v, inv), 'VREACH("loop body"); __CPROVER_assume(!((%(v)s == &LA_ && seenA) || (%(v)s == &LB_ && seenB))); VISIT(%(v)s); %(g)s' % dict(v=v, g=ghost))
OBS=[
 ob("client_send_channel_state","P_SEQ P_CHST",stub=["client_send_topic","client_send_nameslist","client_get_own_hostmask"]),
 ob("client_send_topic","P_SEQ P_TOPIC",stub=["client_get_own_hostmask"]),
 ob("client_send_state","P_SEQ P_STATE",lst("cl","ch, stA, stB, nfail","stA == seenA && stB == seenB && !nfail && !mdone"),["client_send_channel_state","client_get_own_hostmask"]),
 ob("clients_send_state","P_ALL",lst("gl","ret, Sa, Sb, Fa, Fb","Sa == seenA && Sb == seenB && Fa == (Sa && !Ra) && Fb == (Sb && !Rb) && (!(Fa || Fb) || !ret) && (Ghead || ret)"),["client_send_state","client_send_netsplit"]),
 ob("clients_send_netsplit","P_ALL P_SPLITS",lst("gl","ret, Sa, Sb, Fa, Fb","Sa == seenA && Sb == seenB && Fa == (Sa && !Ra) && Fb == (Sb && !Rb) && (!(Fa || Fb) || !ret) && (Ghead || ret)"),["client_send_state","client_send_netsplit"]),
 ob("client_send_banlist","P_BANS",lst("gl","Sa, Sb, nfail, nend","Sa == seenA && Sb == seenB && !nfail && !nend")),
 ob("client_send_nameslist","P_NAMES",lst("nl","ret, Gcur, bufA, bufB, sentA, sentB, Gsep, nold, Larg, GS","ret && !nold && !n366 && !Gsep && GS.str == BUF && GS.len <= room && room == ROOM && names == &GS && bufA <= 1 && bufB <= 1 && sentA <= 1 && sentB <= 1 && (GS.len > 0 || (!bufA && !bufB)) && !(bufA && sentA) && !(bufB && sentB) && (bufA || sentA) == (seenA && FITS(1)) && (bufB || sentB) == (seenB && FITS(2))", ghost="Gcur = nl == &LA_ ? 1 : 2;"),["client_get_default_target"]),
 ob("client_send_channel_mode","P_CMODE",("__CPROVER_assigns(i, j, KP, __CPROVER_object_whole(AV))\n__CPROVER_loop_invariant(0 <= i && (size_t)i <= NM && (MS[i] != 0 || (size_t)i == NM) && 0 <= j && j <= (i > 0 ? i - 1 : 0) && l == &LN && LN.args == AV && mode == MS && AV[0] == N324 && AV[1] == TARG && AV[2] == CHN && AV[3] == MS && AV[4 + j] == NULL && ((size_t)i <= K || !HASOPT(KC) || (KP >= 0 && KP < j && AV[4 + KP] == DUPO + KC)))","VREACH(\"loop body\"); if ((size_t)i == K) KP = j; __CPROVER_assume(MS[i + 1] != 0 || (size_t)i + 1 == NM); __CPROVER_assume(CH.chanmode_option[(unsigned char)MS[i]] == NULL || CH.chanmode_option[(unsigned char)MS[i]] == OPT + (unsigned char)MS[i]);"),["client_send_line","client_get_default_target"],unwind=302),
 ob("client_send_netsplit","P_SPLIT",("__CPROVER_assigns(Gn, Gr, ret, S.nicks, LA_, LB_)\n__CPROVER_loop_invariant(Gn >= 0 && Gn < 1000000000 && !Gr && ret && (S.nicks != NULL) == (Gn + Gon > 0))\n__CPROVER_decreases(Gn)","VREACH(\"loop body\"); MAT();"),["client_send_nick_quit"]),
 ob("client_send_nick_quit","P_QUIT"),
]
PROP = dict(obligations=OBS, drivers=[dict(file="d_state23.c", wrap=["transport_send_line"], harnesses=[dict(name="replicate", time=6, bound="random states of up to 3 channels and 80 members", functions=[S+":"+x for x in ("client_send_state","client_send_nameslist","client_send_channel_mode","client_send_netsplit")])])], trusted=["lists are finite and acyclic"], assumptions=["a QUIT sent to a client takes the nick out of that client's state (handle_quit, C06)"])
