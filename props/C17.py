S="src/settings.c"; K="src/keyfile.c"
def kob(name, d, loops, fns=None, **k):
    r = dict(name=name, file="c17_keyfile.c", entry="H", defs=["-D" + d], enforce=[], replace=[], functions=[K + ":" + x for x in (fns or [name])], timeout=200, unwind=12, loops={K: loops})
    r.update(k); return r
AS="__CPROVER_assigns(%s)\n__CPROVER_loop_invariant(%s)\n__CPROVER_decreases(%s)"
LEFT="left >= 0 && left <= total && (left > 0 ? gl == &CELL : gl == NULL)"
def sob(name, d, loops=None, stub=(), fns=None, **k):
    r = dict(name=name, file="c17_settings.c", entry="H", defs=["-D" + d], enforce=[], replace=[], functions=[S + ":" + x for x in (fns or [name])], timeout=300, unwind=22)
    if loops: r["loops"] = {S: {name: loops}}
    if stub: r["stub"] = {S: list(stub)}
    r.update(k); return r
OBS=[
 sob("config_find_add_channel","P_ADD",{"n":1,0:(AS%("gl, cc, left, owed, C, CELL",LEFT+" && !owed && !npend && C.name == OC.name && C.key == OC.key && C.autojoin == OC.autojoin","left"),"VISIT;")}),
 sob("config_save_network","P_SAVENET",{"n":1,0:(AS%("gl, left, owed, npend, C, CELL, NKE, KHEAD, KEYS, idx, naj, kpos, kname, autojoin_list_count, __CPROVER_object_whole(AJ)",LEFT+" && !owed && !npend && KEYS == KHEAD && idx == total - left && naj >= 0 && naj <= idx && autojoin_list_count == naj && (idx > KI || kpos == -1) && kpos >= -1 && kpos < naj && (kpos < 0 || AJ[kpos] == kname)","left"),"VISIT;")},["config_save_tcp_servers","g_key_file_save_to_file"]),
 sob("config_save_networks","P_SAVENETS",{"n":1,0:(AS%("gl, left, owed, N, CELL, KHEAD, channel_keys, isd, nmk",LEFT+" && !owed && channel_keys == KHEAD && dlive && !nmk","left"),"VISIT;")},["config_save_network","config_cleanup_networks_dir"],unwind=302),
 sob("config_load_network_keyfile_group","P_LOAD",flags=["--object-bits","11"],loops={"n":2,0:(AS%("gl, left, owed, same, kpos, KE, C, CELL",LEFT+" && !owed && (!kpos || C.key == D2)","left"),"VISIT;"),1:(AS%("i, ajn, OC","i <= size && size == NAJ && (NAJ == 0 || ajn == (i == 0 ? -1 : (int)i)) && (i == 0 || OC.autojoin) && left == (total > 0 ? left : 0)","size - i"),'VREACH("loop body");')},stub=["config_find_add_channel","config_load_servers","network_config_init"]),
 sob("save_configuration","P_SAVECFG",{"n":1,0:(AS%("gl, i, left, N, CELL, idx, naj, kpos, kname, __CPROVER_object_whole(AJ)",LEFT+" && idx == total - left && naj >= 0 && naj <= idx && i == naj && (idx > KI || kpos == -1) && kpos >= -1 && kpos < naj && (kpos < 0 || AJ[kpos] == kname)","left"),"VISIT;")},["config_save_networks","config_save_listeners","config_save_log","config_save_auto_away","g_key_file_save_to_file"]),
 kob("keyfile_write_file","P_WRITE",{"keyfile_write_file":{"n":1,0:("__CPROVER_assigns(gl, left, owed, linelive, bad, cur, off, LL, E, CELL, vp_errno)\n__CPROVER_loop_invariant(left >= 0 && left <= total && (left > 0 ? gl == &CELL : gl == NULL) && !owed && !linelive && !bad && fdo && !nclose)\n__CPROVER_decreases(left)","VISIT;")},"write_all":{"n":1,0:("__CPROVER_assigns(left, data, owed, bad, off, vp_errno)\n__CPROVER_loop_invariant(data == cur + off && off <= CLEN && left == CLEN - off && !bad && (owed != 0) == (off < CLEN))\n",'VREACH("loop body");')}},fns=["keyfile_write_file","write_all"]),
 kob("keyfile_read_file","P_READ",solver="z3",loops={"keyfile_read_file":{"n":1,0:("__CPROVER_assigns(ret, nr, term, lineno, LIST, HEAD, left, np, llive, plive, p2live, nelive, owed, TERM, NE, __CPROVER_object_whole(LB), __CPROVER_object_whole(P2), __CPROVER_object_whole(PARTS))\n__CPROVER_loop_invariant(left >= 0 && left <= total && CLEAN && LIST == HEAD && chlive)\n__CPROVER_decreases(left)",'VREACH("loop body");')}}),
]
PROP = dict(obligations=OBS, drivers=[dict(file="d_config.c", harnesses=[dict(name="config", time=8, bound="random histories of up to 4 rounds of changing, saving and loading up to 3 networks", functions=[S+":"+x for x in ("save_configuration","load_configuration","config_save_network","config_load_network_keyfile_group")]+[K+":keyfile_read_file",K+":keyfile_write_file"])])], trusted=["GKeyFile"], assumptions=["up to 20 channels are saved for a network, and 20 networks marked to connect to (longer lists: array sizes only)", "GKeyFile returns the string that was set", "members of the union of TCP and other network settings are kept apart (CBMC)"])
