S="libirc/linestack.c"
def ob(name, d, stub=(), loops=None, fns=None, **k):
    r = dict(name=name, file="c14_linestack.c", entry="H", defs=["-D" + d], enforce=[], replace=[], functions=[S + ":" + x for x in (fns or [name])], timeout=200, unwind=22)
    if loops: r["loops"] = {S: {name: {"n": 1, 0: loops}}}
    if stub: r["stub"] = {S: list(stub)}
    r.update(k); return r
OBS=[
 ob("linestack_insert_line","P_INSERT",["write_index_entry","g_io_channel_tell_position","file_insert_state"]),
 ob("linestack_traverse","P_TRAVERSE",["linestack_read_entry"],("__CPROVER_assigns(i, l, ret, time, nread, ndel, live, stop)\n__CPROVER_loop_invariant(start_index >= 0 && start_index <= 1000000000 && end_index >= 0 && end_index <= 1000000000 && (guint64)start_index == from && (guint64)end_index == to && ret == 1 && !stop && !live && nread == ndel && nread <= 1000000000 && i == from + nread && (i == from || i <= to))\n__CPROVER_decreases(i < to ? to - i : 0)", 'VREACH("loop body");')),
 ob("linestack_read_entry","P_READ"),
 ob("linestack_get_state","P_GETSTATE",["state_path","marshall_network_state","linestack_replay"]),
 ob("linestack_send","P_SEND",["linestack_traverse","linestack_traverse_object"],fns=["linestack_send","linestack_send_object","send_line","send_line_timed","send_line_dataonly","send_line_timed_dataonly"]),
 ob("traverse_object_handler","P_OBJECT"),
 ob("file_insert_state","P_STATE",["state_path","marshall_network_state"],fns=["file_insert_state","linestack_insert_state"]),
 ob("write_index_entry","P_INDEX"),
 ob("linestack_replay","P_REPLAY",["linestack_traverse"],fns=["linestack_replay","replay_line"]),
 ob("replicate","P_REPL",functions=["src/repl_backends.c:replicate_from","src/repl_backends.c:simple_replicate","src/repl_backends.c:lastdisconnect_replicate"]),
]
PROP = dict(obligations=OBS, drivers=[dict(file="d_linestack.c", wrap=["client_send_line"], harnesses=[
 dict(name="history", time=4, bound="random histories of up to 120 lines", functions=[S+":"+x for x in ("linestack_insert_line","linestack_get_state","linestack_traverse","linestack_traverse_object","linestack_send","linestack_send_object","linestack_replay","marshall_network_state")]),
 dict(name="longhistory", time=5, bound="random histories of 1000 to 2200 lines", functions=[S+":file_insert_state"]),
 dict(name="damage", time=2, bound="random damage to the file of a state", functions=[S+":marshall_get"])])], trusted=["the file system"], assumptions=["reading a stored state gives back what was written (bounded: driver)"])
