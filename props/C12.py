S="libirc/client.c"
def ob(name, d, stub=(), **k):
    r = dict(name=name, file="c12_register.c", entry="H", defs=["-D" + d], enforce=[], replace=[], functions=[S + ":" + name], timeout=200, unwind=14)
    r["stub"] = {S: list(stub) + ["client_log"]}
    r.update(k); return r
OBS=[ob("process_from_pending_client","P_PEND",["client_send_response"]), ob("on_transport_receive_line","P_RECV",["process_from_pending_client"]),
 ob("welcome_client","P_WELCOME",functions=["src/client.c:welcome_client"])]
PROP = dict(obligations=OBS, drivers=[dict(file="d_register.c", harnesses=[dict(name="registration", time=6, bound="random histories of up to 7 lines", functions=[S+":"+x for x in ("on_transport_receive_line","process_from_pending_client","irc_client_new","client_disconnect")])])], trusted=[], assumptions=[])
