S="libirc/listener.c"
def ob(name, fn, d, loops=None, stub=(), **k):
    r = dict(name=name, file="c11_socks.c", entry="H", defs=["-D" + x for x in d.split()], enforce=[], replace=[], functions=[S + ":" + f for f in fn.split()], timeout=300)
    if loops: r["loops"] = {S: {fn: loops}}
    r["stub"] = {S: list(stub)}
    r.update(k); return r
H=["pass_handle_data","gssapi_handle_data","gssapi_acceptable","listener_socks_error"]
OBS=[
 ob("negotiate","handle_client_socks_data","P_NEW",stub=H,unwind=258),
 ob("authenticate","handle_client_socks_data","P_AUTH",stub=H,unwind=8),
 ob("request","handle_client_socks_data","P_NORMAL",stub=H,unwind=8),
 ob("pass_handle_data","pass_handle_data","P_PASS",stub=["listener_socks_error"],unwind=8),
 ob("on_socks_pass_accepted","on_socks_pass_accepted","P_ACC",unwind=8),
 ob("listener_socks_reply","listener_socks_reply","P_REPLY",unwind=8),
 ob("listener_socks_error","listener_socks_error","P_REPLY P_ERR",unwind=8),
 ob("handle_client_detect","handle_client_detect","P_DETECT",unwind=8),
]
PROP = dict(obligations=OBS, drivers=[dict(file="d_listener.c", wrap=["client_init_iochannel","find_network_by_hostname","connect_network","gss_import_name","gss_acquire_cred"], harnesses=[dict(name="socks", time=8, bound="random negotiations with names of up to 255 bytes, random truncation", functions=[S+":"+x for x in ("handle_client_socks_data","pass_handle_data","on_socks_pass_accepted","listener_socks_reply","listener_socks_error","handle_client_receive")]), dict(name="login", time=3, bound="up to 4 lines in random pieces", functions=[S+":handle_client_detect"])])], trusted=[], assumptions=[])
