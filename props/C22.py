def ob(name, d, f, **k):
    r = dict(name=name, file="c22_gate.c", entry="H", defs=["-D" + d], enforce=[], replace=[], functions=[f + ":" + name], timeout=300, unwind=14)
    r.update(k); return r
OBS=[ob("process_from_client","P_GATE","src/client.c",functions=["src/client.c:process_from_client","src/client.c:handle_offline_command"]), ob("network_forward_line","P_FORWARD","src/network.c")]
F=["src/client.c:process_from_client","src/client.c:handle_offline_command","src/network.c:network_forward_line"]
PROP = dict(obligations=OBS, drivers=[dict(file="d_gate.c", includes=["src/client.c"], wrap=["client_disconnect","client_send_args","client_send_response","admin_process_command","ctcp_client_request_record","network_forward_line","client_try_cache","network_send_line","query_stack_record","clients_send","log_client_line"], harnesses=[dict(name="gate", time=8, bound="random commands of up to 4 arguments in every state of the connection", functions=F)])], trusted=[], assumptions=["external_state is set exactly in the states LOGIN_SENT and MOTD_RECVD (established in libirc/connection.c)"])
