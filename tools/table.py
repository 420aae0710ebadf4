"""One table for properties.jsonl and MANIFEST.json (python3 tools/mkmanifest.py)."""
P = {}

def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), note=None, na=None):
    P[id] = dict(title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mechanism=mechanism,
                 state=list(state), observe=list(observe), note=note, na=na)

prop("C01", "Lines survive parsing and serialisation",
 "Parsing the text of an IRC line and serialising the result gives a line with the same meaning: same origin, same arguments in the same order with only the last one allowed to be empty or contain spaces, and no argument split, joined, lost or invented. Serialised lines always fit their buffer and end in exactly one CRLF; copying and comparing lines respects every argument; a line received in any pieces is the line sent, and a failed conversion loses or leaks nothing.",
 ["inputs"], "every byte string, every origin and argument list of any length",
 "The tests parse and print some ten fixed lines; separators, empty arguments, colons and lengths combine without bound.",
 ["libirc/line.c"],
 [("parser", "libirc/line.c irc_parse_line, virc_parse_line"), ("serialiser", "libirc/line.c irc_line_string, requires_colon, line_len"), ("copy and compare", "libirc/line.c linedup, irc_line_cmp"), ("transport of lines", "libirc/line.c irc_send_line, irc_recv_line")],
 observe=["irc_parse_line", "irc_line_string", "irc_send_line", "irc_recv_line"],
 note="Serialiser (order and buffer room), colon rule, argument insertion, copy, comparison and both I/O wrappers proved with loop contracts for argument lists and string lengths left symbolic (table sizes 40-600 in the model); irc_parse_line is decided by exhaustive enumeration of short texts and random longer ones (bounded). Trusts CBMC, z3, cadical and the abstraction of strings to their lengths.")

prop("C04", "ISUPPORT announcements mean what the server said",
 "After any sequence of 005 tokens, each known limit, flag, text, mode class, channel type, status prefix and case mapping holds the value last announced in a well-formed token, and nothing else; malformed or unknown tokens change nothing and never crash. Lookups of prefixes, modes, mode classes and channel names agree with the announced tables, and the announcement made to clients parses back to the same tables.",
 ["inputs", "histories"], "every sequence of tokens with arbitrary values",
 "The tests parse a few fixed tokens one at a time; missing values, malformed tables and repeated announcements form an unbounded space.",
 ["libirc/isupport.c"],
 [("token parser", "libirc/isupport.c network_info_parse, handle_005"), ("lookups", "libirc/isupport.c is_prefix, get_prefix_by_mode, get_mode_by_prefix, get_prefix_from_modes, network_chanmode_type, is_channelname"), ("announcement", "libirc/isupport.c network_info_string")],
 state=[("irc_network_info", "announced limits and tables", "libirc/isupport.h struct irc_network_info")],
 observe=["struct irc_network_info", "network_info_string"],
 note="network_info_parse (every token, every field, ownership of old values), handle_005 and all lookups proved against contracts for values of any length (600 in the model); network_info_string and check_chanmodes_inconsistency are covered by a bounded native round-trip driver.")

prop("C02", "Name comparison follows the negotiated case mapping",
 "Two nicks or channel names are the same name exactly when they are equal after folding every character with the case mapping the server announced (ascii, rfc1459 or strict-rfc1459; rfc1459 when none was announced). The sign of a comparison is that of the first pair of folded characters that differ, and a length-limited comparison looks at no character beyond the limit or beyond the end of either string.",
 ["inputs"], "every pair of strings, every case mapping, every length limit",
 "The tests compare a handful of literal pairs; a folding table, early stop or off-by-one error shows only for particular characters and lengths.",
 ["libirc/util.c", "libirc/isupport.c"],
 [("fold and compare loop", "libirc/util.c str_cmphelper and its wrappers"), ("dispatch on CASEMAPPING", "libirc/isupport.c irccmp, ircncmp")],
 observe=["irccmp", "ircncmp", "str_rfc1459cmp and its siblings"],
 note="All functions proved with loop and function contracts for strings of any length below 2^31-1; exhaustive and random native drivers replay failures. Trusts CBMC, cvc5 and the dfcc instrumentation.")

prop("C05", "Tracked modes equal what the server announced",
 "After any sequence of MODE, 221, 324 and list-mode messages, the user modes, channel settings with their arguments, ban/except/invite lists and member prefixes held for a network are those obtained by applying each message's signs and letters from left to right, each letter taking an argument exactly when its announced class requires one. Letters and arguments that cannot be attributed change nothing else, and the mode string rendered from a set contains exactly the letters that are set.",
 ["inputs", "histories"], "every mode string, every argument list and every history of such messages, under every CHANMODES and PREFIX announcement",
 "Tests apply single fixed MODE lines; interactions of signs, letter classes, missing arguments and nicks unknown to the channel form an unbounded space.",
 ["libirc/state.c", "libirc/isupport.c"],
 [("sign/letter/argument loop", "libirc/state.c handle_mode"), ("one letter on a channel", "libirc/state.c channel_state_change_mode"), ("mode set", "libirc/state.c modes_change_mode, string2mode, mode2string")],
 state=[("modes", "which settings are on", "struct irc_channel_state.modes, struct network_nick.modes"), ("chanmode_nicklist", "ban, exception and invite lists", "struct irc_channel_state")],
 observe=["irc_network_state after state_handle_data"],
 note="handle_mode, channel_state_change_mode, string2mode, mode2string and modes_change_mode proved against contracts for unbounded strings and argument lists (callees by contract); reply handlers that fill the same state are covered by a bounded native reference-model driver. Assumes the announced PREFIX/CHANMODES classes as given by the lookups' contracts.")

prop("C06", "Channel membership mirrors the message history",
 "At any point the set of channels we are on, the members of each, their prefixes and their known user and host names are those implied by the JOIN, PART, KICK, QUIT, NICK and NAMES messages received so far, with names compared under the server's case mapping. Every member record refers to the one record of that nick, a nick with no common channel is forgotten unless queried for, and no message leaves a dangling or duplicate record.",
 ["histories", "inputs"], "every history of server messages with arbitrary arguments, any number of channels and nicks",
 "Tests replay a few fixed scripts; stale or duplicate records appear only after particular orders of join, rename, kick and quit on shared channels.",
 ["libirc/state.c"],
 [("lookups", "libirc/state.c find_channel, find_channel_nick, find_network_nick"), ("record life cycle", "libirc/state.c find_add_channel_nick, free_channel_nick, free_network_nick, network_nick_set_nick")],
 state=[("channels, nicks", "known channels and nicks", "struct irc_network_state"), ("nicks", "members of a channel", "struct irc_channel_state")],
 observe=["irc_network_state after state_handle_data"],
 note="Lookups, record creation/release and the JOIN, PART, KICK, QUIT, NICK, NAMES and PRIVMSG handlers proved against contracts with loop contracts (callees by contract, executable contract stubs); whole histories are additionally compared with a bounded native reference model.")

prop("C07", "Channel topic, lists and creation time mirror the server",
 "For every channel we are on, the remembered topic with its setter and time, creation time and completed ban, exception and invite lists are those last announced by the server, whether by a live message or by a reply to a query. A reply about a channel we are not on, or one with missing arguments, changes no other channel and never crashes the proxy.",
 ["histories", "inputs"], "every history of TOPIC, 331, 332, 333, 329, 346-349, 367, 368, 353, 366 messages",
 "Tests cover one topic and one ban list in the expected order only.",
 ["libirc/state.c"],
 [("reply handlers", "libirc/state.c handle_topic, handle_no_topic, handle_332, handle_333, handle_329, handle_banlist_entry and siblings")],
 observe=["struct irc_channel_state after state_handle_data"],
 note="All 13 reply and list handlers and the dispatcher state_handle_data proved against contracts, callees by contract; histories of messages are covered by a bounded native reference-model driver on top.")

prop("C03", "Server URLs round-trip between text and settings",
 "A server URL is read as scheme, server and port: irc:// is plain, ircs:// is TLS, any other scheme is refused with nothing set; the server ends at the first colon or slash, the port runs from that colon to the path or the end, and the usual port of the scheme (6667 or 994) is taken when none is given. A URL made from a server, port and TLS setting is read back as the same server, port and setting, up to the service names of the usual ports.",
 ["inputs"], "every URL text and every server, port and TLS setting",
 "The tests read and make some ten fixed URLs; which separator comes first, paths behind ports and unusual ports are not sampled.",
 ["libirc/url.c"],
 [("reader", "libirc/url.c irc_parse_url"), ("writer", "libirc/url.c irc_create_url")],
 observe=["irc_parse_url", "irc_create_url"],
 note="Both functions proved against contracts for texts of any length (4000 in the model; no loops), string functions by contract; the round trip itself is the composition of the two contracts and is additionally exercised by a bounded native driver.")

prop("C08", "Every reply reaches the client that asked, and only it",
 "A numeric reply goes to the client whose oldest still open query can have that reply, and that query stays open until one of its closing replies or errors arrives. Replies nobody asked for go to all clients, except those the proxy handles itself. Each query holds exactly one reference to its client, released when it is answered or forgotten, and every known command has exactly the replies of the protocol.",
 ["histories", "schedules"], "every interleaving of queries of any number of clients with any replies",
 "The tests use one or two queries at a time; routing depends on which queries are open, in which order, and which numerics they share.",
 ["libirc/redirect.c", "src/redirect.c"],
 [("pending queries", "libirc/redirect.c query_stack_record, query_stack_match_response, query_stack_clear"), ("table of commands", "libirc/redirect.c queries, is_reply, find_query"), ("delivery", "src/redirect.c redirect_response")],
 state=[("query_stack.entries", "open queries, oldest first", "libirc/redirect.h struct query_stack")],
 observe=["query_stack_match_response", "client_send_line and clients_send as called by redirect_response"],
 note="All functions proved with list contracts (two-cell projection for lists of any length), the command table for every command and numeric; histories are covered by a bounded native model driver on top. The expected table (spec/redirect_table.h) was written from the RFCs and the committed code.")

prop("C21", "Filters and hooks run in order until one refuses",
 "Every line offered to a chain of filters meets each registered filter at most once, in the order of their priorities, each with its own data, and stops at the first that refuses, whose refusal is the result; without a refusal all of them run. Hooks for new clients do the same in the order they were added. Removing a name removes the first entry of that name and no other, and the chains never affect each other.",
 ["histories"], "every history of registrations, removals and runs, any priorities",
 "Tests register at most one filter; ordering, equal names and extreme priorities need several.",
 ["src/hooks.c"],
 [("chains", "src/hooks.c add_filter_ex, del_filter_ex, filter_class_execute"), ("client hooks", "src/hooks.c add_new_client_hook, del_new_client_hook, new_client_hook_execute")],
 observe=["run_log_filter", "run_server_filter", "new_client_hook_execute"],
 note="All functions proved with list contracts (two-cell projection); g_list_insert_sorted is trusted to sort by the comparison function, which is proved to order any two priorities. Histories additionally run natively against a model (bounded).")

prop("C09", "CTCP requests get one answer and CTCP replies go to who asked",
 "The proxy answers a well-formed CTCP request by running exactly one handler, once: the first registered one whose name equals the command (ignoring case), else the builtin one; an unknown command gets exactly one ERRMSG answer, ACTION none, and a request without a closing mark or without a command gets none. Every answer is one NOTICE to the nick that asked whose text is the answer's words, separated by single spaces, between two CTCP marks. A CTCP reply is sent to the client whose oldest remembered request has that command, that nick (or a channel) as target and that network; each request is used once, and a reply nobody asked for is sent to nobody.",
 ["inputs", "histories"], "every CTCP text, any registered handlers, every history of requests and replies",
 "The tests send two fixed requests; malformed texts, overridden handlers and several requests in flight are not sampled.",
 ["src/ctcp.c", "src/ctcp_redirect.c"],
 [("requests", "src/ctcp.c ctcp_process_request, ctcp_reply, toarg"), ("replies", "src/ctcp_redirect.c get_ctcp_command, ctcp_client_request_record, ctcp_network_redirect_response")],
 state=[("ctcp_request_queue", "requests not yet answered, oldest first", "src/ctcp_redirect.c")],
 observe=["network_send_args as called by ctcp_reply", "client_send_line as called by ctcp_network_redirect_response"],
 note="Dispatch, recording, matching and command parsing proved for any lists of handlers and requests; the wire form of answers (toarg) and the builtin texts are checked by the bounded native driver.")

prop("C14", "Stored history replays every line in order, from the state it started in",
 "The history keeps exactly the lines it is meant to (channel and user events, topics, names, modes and messages from the server; only PRIVMSG and NOTICE from ourselves; no CTCP except ACTION), with the time they arrived. Going through it from one marker to another gives every stored line in between, once, unchanged and in order, until the handler refuses; for one object exactly the lines with it among their targets. The state asked for at a marker is the state of channels, members, modes, topics and lists at that moment, whatever was stored before or after; replaying the lines since leads to the current state. Clients are sent that state and then the lines since, with times only if asked for. Damaged or missing files give an error, not a crash.",
 ["inputs", "histories"], "every history of lines, markers, handlers and outcome of each write or read",
 "The tests store a few lines in a fresh history; states stored in between, markers at the start, reopened files and servers with other settings are not sampled.",
 ["libirc/linestack.c", "src/repl_backends.c"],
 [("storing", "libirc/linestack.c linestack_insert_line, write_index_entry, file_insert_state"), ("reading", "libirc/linestack.c linestack_traverse, linestack_read_entry, linestack_get_state, linestack_replay"), ("sending", "libirc/linestack.c linestack_send, linestack_send_object; src/repl_backends.c")],
 observe=["lines given to the handler", "the state returned"],
 note="Sixteen functions proved, histories of any length by a loop contract; reading back a stored state (the marshalling functions) is decided natively on random histories of up to 2200 lines (bounded).")

prop("C19", "Clients see their own host mask, and everybody else's unchanged",
 "When a line is passed to a client whose host mask differs from the one the network knows the proxy by, the client's own user and host name are put in exactly the places that describe the client itself: the origin of its own lines, its entries of a USERHOST reply, and the user and host arguments of WHO, WHOIS and WHOWAS replies about its nick. All other arguments, other people's lines and the line that was passed in stay as they were, whatever the number of arguments. A line sent to the clients of a network is delivered to each of them but the excepted one, once.",
 ["inputs"], "every line, every pair of host masks, any number of clients",
 "The tests rewrite a few well-formed lines; short lines, several entries and near-miss nicks are not sampled.",
 ["src/client.c"],
 [("rewriting", "src/client.c irc_line_replace_hostmask, client_forward_from_server"), ("delivery", "src/client.c clients_send")],
 observe=["client_send_line as called by client_forward_from_server"],
 note="All three functions proved: lines of up to 40 arguments and USERHOST replies of any number of entries, client lists by projection; random lines are also compared with an independent reading natively (bounded).")

prop("C22", "Each client command has one effect, and only meant ones reach a server",
 "A command of a connected client has exactly one of these effects: QUIT ends that client only; PING is answered and PONG noted by the proxy; USER and PASS are refused; CTRLPROXY and messages to the administration user go to the administration; anything else is sent to the server, unchanged, only while the network is connected (CTCP as soon as it logs in), unless the cache answered it; without a connection it gets an error. What goes to the server is recorded as a pending query of that client first, and PRIVMSG and NOTICE but not CTCP are shown to the other clients of the network and only those, as coming from the proxy's nick. No command of a client ends the proxy.",
 ["inputs", "histories"], "every line of a client in every state of the connection",
 "The tests send a few commands in one state; the table of commands, arguments and connection states is not sampled.",
 ["src/client.c", "src/network.c"],
 [("dispatch", "src/client.c process_from_client, handle_offline_command"), ("forwarding", "src/network.c network_forward_line")],
 observe=["network_send_line", "query_stack_record", "clients_send", "client_send_response"],
 note="Both functions proved for lines of up to 30 arguments in every state of the connection, callees by contract; random commands are compared with an independent table natively (bounded).")

prop("C10", "Nobody gets past the listener without the right password",
 "A connection becomes a client only after giving a password (and for SOCKS a user name) that is accepted: by an allow rule with both fields set and both equal, else by the listener's password when it has one, else by the global password when there is one; without any of them everybody is accepted. Before that only PASS has an effect: anything else is answered with an error, PASS without or with a wrong password too, and the connection stays. PASS password:network leads to that network, and to an error, not to a client, when it does not exist or cannot be connected; without a network the listener's own is used.",
 ["inputs", "histories"], "every sequence of first lines and any rules and passwords",
 "The tests give one right and one wrong password; combinations of rules, passwords, missing fields and repeated attempts are not sampled.",
 ["src/listener.c", "libirc/listener.c"],
 [("check", "src/listener.c listener_check_username_password"), ("PASS", "src/listener.c handle_client_line"), ("SOCKS", "src/listener.c default_socks_auth_simple, default_socks_connect_fqdn")],
 observe=["client_init_iochannel as called by the listener", "bytes written to the connection"],
 note="The four functions proved for any lists of rules (list projection), callees by contract; whole logins run natively over sockets against an independent oracle (bounded). Builds without GSSAPI credentials: the GSSAPI exchange itself is not covered.")

prop("C11", "The SOCKS negotiation follows the protocol byte for byte",
 "A connection whose first byte is 5 is SOCKS, any other a line client whose first line is taken whole, however it arrives. The answer to the offer picks an offered method that works, or 0xff and the connection ends. User name and password are read with the lengths given (0 to 255) and the client is told and disconnected if refused. A request is served only for version 5, CONNECT and a host name, which with its port is passed on exactly; each other request gets its error code. Replies are well formed, with the port in network order. Incomplete messages end the connection; no message reads or writes outside its buffers.",
 ["inputs"], "every byte sequence, lengths 0 to 255 everywhere",
 "The tests negotiate with a few fixed short messages; lengths above 127, truncated messages and each error path are not sampled.",
 ["libirc/listener.c"],
 [("negotiation", "libirc/listener.c handle_client_socks_data, pass_handle_data, on_socks_pass_accepted"), ("replies", "libirc/listener.c listener_socks_reply, listener_socks_error"), ("first byte", "libirc/listener.c handle_client_detect")],
 observe=["bytes written to the connection", "arguments of socks_auth_simple and socks_connect_fqdn"],
 note="All functions proved on arbitrary bytes with complete unwinding (a message has at most 255 methods); g_io_channel functions by contract. Random negotiations also run natively over sockets (bounded). The GSSAPI method's exchange is not covered (no credentials in reach).")

prop("C12", "A connection becomes a client exactly when NICK and USER are known",
 "Before it registered a connection may send NICK, USER, PASS and CONNECT in any order and number; the last values count, NICK, USER or CONNECT with too few arguments is answered 461, any other command 451, empty lines are ignored. As soon as nick and user are known (never earlier) it is registered, once, with those values. A client is then welcomed: 001 comes first, then 002 to 004, 005 and the MOTD, it is told the nick it has on the network and the network's whole state is replicated; without a network it is disconnected, as it is if a hook refuses it. Lines after registration go to the client's own handling.",
 ["inputs", "histories"], "every sequence of lines before registration, every outcome of each send",
 "The tests log in with NICK and USER once, in order; repeats, missing arguments, other commands, empty lines, failures in the middle and refusing hooks are not sampled.",
 ["libirc/client.c", "src/client.c"],
 [("registration", "libirc/client.c process_from_pending_client"), ("dispatch", "libirc/client.c on_transport_receive_line"), ("welcome", "src/client.c welcome_client")],
 observe=["lines sent to the client", "login details and the callbacks"],
 note="The three functions proved, sends and state replication by contract (C23); whole registrations run natively against an independent oracle (bounded).")

prop("C16", "NickServ passwords are learned, used and kept for their own network",
 "The password used for a nick on a network is one stored for that nick and that network, or else one for that nick on any network, nicks compared as the network does; none otherwise. It's sent in nothing but a PRIVMSG to NickServ on that network: IDENTIFY after logging in, or once a nick the user tried is got, unless already identified; and GHOST, followed by NICK again, when the nick that was tried is in use. If learning is on, the password that a user sends with IDENTIFY (in a PRIVMSG or NOTICE to NickServ or with NS) is the one used for the current nick on that network from then on, and no entry for another nick or network changes; messages from the server or to others teach nothing. Lines are passed on unchanged, whatever arguments they lack. What is known survives saving and loading; the file is removed when nothing is known.",
 ["inputs", "histories"], "lists of entries of any length, every line in either direction, every configuration",
 "The tests look up one entry; several networks, wildcards, case, repeated or malformed IDENTIFY and reloading are not sampled.",
 ["src/nickserv.c", "src/keyfile.c"],
 [("lookup", "src/nickserv.c nickserv_find_nick"), ("use", "src/nickserv.c nickserv_identify_me, log_data"), ("learning", "src/nickserv.c log_data, cache_nickserv_pass"), ("storage", "src/nickserv.c nickserv_save, nickserv_load")],
 observe=["messages sent to NickServ", "entries in the nickserv file"],
 note="All functions of nickserv.c proved; histories on two networks with saving and loading run natively (bounded).")

prop("C17", "Networks, channels and keys survive saving and loading",
 "After the configuration is saved and loaded again, every network except those made up for a client is there once, with its nick, user name, real name, servers in order with their passwords and addresses, commands, intervals and whether to connect to it; every channel with a key has that key, whatever bytes it consists of, and exactly the channels that were to be joined are; nothing that was removed comes back. An entry of the key files gives a name, a password or key, and a network or all networks: each entry is written in whole on a line of its own and each line is read back as the same entry, in order; comments and lines without a password are skipped. The files can't be read by others, and failing to write is reported.",
 ["inputs", "histories", "fault_sequences"], "lists of entries of any length, every outcome of each read and write, every configuration of up to 20 channels per network or networks to connect to",
 "The tests read and write key files with one entry; no test saves and loads a configuration with channels, nor writes that fail halfway.",
 ["src/settings.c", "src/keyfile.c"],
 [("key files", "src/keyfile.c keyfile_write_file, keyfile_read_file"), ("saving", "src/settings.c save_configuration, config_save_networks, config_save_network"), ("loading", "src/settings.c config_load_network_keyfile_group, config_find_add_channel")],
 observe=["the files in the configuration directory", "struct network_config after loading"],
 note="Eight functions proved, GKeyFile by contract; whole configurations changed, saved and loaded run natively (bounded).")

prop("C20", "One connection at a time, logged in once, and given up when lost",
 "A network has at most one connection or attempt to connect, tied to its state: a timer to try again exactly while it waits to reconnect, sockets, queries and history only while connected; whatever ends a connection (a hangup, an error, silence, the user) tells it QUIT and the clients a netsplit, releases all of it, and, unless the user asked for it, schedules one attempt with the next server in the list after the interval. A new connection gets PASS if there is a password, NICK and USER, once, in this order; while the nick is in use another is tried; after the first end of MOTD, once: what the server supports is noted, the nick identified, clients get the state, USERHOST, the configured commands in order, and the channels it should be on are joined with their keys. Each PING is answered with its token, each line changes the state before anyone sees it, and clients get nothing of the login. A line for the server is sent once, as it is, if the filters let it through.",
 ["inputs", "histories", "fault_sequences"], "every state of a connection, every outcome of each attempt, every line from the server, lists of servers, addresses and channels of any length",
 "The tests connect to one server that behaves; refused or lost connections, several servers, silence, repeated MOTDs and attempts that overlap are not sampled.",
 ["libirc/connection.c", "src/network.c", "src/gen_config.c"],
 [("connecting", "libirc/connection.c connect_network, connect_current_tcp_server, server_finish_connect, delayed_connect_server"), ("ending", "libirc/connection.c close_server, reconnect, ping_server, on_transport_hup; src/network.c handle_network_disconnect"), ("login", "libirc/connection.c server_send_login; src/network.c get_login_details, process_from_server"), ("lines", "src/network.c process_from_server, process_to_server; libirc/connection.c network_send_line")],
 observe=["what each server receives", "connection.state, timers and sockets"],
 note="Twenty-three functions proved under one invariant that ties the connection's state to its timers, socket and state; histories of attempts, failures and lines against real servers on the loopback interface run natively (bounded).")

prop("C23", "A client is told the whole state of the network",
 "A client that attaches to a connected network is told its current nick, then for every channel, once: that it joined, the topic with setter and time if there is one, and the complete list of members, each exactly once with its prefix, in lines of at most 512 bytes, ended by 366; then its own user modes. A channel's modes (324) carry each parameter in the order of the modes, followed by the creation time if known; the ban list has every entry and an end. When the connection is lost each client sees everybody but itself quit. All clients are told, also if sending to one of them fails, and failures are reported.",
 ["inputs", "histories"], "states of any size, every name length, every outcome of each send",
 "The tests replicate one or two channels with a handful of members; lists that exceed a line, unset topics, modes or prefixes, and failing clients are not sampled.",
 ["libirc/client.c"],
 [("state", "libirc/client.c client_send_state, clients_send_state"), ("channel", "libirc/client.c client_send_channel_state, client_send_topic, client_send_nameslist"), ("modes and bans", "libirc/client.c client_send_channel_mode, client_send_banlist"), ("netsplit", "libirc/client.c client_send_netsplit, client_send_nick_quit, clients_send_netsplit")],
 observe=["lines sent to the client"],
 note="Ten functions proved, lists of any length by the two-cell projection, members and message lengths symbolic (names up to 65534 bytes); random states are also replicated natively and read back by an independent reader (bounded).")

prop("C13", "Lines over a connection arrive whole, once and in order",
 "Every line accepted while the connection is up is sent completely, exactly once, in the order accepted, however often and wherever the other side's buffers fill up, or its failure is reported; a line waiting for room is never overtaken. After a disconnect nothing more is accepted or received, what was queued is still sent, then the connection is closed; freeing a connection leaves no watch behind and waits for nobody. Only a newline ends a line received, and every line received is delivered once, in order, however it arrives in pieces, until the receiver refuses or disconnects; a line that can't be converted is reported and costs nothing. A character set that is not known changes nothing.",
 ["inputs", "schedules", "histories"], "every sequence of sends, outcomes of writes and flushes, and queue lengths",
 "The tests send single short lines over idle sockets: full buffers, partial writes, disconnects with lines queued and errors between lines are not sampled.",
 ["libirc/transport_ioc.c", "libirc/transport.c"],
 [("sending", "libirc/transport_ioc.c irc_transport_iochannel_send_line, transport_send_queue; libirc/line.c irc_send_line"), ("receiving", "libirc/transport_ioc.c handle_transport_receive"), ("closing", "libirc/transport_ioc.c irc_transport_iochannel_disconnect, irc_transport_iochannel_free_data, really_disconnect")],
 observe=["bytes on the socket", "watches that are active"],
 note="All functions proved for queues of any length; GLib's buffered channel is assumed to write a line that fits its empty buffer in whole. Random schedules over sockets with small buffers run natively (bounded).")
