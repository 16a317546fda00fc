#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl from the table below (kept as code so that it stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": s, "meaning": s} for s in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("P01", "Nothing crosses the proxy before the listener password is accepted",
     "A connection to a password-protected listener is attached to an IRC network only after it has presented the listener's password (or, over SOCKS5, a username/password pair listed for that listener); until then no line it sends reaches any IRC server or the administration interface and it receives no network data. A wrong password is answered with an error and leaves the connection exactly as unauthenticated as before, and a password of the form `password:network` attaches it to that network and no other. A listener that has neither a password nor a user list accepts any password, and a failed SOCKS5 method, request or target closes the connection.",
     ["inputs", "histories", "configurations"],
     "every sequence of lines (or SOCKS5 bytes, under any fragmentation) sent by any number of connections, for every listener configuration (listener password, global password, allow rules, default network)",
     "No existing test opens a listener at all; the property ranges over all byte sequences and their fragmentation and over the listener configurations.",
     ["src/listener.c", "libirc/listener.c"],
     [("PASS handling and attachment", "src/listener.c:handle_client_line"), ("SOCKS5 negotiation", "libirc/listener.c:pass_handle_data,handle_client_socks_data"), ("credential check", "src/listener.c:listener_check_username_password")])

prop("P02", "A client is welcomed exactly once, after both NICK and USER",
     "An attached connection becomes a registered client exactly when it has supplied both a nick and complete user details, in either order, on the network selected by then (CONNECT may select another one; without a network it is turned away); before that point every other command but a repeated PASS is refused with an error and nothing it sends reaches the IRC server or other clients. On registration it gets exactly one welcome sequence, addressed to the nick it asked for, followed by a NICK change when the proxy's nick on the network is different, and afterwards repeated USER/PASS commands are refused and do not reach the server.",
     ["inputs", "histories"],
     "every sequence of registration commands (valid, incomplete, repeated, interleaved with others) from every client, with the network in any connection state",
     "The client tests only try NICK followed by USER on a fresh connection; orders, incomplete USER commands and commands sent in between are unbounded.",
     ["libirc/client.c", "src/client.c"],
     [("pending-client command handling", "libirc/client.c:process_from_pending_client"), ("welcome sequence", "src/client.c:welcome_client")])

prop("P03", "A server reply goes to the client that asked for it, and only to it",
     "When several clients issue queries on one network, each reply line, error or end-of-list line the server sends for a query is delivered to the client whose outstanding query it answers (oldest first among those it can answer), in order, and to no other client; a query stays outstanding until its final reply or an error for it arrives. Reply lines that answer no outstanding query go to every attached client, except for the welcome and MOTD lines and the registration errors (451, 462-465), which are meant for the proxy.",
     ["schedules", "histories", "inputs"],
     "all interleavings of queries by any number of clients with the server's replies, including client disconnects while a reply is outstanding",
     "The redirect test checks two hand-written single-query histories; routing depends on the whole history of outstanding queries from all clients.",
     ["src/redirect.c", "libirc/redirect.c", "src/client.c", "src/network.c"],
     [("outstanding query matching", "libirc/redirect.c:query_stack_match_response"), ("query recording", "libirc/redirect.c:query_stack_record"), ("reply routing", "src/redirect.c:redirect_response")],
     state=["per-network FIFO of outstanding queries"])

prop("P04", "Conversation traffic is fanned out exactly once and in order",
     "While a network is logged in, every line the IRC server sends that is not a liveness probe, a reply to one client's query or part of the proxy's own bookkeeping is delivered to every registered client of that network exactly once, in server order, and to no client of another network. Every message or notice a client sends is forwarded to its own network's server exactly once, unchanged and in the order sent, and is shown to every other client of that network (and not to the sender) exactly once as coming from the user; other commands are forwarded and shown to nobody.",
     ["schedules", "histories", "inputs"],
     "all interleavings of lines from the server with lines, attaches and detaches of any number of clients over several networks",
     "No existing test attaches two clients to one network; exactly-once and ordering are claims about all interleavings.",
     ["src/client.c", "src/network.c", "libirc/client.c"],
     [("server to clients", "src/network.c:process_from_server"), ("client to server and echo", "src/network.c:network_forward_line"), ("broadcast", "src/client.c:clients_send")])

prop("P05", "Tracked channel state is exactly what the server announced",
     "After any sequence of server messages the proxy's tracked view (own nick and user modes, away flag, joined channels, their members with status modes, topic and who set it, channel modes with parameters, ban/exception/invite lists) equals the view defined by applying the IRC meaning of each message in order under the prefix, mode and case rules the server advertised. Messages about channels the user is not on, or about unknown nicks, and malformed messages leave it unchanged, and leaving a channel (part or kick) forgets everything known about it. Ban, exception and invite lists are tracked from the moment they were requested.",
     ["histories", "inputs"],
     "every sequence of server lines: JOIN/PART/KICK/QUIT/NICK/MODE/TOPIC/NAMES/WHO/mode-list replies, in any order, with any advertised capabilities",
     "test-state.c applies about twenty short hand-picked sequences; the property is about all histories (case variants, lists interrupted by other events, mode strings with mixed signs and parameters).",
     ["libirc/state.c", "libirc/isupport.c"],
     [("message handlers", "libirc/state.c:state_handle_data"), ("mode application", "libirc/state.c:channel_state_change_mode"), ("member bookkeeping", "libirc/state.c:find_add_channel_nick,free_channel_nick")],
     state=["channels", "nicks", "own user"])

prop("P06", "What a client has been told always adds up to the network's real state",
     "Whenever a client attaches, at any moment of any history, the lines it is sent describe exactly the state of the network at that moment: its nick, every joined channel, the channel's topic and all members with their status prefix. From then on, and across losses and re-establishments of the server connection, the membership, nick and topics a client can derive from the lines it received equal the proxy's: after a lost connection it has been told that everyone else left, and after reconnection it is told the channels joined anew. A channel the proxy has not (yet) rejoined stays known to the client; capabilities are told on attach.",
     ["schedules", "histories", "fault_sequences"],
     "all interleavings of server messages, client attaches/detaches and server connection losses",
     "No test attaches a client to a network with state; coherence is a relation between two full histories.",
     ["src/client.c", "libirc/client.c", "src/network.c", "libirc/linestack.c"],
     [("state snapshot", "libirc/client.c:client_send_state"), ("netsplit announcement", "libirc/client.c:client_send_netsplit"), ("re-announcement on login", "src/network.c:process_from_server")])

prop("P07", "Recorded history is complete, ordered and consistent with state",
     "The history kept for a network starts anew with every login and contains exactly the recordable lines (conversation other than CTCP requests and replies; joins, parts, quits, kicks, nick, mode and topic changes; replies about members, topics and channel modes that were not answers to one client's query) that passed in either direction since, once each and in order, with the time they passed. Reading it between any two positions yields exactly the lines in between, a position from an earlier connection standing for the start; filtered reading yields exactly those whose target is the named channel or nick. The network state reconstructed for any position is the state at login changed by the lines recorded up to there; where every change is a recordable line it equals the state tracked at the moment that position was taken.",
     ["histories", "inputs"],
     "every history of lines (of any length, crossing the internal snapshot interval) and every pair of positions",
     "test-linestack.c checks a few histories of up to a handful of lines and one long one of a single kind of line.",
     ["libirc/linestack.c"],
     [("recording", "libirc/linestack.c:linestack_insert_line"), ("traversal", "libirc/linestack.c:linestack_traverse"), ("reconstruction", "libirc/linestack.c:linestack_get_state"), ("snapshot", "libirc/linestack.c:marshall_network_state")])

prop("P08", "On attach a client gets exactly the backlog its policy owes",
     "When a client attaches to a connected network it receives, after the state snapshot, the backlog selected by the configured policy: nothing; everything since (and including) the user's last own message; everything since a client was last lost; or only messages, since a client last attached, whose text contains one of the configured words. Lines the proxy sends by itself, CTCP and connections that never became clients do not move these positions, and after a new login the history starts anew. Each owed line is delivered once, in original order, with its original origin and text (plus the time of day, if so configured), and none that is not owed.",
     ["histories", "configurations", "schedules"],
     "all histories of traffic, attaches and detaches, for each policy and time reporting setting, including reconnections in between",
     "No test exercises replication; what is owed depends on the whole history.",
     ["src/repl.c", "src/repl_backends.c", "libirc/linestack.c"],
     [("policies", "src/repl_backends.c"), ("line delivery", "libirc/linestack.c:linestack_send")])

prop("P09", "At most one upstream connection, with an orderly life cycle",
     "A network has at most one server connection and at most one pending reconnect at any time. Losing an established or half-established connection for any reason schedules exactly one reconnect, after the configured interval, to the next configured server in rotation; an explicit disconnect cancels everything and stays disconnected until someone asks to connect. Each established connection starts with exactly one login (password if configured, nick, user details), and a nick refused during login is replaced by another attempt.",
     ["schedules", "fault_sequences", "histories"],
     "all interleavings of connection outcomes (refused, failed lookup, asynchronous success or failure, hangup, silence), timer expiry and administrator connect/disconnect/next-server requests",
     "test-network.c performs one successful login; failures, retries and their interleavings are not reached.",
     ["libirc/connection.c", "src/network.c"],
     [("connection state machine", "libirc/connection.c:connect_current_tcp_server,reconnect,close_server"), ("login", "libirc/connection.c:server_send_login"), ("login completion", "src/network.c:process_from_server")],
     state=["connection state", "reconnect timer", "ping timer"])

prop("P10", "A new connection restores the session: autocommands and channels",
     "Once logged in to a server the proxy sends the configured connect commands and rejoins, with their keys, exactly the channels that are configured for automatic joining or were joined when the connection was last lost, and no other channel. The nick used at login is the configured one or the one last in use.",
     ["histories", "fault_sequences", "configurations"],
     "every history of joins, parts, kicks, key changes and connection losses",
     "No test reconnects; which channels must be rejoined depends on the whole history.",
     ["src/network.c", "src/gen_config.c", "libirc/connection.c"],
     [("autojoin", "src/network.c:process_from_server"), ("remembering channels", "src/gen_config.c:network_update_config")])

prop("P11", "An answer given from memory is the answer the server would give",
     "When the proxy answers a channel mode, ban list, names, topic or who query itself instead of forwarding it, the answer goes only to the asking client, carries exactly the tracked state of that channel and is complete and properly terminated. It answers itself only if it holds complete and fresh enough information for it; otherwise the query is forwarded to the server unchanged and nothing is answered.",
     ["histories", "inputs", "configurations"],
     "every history of server messages followed by any query by any client, any elapsed time",
     "No test reaches the cache; freshness and completeness are properties of the whole preceding history.",
     ["src/cache.c"],
     [("cache decision and answer", "src/cache.c:client_try_cache")])

prop("P12", "Byte streams are framed faithfully in both directions",
     "The sequence of lines seen from a peer depends only on the bytes it sent, not on how they were fragmented, and lines written to a slow or stalling peer arrive complete, unmodified, in order and exactly once as soon as it accepts data again. A line survives parsing and re-serialisation with origin, command and arguments unchanged.",
     ["schedules", "fault_sequences", "inputs"],
     "every fragmentation of the input stream and every pattern of partial and refused writes",
     "The transport test only creates and closes a transport; the parser tests use fixed lines. Fragmentation and backpressure patterns are unbounded.",
     ["libirc/transport_ioc.c", "libirc/transport.c", "libirc/line.c"],
     [("pending line queue", "libirc/transport_ioc.c:irc_transport_iochannel_send_line,transport_send_queue"), ("reading", "libirc/transport_ioc.c:handle_transport_receive"), ("parse and serialise", "libirc/line.c:irc_parse_line,irc_line_string")])

prop("P13", "Liveness: probes are answered and silent peers are dropped",
     "Every PING from the server is answered with a PONG carrying the same token and is not shown to clients; every PING from a client is answered locally and not forwarded. A server that stays silent is probed, and is given up (and a reconnect scheduled) if it stays silent for more than twice that long, but never while it keeps talking, and clients are never disconnected for being quiet.",
     ["schedules", "histories"],
     "all timings of traffic, probes and silence on server and client connections",
     "No test lets time pass; timeouts are claims about all timings.",
     ["libirc/connection.c", "libirc/client.c", "src/network.c", "src/client.c"],
     [("server probe", "libirc/connection.c:ping_server"), ("client probe", "libirc/client.c:client_ping"), ("PING handling", "src/network.c:process_from_server")])

prop("P14", "CTCP requests are answered by exactly one party",
     "A CTCP request addressed to the user is answered by the proxy itself only while no client is attached, at most once and only for requests it supports, and goes to the attached clients otherwise; ACTION is always ordinary conversation. A CTCP request or reply sent by a client goes to the server unmodified and is not shown to the other clients. Requests the proxy does not support it answers, while no client is attached, with at most an error reply.",
     ["histories", "inputs"],
     "all CTCP requests and replies with any number of attached clients",
     "The CTCP test only checks quoting helpers.",
     ["src/ctcp.c", "src/ctcp_redirect.c", "src/network.c", "src/client.c"],
     [("local answers", "src/ctcp.c:ctcp_process_request"), ("routing", "src/network.c:process_from_server,src/client.c:process_from_client")])

prop("P15", "NickServ passwords go to NickServ only, for the right nick and network",
     "The proxy identifies to NickServ exactly when it knows a password for the nick it is currently using on that network (one for that network before one for all networks), after login or when it takes over that nick, unless the server already marks the user as registered (+R), and it sends the password to the services nick only. A password learnt from a client's own identification is associated with the nick and network it was used for, replaces an older one, and survives saving and reloading; learning happens only if enabled.",
     ["histories", "configurations"],
     "every history of identifications, nick changes, reconnects and reloads over several nicks and networks",
     "test-nickserv.c covers lookups in a hand-made list of at most two entries.",
     ["src/nickserv.c", "src/keyfile.c"],
     [("identify", "src/nickserv.c:nickserv_identify_me"), ("learning", "src/nickserv.c:log_data"), ("store", "src/keyfile.c:keyfile_write_file,keyfile_read_file")])

prop("P16", "Saving and loading the configuration loses nothing",
     "Loading a saved configuration yields the configuration that was saved: every network with its servers, identity, channels with keys and autojoin flags, connect commands and flags, every listener, and every global setting. Saving again without a change does not alter what is loaded, and a deleted network does not come back.",
     ["configurations", "histories"],
     "every configuration and every sequence of configuration changes, saves and loads",
     "No test compares a configuration with its reloaded form; the space of configurations is unbounded.",
     ["src/settings.c", "src/keyfile.c", "src/gen_config.c"],
     [("saving", "src/settings.c:save_configuration"), ("loading", "src/settings.c:load_configuration")])

prop("P17", "Filters run in priority order and a veto is final",
     "Every line for the server, and every line from it that is to be passed on to clients (other than numeric replies), is offered to the registered server filters in priority order, each at most once; when one of them rejects the line, no later filter sees it and the line is not passed on to the server or the clients, and if none rejects it the line is passed on. Every line received from the server, and every line sent to it, is shown to the log filters in the same manner, up to the first that rejects it; that does not affect the line itself. Removing a filter affects only that filter; connection hooks are asked in the order they were registered, and a client one of them refuses is disconnected and receives no network data afterwards.",
     ["histories", "configurations"],
     "every set of registered filters with any priorities and verdicts, under any sequence of registrations, removals and lines",
     "No test registers a filter.",
     ["src/hooks.c", "src/network.c", "src/client.c"],
     [("filter lists", "src/hooks.c"), ("use", "src/network.c:process_from_server,process_to_server")])

prop("P18", "Auto-away follows the presence of clients",
     "With auto-away enabled the proxy marks the user away on a network once no more clients are attached to it than the configured limit and the user has said nothing anywhere for longer than the configured time, or at once when a client detaches and so leaves no more than the limit; at most once per absence. It takes this back when clients come back (so that there are more than the limit) or the user says something through any client. It never marks the user away while more clients than the limit are attached, when the user is away already, before the login is complete, or, other than at the moment a client detaches, while the user is active; and nothing the proxy says by itself counts as activity of the user.",
     ["schedules", "histories", "configurations"],
     "all timings of attaches, detaches and messages for every idle time and client limit",
     "No test exercises auto-away.",
     ["src/auto_away.c"],
     [("idle timer", "src/auto_away.c:check_time"), ("client tracking", "src/auto_away.c:new_client,lose_client")])

prop("P19", "Administration commands act on the proxy and never leak to the IRC network",
     "A command given by a client through the proxy command or as a message to the configured administration nick is executed exactly once, answered only to that client, and never reaches the IRC server or other clients. It has exactly the documented effect (adding, removing, connecting, disconnecting a network, changing a setting), and a rejected or unknown command changes nothing.",
     ["histories", "inputs"],
     "every sequence of administration commands interleaved with normal traffic, from any client",
     "test-admin.c calls a few commands directly with fixed arguments.",
     ["src/admin.c", "src/client.c"],
     [("dispatch", "src/admin.c:process_cmd,admin_process_command"), ("interception", "src/client.c:process_from_client")])

prop("P20", "Clients always see the user under one consistent identity",
     "A line that the server attributes to the user by nick is shown to each client with the identity that client knows for the user, including inside user-lookup replies, and lines attributed to anyone else are never altered. A line the proxy sends to the server never carries an origin. (Lines replayed from the backlog keep the origin they were recorded with.)",
     ["inputs", "histories"],
     "every line from the server or a client, for every combination of server-side and client-side user and host names and case variants of nicks",
     "One test covers six fixed lines.",
     ["src/client.c", "libirc/client.c", "libirc/connection.c"],
     [("identity rewriting", "src/client.c:irc_line_replace_hostmask"), ("origin", "libirc/connection.c:network_send_line_direct")])

prop("P21", "Names are compared by the server's advertised case rules",
     "Two nicks or channel names are treated as the same exactly when they are equal after folding with the case mapping the server advertised (ascii, rfc1459 or strict-rfc1459), everywhere names are compared; comparison is an equivalence and bounded comparison looks at no more than the given number of characters.",
     ["inputs"],
     "all pairs of names, all lengths, all three case mappings",
     "test-cmp.c checks fewer than ten pairs.",
     ["libirc/isupport.c"],
     [("comparison", "libirc/isupport.c:irccmp,ircncmp,str_asciicmp,str_rfc1459cmp")])

prop("P22", "Server capabilities are parsed as advertised",
     "The capability values in effect for a network (prefixes, channel mode classes, channel types, case mapping, limits, network name) are those of the last advertisement of each capability, with protocol defaults for those never advertised; unknown or malformed ones change nothing else. The capability line shown to clients carries the values in effect, apart from those that concern the connection itself (NAMESX, UHNAMES, CHARSET) and those the proxy speaks for itself (IRCD, FNC).",
     ["inputs", "histories"],
     "every sequence of capability advertisements",
     "test-isupport.c parses a handful of fixed strings.",
     ["libirc/isupport.c"],
     [("parsing", "libirc/isupport.c:handle_005,network_info_parse"), ("regenerating", "libirc/isupport.c:network_info_string")])

prop("P23", "Conversations are logged once, in the right file",
     "With logging enabled, every conversation event (message, action, notice, join, part, kick, quit, nick change, topic, mode) is written exactly once to each log file it concerns (the channel it happened in, or the other party's file for private conversations; quits and nick changes to every channel shared with that nick), in the order it happened and in the configured format. Nothing is written to any other file.",
     ["histories", "configurations", "inputs"],
     "every history of conversation events over several channels and nicks",
     "Only the substitution helper has a test.",
     ["src/log_custom.c", "src/log_support.c", "src/log_subst.c"],
     [("event to file mapping", "src/log_custom.c:log_custom_data"), ("substitution", "src/log_subst.c:custom_subst")])

prop("P24", "The multi-user front end bridges a client only after its backend agreed",
     "The front end relays lines between a client and a user's proxy instance only after that instance has accepted the password the client presented; before that nothing the client sends other than its credentials reaches the instance, and nothing from the instance except the verdict reaches the client. Afterwards lines are relayed in both directions unchanged, in order, exactly once, and the loss of either side closes the other.",
     ["schedules", "histories", "fault_sequences"],
     "all interleavings of client lines, backend answers and disconnects of either side",
     "The daemon has no tests.",
     ["daemon/main.c", "daemon/backend.c", "daemon/client.c", "libirc/listener.c"],
     [("authentication", "daemon/backend.c:daemon_backend_recv"), ("relay", "daemon/main.c:daemon_client_recv,backend_recv")])

prop("P25", "No input from a peer stops service for the others",
     "Whatever lines or bytes a connected IRC server, an attached client or an unauthenticated connection sends - including malformed, truncated, over-long lines, missing parameters and names never seen before - the proxy keeps running and keeps serving every other client and network correctly. At most the offending connection itself is closed.",
     ["inputs", "histories"],
     "every line from any peer in any state of the proxy",
     "The tests feed well-formed lines; the property quantifies over all inputs in all states.",
     ["libirc/state.c", "libirc/client.c", "libirc/listener.c", "src/client.c", "src/network.c", "src/listener.c", "src/admin.c"],
     [("server line handling", "libirc/state.c:state_handle_data"), ("client line handling", "src/client.c:process_from_client"), ("pre-authentication handling", "src/listener.c:handle_client_line")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
