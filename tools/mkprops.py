#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that long lines stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, title
    P.append(d)

L = "libnymea-remoteproxy/"
C = "libnymea-remoteproxyclient/"
TPS = L + "tunnelproxy/tunnelproxyserver.cpp"
TPC = L + "tunnelproxy/tunnelproxyclient.cpp"
SC = L + "tunnelproxy/tunnelproxyserverconnection.cpp"
TCP = L + "server/tcpsocketserver.cpp"
WS = L + "server/websocketserver.cpp"
UX = L + "server/unixsocketserver.cpp"
RPC = L + "server/jsonrpcserver.cpp"
MON = L + "server/monitorserver.cpp"
ENG = L + "engine.cpp"
TH = L + "jsonrpc/tunnelproxyhandler.cpp"
SLIP = "common/slipdataprocessor.cpp"
CSS = C + "tunnelproxy/tunnelproxysocketserver.cpp"
CRC = C + "tunnelproxy/tunnelproxyremoteconnection.cpp"
CJ = C + "proxyjsonrpcclient.cpp"

prop("P01", "Client-to-server payload integrity",
 "At every moment the payloads the proxy has delivered to a tunnel server under the socket address of one client are a prefix of exactly the byte stream that client sent after it was told it is registered: nothing lost in the middle, duplicated, reordered, altered or invented, whatever the byte values, message sizes and segmentation. While client and server both stay connected, and also when a client to which nothing is on its way sends and then closes gracefully (on WebSocket: with the closing handshake) while the server stays connected, every byte the client sent is eventually delivered. WebSocket clients send text.",
 ["schedules", "inputs", "fault_sequences", "histories"],
 "every payload (all byte values on TCP/unix, all text on WebSocket), every segmentation and coalescing, every interleaving of several clients with each other, with control traffic and with disconnects, every back-pressure pattern",
 "Tests send a few short ASCII strings over an unloaded loopback and compare one reply; they never control segmentation, back-pressure, special bytes or the interleaving with other tunnels.",
 [TPS, TCP, WS, UX, SLIP], [("forwarding of client data as addressed frames", TPS), ("frame escaping", SLIP), ("socket write buffering", TCP)],
 ["frames received by the tunnel server"])

prop("P02", "Server-to-client payload integrity",
 "At every moment the bytes a registered tunnel client has received after its registration response are a prefix of the concatenation of the payloads its tunnel server sent in frames addressed to that client: nothing lost in the middle, duplicated, reordered, altered or invented, for every byte value (every UTF-8 text for clients on WebSocket), every socket address, every frame size, every transport the server registered over and every segmentation of the server's byte stream. While both stay connected every such byte is eventually delivered, also after frames that were malformed or addressed to nobody.",
 ["schedules", "inputs", "fault_sequences", "histories"],
 "all payload bytes including the framing bytes, all socket addresses, all segmentations of the server stream, all interleavings of frames for several clients and control frames",
 "Tests send short printable ASCII frames in one write; escape bytes, addresses that need escaping, frames split across reads and invalid frames between valid ones are not reached.",
 [TPS, TPC, TCP, UX, SLIP], [("reassembly of frames from the server stream", TPC), ("frame decoding and dispatch by address", TPS), ("unescaping", SLIP)],
 ["bytes received by the tunnel client"])

prop("P03", "Tunnel isolation",
 "No byte sent into one tunnel is ever delivered to any other peer: a client's payload reaches only the server it registered with, tagged with that client's own address, and a server's frame reaches only the client of that same server that currently holds the address, or nobody. Control messages (responses and notifications) reach only the peer they concern and are never mixed into payload or the other way round.",
 ["schedules", "inputs", "histories", "fault_sequences"],
 "any number of servers, clients and misbehaving peers, identical addresses on different servers, address reuse, disconnects and reconnects at any point in the traffic",
 "Tests use at most a few tunnels with one message each and no concurrent churn; cross-talk that needs a particular interleaving of disconnects, reuse and traffic is not reached.",
 [TPS, SC, RPC], [("per-server address table", SC), ("dispatch by connection and address", TPS), ("notification target", RPC)])

prop("P04", "Socket addresses are unique, valid and stable",
 "At any time the socket addresses of the clients connected to one tunnel server are pairwise distinct, never 0x0000 or 0xFFFF, announced to the server when the client connects and unchanged until that client is announced as disconnected. This holds for any history of connects and disconnects, however long, including after the 16-bit address space has been used up and wraps around while long-lived clients keep their addresses.",
 ["histories", "schedules"],
 "histories of connects and disconnects of any length (more than 65536 registrations), any set of long-lived clients, including blocks of neighbouring addresses",
 "Tests register a handful of clients; wrap-around and occupied neighbouring addresses need tens of thousands of registrations in one life of the server connection.",
 [SC, TPS], [("free address search", SC)],
 ["socketAddress in ClientConnected notifications"], [("address counter", "last address handed out", SC)])

prop("P05", "Registration is exclusive and rejections are harmless",
 "At most one live connection holds a given UUID at any time, as tunnel server or as tunnel client, and a connection registers at most once; every registration request is answered with success or with the error that its circumstances call for (invalid UUID, already registered, unknown server), and a connection rejected for the latter two is closed after the answer. A rejected registration never disturbs the existing holder or its tunnels, and once the holder's connection is gone the UUID can be registered again.",
 ["histories", "schedules", "fault_sequences"],
 "all interleavings of registrations, re-registrations, cross-role reuse and disconnects of competing peers, across transports",
 "Tests check each rejection once, sequentially, on an otherwise idle proxy; races between a dying holder and its successor, and the state left after a rejection, are not sampled.",
 [TPS, TH, RPC], [("registration checks", TPS), ("kill after response", RPC)],
 ["RegisterServer/RegisterClient responses", "connection close"])

prop("P06", "Clients are announced and withdrawn exactly once",
 "A tunnel server is told exactly once that a client connected, with the client's true name, UUID and peer address, before it receives any of that client's data, and told exactly once that it disconnected, after the last of its data, for whatever reason the client's connection ended. Once the network is quiet, the set of clients a connected server has been told about equals the set of clients actually connected to it.",
 ["schedules", "histories", "fault_sequences"],
 "all ways a client connection can end (graceful close, reset, abort with unsent data, server-requested disconnect, TLS or WebSocket errors, proxy-side kill), at every point relative to registration and traffic",
 "Tests cover a graceful disconnect of an idle client; resets, closes racing registration and traffic, and repeated churn are not exercised.",
 [TPS, RPC, TCP, WS, UX], [("ClientConnected / ClientDisconnected notifications", TPS), ("transport disconnect handling", TCP)],
 ["notifications at the tunnel server"])

prop("P07", "A lost tunnel server releases its clients and its UUID",
 "When the connection of a tunnel server ends for any reason (graceful close, reset, silent death detected by the proxy, kill after a protocol violation), every client connected to it is disconnected promptly, no other server's clients are affected, and the server can register again under the same UUID and serve new clients. No client remains connected to a server that no longer exists.",
 ["fault_sequences", "crash_points", "schedules"],
 "crash or disconnect of any server at any point of registration, traffic and client churn; several clients over several transports; clients that are slow or stalled",
 "Tests close one idle server connection gracefully; a crash in the middle of traffic, registration races and stalled clients are not sampled.",
 [TPS, TPC, TCP, WS, UX], [("server disconnect handling", TPS), ("kill of client connections", TCP)])

prop("P08", "Idle and half-open peers are dropped on time, live ones never",
 "A connection that has not registered within the configured inactivity timeout is closed at that deadline and not earlier, a TCP connection that does not complete the TLS handshake is closed within about 5 s, and a registered tunnel server from which nothing arrives for 60 s is closed and its registration released. A registered client is never dropped for being idle, and a server that sends anything at least once in every 55 s is never dropped.",
 ["schedules", "fault_sequences", "histories"],
 "any time at which a peer stalls, dies silently or sends, any arrival pattern around the deadlines, wall-clock jumps, timer coarseness",
 "Tests wait for one timeout of one silent connection in real time; the minute-long server deadline, exact lower bounds, drip-feeding peers, clock jumps and half-open links are out of reach.",
 [TPC, TCP, L + "server/tcpsocketserver.h"], [("inactivity timer", TPC), ("TLS handshake timer", TCP)],
 ["time at which the peer sees the connection close"], [("inactive timer", "restarted by every reception on a server link", TPC)])

prop("P09", "Exactly one response per request, whatever the segmentation",
 "Every complete JSON-RPC request that a connection sends while it is not a tunnel client gets exactly one response carrying its id, in request order, with the documented outcome, and the result does not depend on how the byte stream is cut into segments or coalesced. A request that is not valid (broken JSON, missing id, unknown method or namespace, wrong parameters, more than 10 KiB without being complete) gets an error response, except the oversized one, and the connection is closed.",
 ["inputs", "schedules"],
 "every request content (including braces, quotes and escapes in strings), every segmentation and coalescing on stream transports and framed links, pipelined requests",
 "Tests send each request as one write on an idle loopback, so each arrives whole and alone; only one hand-picked split is tested.",
 [RPC, TPC, TH, L + "jsonrpc/jsonhandler.cpp"], [("splitting the stream into JSON documents", TPC), ("request validation and dispatch", RPC)],
 ["responses on the wire"])

prop("P10", "No peer can crash the proxy or disturb other tunnels",
 "Whatever bytes any set of peers sends, in whatever state, on any transport, and however they disconnect, stall or reset, the proxy neither crashes nor hangs nor touches freed memory, and the tunnels of well-behaved peers keep working: their data flows intact and they are not disconnected. The proxy keeps accepting and serving new connections afterwards.",
 ["inputs", "fault_sequences", "schedules", "histories"],
 "every byte sequence and every disconnect, reset, stall or system-call failure of misbehaving peers, at every point, concurrently with well-behaved tunnels",
 "Tests send a few malformed packets, one at a time, on an otherwise idle proxy and only look at the offending connection.",
 [TPS, TPC, RPC, TCP, WS, UX, MON, SLIP], [("input validation", RPC), ("deferred deletion of connection objects", TPS), ("per-transport error handling", TCP)])

prop("P11", "An enabled tunnel server always finds its way back",
 "Once started, the tunnel server of the client library returns to the running state within a bounded time after the network and the proxy work again, whatever sequence of failed connects, resets, partitions, half-open links, proxy crashes and restarts, rejected registrations and stalls came before, without any help from the application. After it has been stopped it disconnects and makes no further connection attempts until it is started again.",
 ["fault_sequences", "crash_points", "schedules"],
 "every sequence and timing of connection failures, in every phase of connecting, handshake and registration, and of start and stop calls",
 "Tests restart the proxy once in a quiet moment and wait; faults in the middle of handshakes, silent partitions and synchronous connect errors need control over network and clock.",
 [CSS, C + "tcpsocketconnection.cpp", CJ], [("reconnect timer", CSS), ("connection state machine", CSS)])

prop("P12", "Tunnel sockets of the library server mirror the proxy's clients",
 "The tunnel server of the client library emits exactly one connected signal and later exactly one disconnected signal for every client, delivers that client's bytes only in between, complete and in order, and when its own link ends it disconnects every socket it still has. Once everything is quiet, its set of connected sockets equals the clients actually connected through the proxy, and what is written to a socket reaches exactly that client.",
 ["schedules", "histories", "fault_sequences"],
 "all interleavings of notifications, replies, data frames and reads (including a registration response coalesced with the first frames), all client churn, all link losses",
 "Tests connect one or two clients in sequence over an idle loopback where each message arrives in its own read.",
 [CSS, C + "tunnelproxy/tunnelproxysocket.cpp", CJ, SLIP], [("frame parsing and socket table", CSS), ("reply and notification matching", CJ)])

prop("P13", "The library's remote connection has a truthful life cycle",
 "A remote connection of the client library reports itself remotely connected exactly from the proxy's successful registration answer until its link ends, delivers every byte the tunnel server sends after the registration, complete and in order, and nothing else, and accepts data only in that period. Every connect attempt ends either remotely connected or, within a bounded time after the connection failed, was rejected or was closed, in the disconnected state, from which a new attempt can be made.",
 ["schedules", "histories", "fault_sequences"],
 "all segmentations and coalescings of the handshake with first payload, all rejections and connection failures in every phase, repeated connect and disconnect calls",
 "Tests connect in a quiet loopback where the answer and the first payload never share a read, and drive one attempt per object.",
 [CRC, CJ, C + "tcpsocketconnection.cpp", C + "websocketconnection.cpp"], [("connection state machine", CRC), ("hand-over from JSON to raw data", CRC)])

prop("P14", "Keep-alive keeps a healthy server link registered",
 "A tunnel server run with the client library over a working link stays registered with the proxy without interruption for any length of time and under any traffic pattern: idle, only sending, only receiving, or both. It does so while the proxy drops server links from which nothing arrives for a minute.",
 ["schedules", "histories"],
 "hours of any traffic pattern between server and clients, any latency well below the timeouts, timer coarseness and wall-clock jumps",
 "Tests run for seconds; the interplay of the 30 s ping, the 60 s drop and traffic direction needs hours of simulated time.",
 [CSS, TPC], [("keep-alive ping timer", CSS), ("server inactivity timer", TPC)])

prop("P15", "Monitor answers are well-formed, one per request and true",
 "Every refresh request on the monitor socket is answered by exactly one newline-terminated JSON document, independent of how requests are segmented or coalesced, and when the proxy is quiet its numbers equal reality: connections per transport, registered servers and clients, who is connected to whom, and the exact numbers of bytes each of them sent and was sent. Throughput counts the tunnelled payload of about one second and returns to zero when traffic stops, and no monitor peer can disturb tunnels or other monitors.",
 ["histories", "schedules", "inputs"],
 "every history of connects, registrations, traffic and disconnects on all transports, every segmentation of monitor requests, wall-clock jumps",
 "Tests request one snapshot in a fixed situation; conservation over long churn and faults, and pipelined or split requests, are not reached.",
 [MON, TPS, ENG, L + "server/transportclient.cpp"], [("statistics snapshot", TPS), ("monitor request handling", MON), ("throughput tick", ENG)])

prop("P16", "Stopping and restarting the engine leaves nothing behind",
 "Stopping the engine at any moment closes every listening endpoint and every peer connection without crashing, and starting it again with any configuration gives a fully working proxy with no trace of earlier registrations. If one endpoint cannot be opened, the other transports still serve.",
 ["crash_points", "schedules", "configurations", "fault_sequences"],
 "stop, restart and destruction at every point of handshakes, registrations, traffic and disconnects; crash and restart; occupied ports and leftover socket files",
 "Tests start and stop an idle engine; stopping in the middle of handshakes and traffic is not exercised.",
 [ENG, TPS, TCP, WS, UX, MON], [("ordered teardown", ENG), ("transport stop", TCP)])

prop("P17", "With TLS enabled nothing is processed in clear text",
 "While SSL is enabled in the configuration, no byte received on the TCP or WebSocket endpoint outside an established TLS session has any effect: it is never answered in clear text, never registers anybody and never reaches a tunnel, and no tunnel data ever leaves these endpoints unencrypted. This holds for any mixture, timing and segmentation of clear-text, partial-handshake and encrypted traffic.",
 ["inputs", "schedules", "fault_sequences"],
 "any bytes before, during and instead of the handshake, aborted and stalled handshakes, concurrent encrypted tunnels",
 "Tests make one well-behaved TLS connection and one connection that never starts the handshake.",
 [TCP, WS], [("TLS gate on readiness and data", TCP)])

prop("P18", "Only its own server can disconnect a client, and only that client",
 "A DisconnectClient request closes exactly the client that currently holds the given address on the requesting server: its server then sees it withdrawn and the answer is success. For an address no client of the requesting server holds the answer is an error, nothing is closed and the server stays connected; a peer that is not a registered server can disconnect nobody.",
 ["histories", "schedules", "inputs"],
 "any number of servers whose clients hold equal addresses, stale and out-of-range addresses, requests racing with client disconnects and traffic",
 "Tests disconnect the only client of the only server.",
 [TPS, TH, SC], [("address lookup in the caller's own table", TPS)])

prop("P19", "Everything is released when peers go away",
 "After any history of connections, failures and attacks, once all peers are gone the proxy holds no connection, registration, descriptor or object for them, and repeating the same history does not accumulate anything. After descriptor exhaustion or other refused accepts, all transports accept and serve connections again as soon as descriptors are available.",
 ["histories", "fault_sequences"],
 "any number of repetitions of any churn, any refused accept, any way a connection can end in any phase",
 "Tests never count what is left after a connection and never exhaust descriptors.",
 [TCP, WS, UX, MON, TPS, RPC], [("deletion on disconnect", UX), ("accept error handling", TCP)])

prop("P20", "The monitor tool decodes every update",
 "The monitor client tool reports every status document the proxy sends exactly once, with exactly its content, as soon as it is complete, regardless of how the stream is segmented or coalesced, and never reports anything else. After an interruption a new connection starts clean.",
 ["schedules", "inputs"],
 "every segmentation and coalescing of the status stream, every size of status documents",
 "There is no test of the monitor client at all.",
 ["monitor/monitorclient.cpp"], [("splitting the stream at line ends", "monitor/monitorclient.cpp")])

prop("P21", "A termination signal at any instant shuts the server down cleanly",
 "When the server application receives SIGINT, SIGTERM, SIGQUIT or SIGHUP at any instant, also in the middle of handling traffic, connects or disconnects, it closes all connections and leaves its event loop with exit code 0 without crashing or hanging. A second signal during the shutdown does not change that.",
 ["crash_points", "schedules"],
 "the signal at every point at which the process can be interrupted in a system call while handling any event",
 "There is no test of the server application; a signal arriving while a handler is active cannot be placed by a unit test.",
 ["server/remoteproxyserverapplication.cpp", ENG], [("signal handler", "server/remoteproxyserverapplication.cpp")])

prop("P22", "The server runs exactly as configured, or refuses to start",
 "The server program started with a configuration file runs exactly as the file says: it listens on the configured TCP and WebSocket addresses and ports, on the configured tunnel socket and monitor socket and on nothing else, with the configured server name, inactivity timeout, encryption, certificate and complete certificate chain; log files are only written if and where configured, and appended to; keys missing in the file take their defaults. If the configuration file, or a certificate, key or chain file needed for encryption, is missing, cannot be read completely or is unusable, or if a port, host or timeout is none, the server exits with a code other than 0 and never opens an endpoint. Short and interrupted reads and a log file that cannot be written any more (full disk, I/O error) make no difference to how it serves.",
 ["inputs", "configurations", "fault_sequences"],
 "every configuration file, every subset of unusable files and every placement of failing, short or interrupted file calls while starting and serving",
 "Tests load a handful of fixed files, never run the server program and cannot make a file call fail at a chosen point.",
 [L + "proxyconfiguration.cpp", "server/main.cpp", ENG], [("loadConfiguration", L + "proxyconfiguration.cpp"), ("main", "server/main.cpp")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
