"""What decides which property: simulation profiles (with weights) and the
violation classes of the oracles that belong to it."""

CRASH = ['crash', 'hang']

PROPS = {
    'P01': dict(how='client payload compared byte by byte with the generated stream',
                profiles=[('tunnel', 6), ('chaos', 1), ('timeouts', 1)],
                classes=['corrupt.up', 'lost.up', 'lost.up_close', 'crosstalk.up', 'control_in_payload.up', 'slip', 'payload'] + CRASH),
    'P02': dict(how='server payload compared byte by byte with the generated stream',
                profiles=[('tunnel', 24), ('chaos', 4), ('timeouts', 4), ('churn', 2), ('wsserver', 2)],
                classes=['corrupt.down', 'lost.down', 'crosstalk.down', 'control_in_payload.down'] + CRASH,
                # tunnel servers on WebSocket: the first frame with a byte that is not text ends the link
                profile_classes={'wsserver': ['corrupt', 'lost', 'crosstalk', 'control_in_payload', 'drop.server', 'probe'] + CRASH}),
    'P03': dict(how='every received byte attributed to its tunnel',
                profiles=[('tunnel', 5), ('rpc', 1), ('chaos', 2)],
                classes=['crosstalk', 'control_in_payload', 'payload'] + CRASH),
    'P04': dict(how='long histories of clients coming and going, up to several times the address range',
                profiles=[('addr', 2), ('churn', 6), ('tunnel', 2)],
                classes=['addr', 'announce', 'withdraw', 'payload', 'crosstalk', 'reg.wrong_result'] + CRASH),
    'P05': dict(how='registration outcomes against a model of who can hold the UUID',
                profiles=[('rpc', 4), ('tunnel', 2), ('timeouts', 1)],
                classes=['reg', 'rpc.not_closed', 'probe', 'drop.server', 'drop.client'] + CRASH),
    'P06': dict(how='announcements against the set of connected clients',
                profiles=[('tunnel', 15), ('rpc', 3), ('timeouts', 3), ('churn', 2)],
                classes=['announce', 'withdraw', 'payload', 'addr'] + CRASH),
    'P07': dict(how='server loss by close, reset, silence and kill',
                profiles=[('tunnel', 3), ('timeouts', 3), ('rpc', 1)],
                classes=['orphan', 'timeout.dead_server_kept', 'timeout.silent_server_kept', 'probe', 'drop.client', 'drop.server', 'reg.double', 'reg.wrong_result'] + CRASH),
    'P08': dict(how='simulated clock, deadlines of every kind of peer',
                profiles=[('timeouts', 7), ('rpc', 1)],
                classes=['timeout', 'early_drop', 'drop.idle', 'drop.server', 'drop.client'] + CRASH),
    'P09': dict(how='JSON-RPC scripts cut at every place, responses against the expected sequence',
                profiles=[('rpc', 7), ('timeouts', 1)],
                classes=['rpc', 'early_drop', 'drop.rpc'] + CRASH),
    'P10': dict(how='hostile peers next to honest tunnels, partly with AddressSanitizer',
                profiles=[('chaos', 7), ('tunnel', 1), ('rpc', 1)], asan=4,
                classes=['drop', 'lost', 'corrupt', 'crosstalk', 'probe', 'early_drop', 'withdraw', 'announce'] + CRASH),
    'P11': dict(how='the tunnel server of the client library (real code) through failed connects, resets, partitions, half-open links, proxy crashes, stalls, start and stop calls',
                profiles=[('lib', 3), ('fakeproxy', 1)],
                classes=['lib.start_refused', 'lib.still_running', 'lib.running_after_stop', 'lib.connect_after_stop', 'lib.not_running', 'lib.stale', 'lib.state', 'hang'] + CRASH,
                note='a server that does not come back by itself, one that is not stopped after stopServer(), a running state without a connection',
                assumptions=['two minutes after the network, the proxy and the UUID are free again count as the bound (silence of the old link 60 s, connect watchdog, two rounds of the 5 s timer)',
                             'applications do not call start or stop from inside signals of their own start and stop calls; from other signals they do',
                             'the library servers use TCP and TLS; web socket servers are the known finding of P02']),
    'P12': dict(how='signals and data of the tunnel sockets of the library server against the registered clients and their byte streams',
                profiles=[('lib', 1), ('fakeproxy', 1)], asan=2,
                classes=['lib.socket_signals', 'lib.connect_missing', 'lib.disconnect_missing', 'sock', 'announce', 'withdraw', 'payload', 'addr', 'corrupt', 'lost', 'crosstalk', 'control_in_payload', 'probe'] + CRASH,
                note='a client reported twice, not at all, or not reported as gone; bytes lost, altered, of somebody else or of a client that is not connected'),
    'P13': dict(how='remote connections of the client library (real code), reused many times, every state change and byte checked',
                profiles=[('lib', 2), ('fakeproxy', 1)], asan=2,
                classes=['lib.data_unconnected', 'lib.send_result', 'lib.still_connected', 'lib.stale', 'lib.attempt_pending', 'lib.attempt_failed', 'lib.not_connected', 'lib.state',
                         'rc', 'corrupt', 'lost', 'crosstalk', 'control_in_payload'] + CRASH,
                note='a connection stuck in between, connected without a registration, data outside of the connected time, a new attempt that fails without a reason',
                assumptions=['an attempt whose other end vanished without any packet counts as pending, not as failed: the library has no timeout for it, and the statement does not ask for one']),
    'P14': dict(how='working links for up to five hours of simulated time under every traffic pattern',
                profiles=[('keepalive', 1)],
                classes=['lib.keepalive', 'lib.not_running', 'drop.server', 'lost', 'corrupt', 'hang'] + CRASH,
                note='a library server that loses its registration although its link works'),
    'P15': dict(how='every monitor answer against the model of who is connected, exact numbers once quiet',
                profiles=[('monitor', 1)],
                classes=['monitor', 'drop.server', 'drop.client', 'lost', 'corrupt'] + CRASH),
    'P16': dict(how='start, stop, restart, configuration change, crash and destruction at every kind of moment, blocked endpoints',
                profiles=[('engine', 1)],
                classes=['engine', 'stop', 'start', 'probe', 'reg', 'announce.unknown', 'crosstalk', 'corrupt', 'drop', 'monitor.inconsistent', 'monitor.counters'] + CRASH,
                note='a peer that survives a stop, a registration that outlives it, an endpoint that does not open or close again'),
    'P17': dict(how='every byte that leaves the endpoints checked to be TLS, clear text and half handshakes at any time',
                profiles=[('tlsgate', 1)],
                classes=['tls', 'timeout.handshake_kept', 'reg', 'announce', 'corrupt', 'crosstalk', 'lost', 'drop', 'payload', 'rpc'] + CRASH),
    'P18': dict(how='DisconnectClient by anybody for any address',
                profiles=[('tunnel', 4), ('rpc', 3)],
                classes=['disc', 'withdraw', 'drop.client', 'drop.server', 'rpc.wrong_outcome'] + CRASH),
    'P19': dict(how='the same history again and again, everybody leaves in between: descriptors, timers, notifiers, objects and memory blocks counted',
                profiles=[('release', 1)],
                classes=['release', 'probe', 'hang'] + CRASH,
                assumptions=['QWebSocketServer of Qt 5.15 itself never deletes the socket of a TLS handshake that fails (children of its private QSslServer); these are not counted',
                             'when accept() fails for lack of descriptors after an earlier accept, QTcpServer polls the listener without a pause; the simulator limits that to one attempt per millisecond']),
    'P20': dict(how='the monitor tool\'s client against the real monitor endpoint: segmentation, many requests at once, its own and the proxy\'s interruptions',
                profiles=[('moncli', 1)],
                classes=['moncli', 'hang'] + CRASH,
                note='a document missed, reported late, twice, altered or made up; an answer lost; the rest of an old connection in a new one',
                assumptions=['the terminal output of the tool is not looked at, only what its client hands over for output']),
    'P21': dict(how='main() of the server itself, signals raised in system calls, allocations, while it sleeps and while it starts, up to four of them',
                profiles=[('signal', 1)], asan=4,
                classes=['signal', 'hang'] + CRASH,
                note='a crash, a second life, an exit code other than 0, a connection, endpoint or socket file left behind',
                assumptions=['the signal comes in a system call or allocation of the server or while it waits; the code between two such points is not interrupted']),
    'P22': dict(how='main() of the server itself with generated configurations: endpoints, names, timeouts, certificates and log files against the file, unreadable, torn and wrong files and values, failing, short and interrupted file calls, full disks',
                profiles=[('config', 1)], asan=2,
                classes=['config', 'rpc.wrong_outcome', 'timeout', 'early_drop', 'monitor.malformed', 'drop', 'probe', 'signal', 'hang'] + CRASH,
                note='an endpoint that is missing or not configured, another name, timeout, certificate or chain, a start in spite of an unusable file or value, a refusal of a good one, a log file lost or written without being asked for',
                assumptions=['with encryption off it is left open whether an unusable certificate file is an obstacle',
                             'a configuration file torn by a crash while it was written, or with a read error in its middle, is still a well-formed file for QSettings and is not generated',
                             'the content of log lines is not looked at']),
}

MEASURE = ('64-bit hashes of the abstract proxy state sampled at every step with an event of interest: registered servers, clients per server, transports, '
           'phases of the peers and pending registrations')

# knobs at which the environment is as friendly as possible, tried by the minimiser
CALM_KNOBS = {'calm': 1, 'sysFaults': 0, 'slow': 0, 'slowProb': 0, 'jitter': 0, 'coalesce': 0, 'smallBuffers': 0, 'dripping': 0, 'wsFragments': 0, 'postedLate': 0, 'coarse': 0, 'chunkMode': 0, 'ssl': 0, 'pickMode': 0}

COMPONENTS = {
    'real': ['libnymea-remoteproxy (engine, transport servers, JSON-RPC server, tunnel proxy, SLIP, monitor server, configuration): every line of it, compiled from /repo',
             'libnymea-remoteproxyclient (tunnel server, remote connection, tunnel sockets, JSON-RPC client, TCP and web socket connections) in the profiles lib, keepalive and fakeproxy, the server program in the profiles signal and config, the monitor client in the profile moncli',
             'Qt 5.15 (sockets, web sockets, local sockets, timers, JSON) and OpenSSL as shipped, above the system call boundary'],
    'stub': ['the kernel below the C library boundary (sockets, poll, clocks, descriptors): simulated, single process', 'the event dispatcher: simulated, decides every interleaving',
             'randomness (getrandom, OpenSSL RAND, QUuid::createUuid): seeded', 'remote peers (raw tunnel servers, clients, hostile peers, monitors; in the profile fakeproxy also the proxy): written for the simulation'],
    'assumptions': ['TCP as a reliable ordered byte stream with arbitrary segmentation; the simulated kernel follows Linux semantics for the calls Qt makes',
                    'one thread: the proxy and the library have no threads of their own'],
}

NOT_APPLICABLE = {}
