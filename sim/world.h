// Actors, recorded history and oracles.
#pragma once
#include "dispatcher.h"
#include "streams.h"
#include <QJsonDocument>
#include <QUuid>
#include <QVariantMap>
#include <QPointer>

namespace sim {

struct World;
struct Peer;
struct ServerSide;
struct ClientSide;
extern World *W;

// ------------------------------------------------------------- operations

struct Op {
    Time t = 0;
    int kind = 0;
    uint64_t a = 0, b = 0, c = 0;
};

// ------------------------------------------------------------- tunnels

// One attempt of one client to connect to one tunnel server, with the exact
// byte streams both sides put into it.
struct Tunnel {
    int id = 0;
    uint64_t key = 0;
    bool text = false;             // WebSocket clients carry UTF-8 text
    std::string name, cuuid, suuid;
    std::string ip;
    ClientSide *client = nullptr;
    ServerSide *server = nullptr;  // announced to
    int serverLink = -1;           // the server's link number it was announced on
    Conn *serverConn = nullptr;
    Conn *conn = nullptr;          // the client's connection
    int epoch = 0;
    bool regOk = false;
    Time regAt = -1;
    bool announced = false, withdrawn = false;
    Time announcedAt = -1, withdrawnAt = -1;
    uint16_t addr = 0;
    uint64_t upSent = 0, upRecv = 0, downSent = 0, downRecv = 0;
    bool clientEnding = false;     // client side started to go away (any way)
    bool closedGracefully = false;
    uint64_t downSentAtClose = 0;
    bool crossing = false;         // data was on its way to the client when it closed
    bool cutOff = false;           // an injected fault ended the connection
    bool discRequested = false;
    bool regSent = false, viaLib = false;
    bool excused = false;          // side effects of an injected fault make losses legal
    bool downTainted = false;      // e.g. an address was reused under the server's feet
};

char upByte(const Tunnel *t, uint64_t i);
char downByte(const Tunnel *t, uint64_t i);
std::string upData(const Tunnel *t, uint64_t off, size_t n);
std::string downData(const Tunnel *t, uint64_t off, size_t n);

std::string jsonStr(const std::string &s);
std::string normUuid(const std::string &s);
std::string slipFrame(uint16_t addr, const std::string &data);
std::string hexOf(const std::string &s, size_t max = 48);

// ------------------------------------------------------------- JSON-RPC expectations

struct Expect {
    int id = 0;
    std::string what;               // for messages
    int kind = 0;                   // see K_* below
    std::string uuid, srv;          // registrations
    int reg = -1;                   // index into World::regs
    bool kills = false;
    bool optional = false;          // e.g. follows a request that closes the connection
    int64_t addr = 0;
    Tunnel *t = nullptr;
    Time sentAt = 0;
    std::string pingTs;
};
enum { K_HELLO, K_PING, K_REGSERVER, K_REGCLIENT, K_DISC, K_INTROSPECT, K_ERROR, K_INVALIDUUID, K_NONE };

struct Reg {
    bool server = false;
    std::string uuid, srv, result, name;
    Peer *p = nullptr;
    Conn *conn = nullptr;
    Time tSend = -1, tResp = -1;
    int epoch = 0;
};

// ------------------------------------------------------------- raw peers

struct Peer {
    int id = 0;
    std::string name;
    Node *node = nullptr;
    Transport tr = TR_TCP;
    Stream *st = nullptr;
    WsStream *ws = nullptr;
    int epoch = 0;
    Time openedAt = 0, upAt = -1, downAt = -1;
    DownKind downKind = DK_NONE;
    bool isUp = false, isDown = false;
    size_t unsentAtClose = 0;    // of our bytes, when the proxy closed
    bool gotAny = false;         // the proxy has sent something on top of the transport
    bool selfEnded = false;      // we closed, aborted or vanished
    bool selfVanished = false;
    Time selfEndedAt = -1;
    bool misbehaved = false;     // sent something the proxy may close us for
    bool expectKill = false;     // the proxy must close us
    Time expectKillSince = -1;
    Time expectSentAt = 0;
    bool paused = false;
    Time pausedTotalSince = -1;
    bool wellBehaved = true;
    bool exemptDrop = false;
    uint64_t appSent = 0, appRecv = 0; // bytes above the transport
    std::string outq;            // bytes waiting to be dripped out
    bool dripping = false;
    double drip = 0;             // probability that a write is cut and delayed
    std::deque<Expect> pend;
    int nextId = 1;
    bool registered = false;     // proxy answered NoError
    bool regPending = false;

    virtual ~Peer() {}
    void open(Transport t);
    void openWith(Stream *s);
    void put(const std::string &d);          // in order, perhaps dripped
    virtual void up() = 0;
    virtual void bytes(const std::string &d) = 0;
    virtual void down(DownKind k);
    virtual const char *kindName() const = 0;
    void endGraceful();
    void endAbort();
    void endVanish();
    void setPaused(bool p);
    Conn *conn() const { return st ? st->conn() : nullptr; }
    bool linkAlive() const;      // both processes hold it and nothing has ended it
    bool proxyHolds() const { return st && st->proxyHolds(); }
    void pumpDrip();
    virtual bool dropJustified(std::string &why);
    bool handshakeLate() const;
    std::string request(const Expect &e, const std::string &method, const std::string &params);
    void expect(Expect e) { if (expectKill) e.optional = true; e.sentAt = S->now; pend.push_back(e); }
    void handleResponse(const QVariantMap &m, const std::string &raw);
    virtual void onAnswer(const Expect &e, const std::string &err, const QVariantMap &m) { (void)e; (void)err; (void)m; }
    std::set<std::string> registrationCan(const Expect &e, bool &takenForSure);
    bool refusalLost();
    void checkRegistration(const Expect &e, const std::string &err);
};

// whoever plays a tunnel server
struct ServerSide {
    int sid = 0;
    std::string uuid, sname;
    std::string regName;                  // registers with this name instead
    Node *snode = nullptr;
    int linkNo = 0;                       // incremented with each new link
    std::map<uint16_t, Tunnel *> addrs;   // announced and not withdrawn on this link
    uint64_t announces = 0;
    uint16_t lastAddr = 0;
    virtual ~ServerSide() {}
    virtual bool running() const = 0;     // may send
    virtual Conn *link() const = 0;
    virtual bool raw() const = 0;
    virtual void sendDown(Tunnel *t, size_t n, uint64_t how) = 0;
    virtual void requestDisconnect(int64_t addr, Tunnel *t) = 0;
    virtual bool isWs() const = 0;
    bool linkAlive() const;
    void announced(const std::string &cname, const std::string &cuuid, const std::string &ip, int addr);
    void withdrawn(int addr);
    void payload(uint16_t addr, const std::string &d);
    void linkGone();
};

struct ClientSide {
    int cid = 0;
    Tunnel *t = nullptr;
    Node *cnode = nullptr;
    virtual ~ClientSide() {}
    virtual bool canSend() const = 0;
    virtual void sendUp(size_t n) = 0;
    virtual bool raw() const = 0;
    virtual void end(int how) = 0;        // 0 graceful, 1 abort, 2 vanish
    void gotDown(const std::string &d);
};

struct RawServer : Peer, ServerSide {
    bool slip = false;
    std::string jbuf, sbuf;
    bool hello = false;
    Time pingEvery = 30 * SEC;
    bool pinging = true;
    bool rejected = false;
    int regIdx = -1;
    uint64_t garbageFrames = 0;
    void start(Transport t, const std::string &uuid);
    void up() override;
    void bytes(const std::string &d) override;
    void down(DownKind k) override;
    const char *kindName() const override { return "server"; }
    bool running() const override { return registered && isUp && !isDown && !selfEnded; }
    Conn *link() const override { return conn(); }
    bool raw() const override { return true; }
    bool isWs() const override { return trIsWs(tr); }
    void sendDown(Tunnel *t, size_t n, uint64_t how) override;
    void requestDisconnect(int64_t addr, Tunnel *t) override;
    void frame(const std::string &f);
    void json(const std::string &line);
    void schedulePing();
    void onAnswer(const Expect &e, const std::string &err, const QVariantMap &m) override;
    bool dropJustified(std::string &why) override;
    void rpc(Expect e, const std::string &method, const std::string &params);
};

struct RawClient : Peer, ClientSide {
    std::string jbuf;
    bool raw_ = false; // payload from now on
    bool hello = false;
    bool rejected = false;
    std::string suuid;
    void start(Transport t, const std::string &suuid, const std::string &cuuid);
    void up() override;
    void bytes(const std::string &d) override;
    void down(DownKind k) override;
    const char *kindName() const override { return "client"; }
    bool canSend() const override { return raw_ && isUp && !isDown && !selfEnded; }
    void sendUp(size_t n) override;
    bool raw() const override { return true; }
    void end(int how) override;
    void onAnswer(const Expect &e, const std::string &err, const QVariantMap &m) override;
    bool dropJustified(std::string &why) override;
};

// a peer that connects and does not register: silence, activity, partial handshakes
struct IdlePeer : Peer {
    int mode = 0;          // 0 silent, 1 says Hello now and then, 2 sends partial JSON now and then
    bool plainOnTls = false;
    std::string jbuf;
    void start(Transport t, int mode, bool plain);
    void up() override;
    void bytes(const std::string &d) override;
    const char *kindName() const override { return "idle"; }
    bool dropJustified(std::string &why) override;
    void act();
    bool tlsNever() const { return plainOnTls; }
};

// scripted JSON-RPC peer (unregistered)
struct RpcPeer : Peer {
    std::string jbuf;
    bool expectClose = false;
    int extra = 0;
    bool scriptDone = false;
    std::string script;      // already built, sent piecewise
    std::vector<std::string> wsMsgs;
    uint64_t r1 = 0;
    void start(Transport t, uint64_t rnd, int n);
    void build(uint64_t rnd, int n);
    void up() override;
    void bytes(const std::string &d) override;
    void down(DownKind k) override;
    const char *kindName() const override { return "rpc"; }
    bool dropJustified(std::string &why) override;
};

// hostile peer: garbage in any state
struct ChaosPeer : Peer {
    Rng r;
    int left = 0;
    int mode = 0;
    bool gotSlip = false;
    std::string in;
    void start(Transport t, uint64_t rnd, int mode);
    void up() override;
    void bytes(const std::string &d) override;
    const char *kindName() const override { return "chaos"; }
    bool dropJustified(std::string &) override { return true; }
    void act();
    void squat(const std::string &uuid);
    std::string garbage();
};

struct MonitorReq { Time t; bool printAll; };

struct MonitorPeer : Peer {
    std::string buf;
    typedef MonitorReq Req;
    std::deque<Req> reqs;
    uint64_t answers = 0;
    bool bad = false;
    QVariantMap last;
    bool haveLast = false;
    bool lastAll = false;
    Time lastAt = 0;
    void start();
    void refresh(int how); // 0 no params, 1 printAll false, 2 printAll true
    void refreshMany(int n, uint64_t rnd);
    void up() override {}
    void bytes(const std::string &d) override;
    const char *kindName() const override { return "monitor"; }
    bool dropJustified(std::string &why) override;
};

// ------------------------------------------------------------- the world

struct World {
    std::string property, profile;
    uint64_t seed = 0;
    Rng rOps, rKnob, rPay, rUuid;
    std::map<std::string, double> over;
    std::map<std::string, double> drawn;
    std::set<int> dropped;
    std::vector<Op> ops;
    std::vector<std::string> log;  // readable operation and fault trace

    std::string dir;               // scratch
    bool ssl = false;
    int inactiveMs = 8000;
    Target tg;
    std::string monitorPath, serverName = "sim proxy \"x\" {1}";
    int epoch = 0;
    bool proxyUp = false;
    Time proxyChangedAt = 0;
    Time stallTotal = 0;           // proxy stalls and slow activations allowed for
    std::vector<Peer *> peers;
    std::vector<RawServer *> rservers;
    std::vector<RawClient *> rclients;
    std::vector<ServerSide *> servers;
    std::vector<ClientSide *> clients;
    std::vector<IdlePeer *> idles;
    std::vector<RpcPeer *> rpcs;
    std::vector<ChaosPeer *> chaos;
    std::vector<MonitorPeer *> monitors;
    std::vector<Tunnel *> tunnels;
    std::map<std::string, Tunnel *> byName;
    int floods = 0;
    bool smallMessages = false;
    std::map<std::string, std::vector<Tunnel *>> attempts; // of one remote connection, which keeps its name
    std::vector<Reg> regs;
    std::vector<std::string> serverUuids;
    int nextNode = 0, nextTunnel = 0;
    bool quiescing = false, probing = false;
    bool clockJumps = false;
    uint64_t progress = 0, lastProgress = 0;
    Time lastProgressAt = 0;
    Time quiesceStart = 0;
    Time quietSpan = 66 * SEC, quiesceCap = 1500 * SEC;
    std::function<void()> finalChecks;
    std::function<void()> atEnd;           // instead of ending the run there
    std::function<void(int status)> afterExit; // the program is through its exit handlers
    std::function<bool()> finalReady;  // more to wait for?
    std::function<void(MonitorPeer *, const MonitorReq &, const QVariantMap &)> onMonitorAnswer;
    bool allowAllTransports = true;
    int transports = 7;            // endpoints the proxy could open: 1 TCP, 2 WebSocket, 4 unix
    bool acceptFaults = false;
    bool anyFaultConfigured = false;
    std::string defaultCls;

    double knob(const std::string &n, double lo, double hi);
    int knobi(const std::string &n, int lo, int hi);
    bool coin(const std::string &n, double p);
    Node *newNode(const std::string &n);
    std::string newUuid();
    Tunnel *newTunnel(const std::string &suuid, const std::string &cuuid, Node *n, Transport tr);
    void note(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
    void state(const std::string &abstract);
    Transport pickTransport(uint64_t r, bool forServer);

    void writeConfig(const std::string &path, bool ssl, int inactive, uint16_t tcp, uint16_t ws);
    void startProxy();
    void startEngine(const std::string &name = "proxy.conf"); // with ssl, inactiveMs, tg and monitorPath as they are
    void stopProxy();
    void crashProxy(bool silent);
    void defaultNet();

    bool possiblyHeld(const Reg &r, Time from) const;
    bool definitelyHeld(const Reg &r, Time from) const;

    void beginQuiesce();
    void pollQuiesce();
    void periodic();
    void tunnelFinal();
    void unexpectedDrop(Peer *p, const std::string &how);
    Time slack() const { return stallTotal + S->slowTotal + 200 * MS; }
    int proxyFds() const { return S->openFds(S->proxy); }
    void run(std::vector<Op> ops, Time end);
    std::function<void(const Op &)> exec;
};

void preloadProfiles();
void setupProfile(const std::string &profile); // profiles.cpp

} // namespace sim
