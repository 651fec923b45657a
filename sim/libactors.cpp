// The client library as real code: tunnel servers (TunnelProxySocketServer) and
// remote connections (TunnelProxyRemoteConnection) with the applications that use
// them, against the real proxy and next to protocol level peers.
#include "profiles.h"
#include <algorithm>
#include "tunnelproxy/tunnelproxysocketserver.h"
#include "tunnelproxy/tunnelproxyremoteconnection.h"

using remoteproxyclient::TunnelProxyRemoteConnection;
using remoteproxyclient::TunnelProxySocket;
using remoteproxyclient::TunnelProxySocketServer;

namespace sim {

enum LibOp {
    L_SERVER = O_LIB_FIRST, L_SRV_STOP, L_SRV_START, L_SRV_CYCLE, L_SRV_CRASH, L_SRV_DELETE, L_CLIENT, L_CLI_AGAIN, L_CLI_END, L_CLI_DELETE, L_CLI_CRASH,
    L_NETDOWN, L_BLOCK, L_HALFOPEN, L_RST, L_LIBSTALL, L_PROXY_CRASH, L_PROXY_POWER, L_PROXY_RESTART, L_CLOCK, L_NOSOCKET
};

static bool g_keepalive = false;   // nothing may interrupt a link
static double g_reentrant = 0;     // applications that call back from inside of signals
static int g_inCall = 0;           // ... but not from those of their own start, stop, connect and disconnect calls
// the connection a library object works with: it may have given up later ones before they were made
static Conn *curConn(Node *n)
{
    for (auto i = S->conns.rbegin(); i != S->conns.rend(); ++i)
        if (i->ep[0].node == n && i->state == 1 && !i->ep[0].closed) return &*i;
    return n->lastConn;
}

static bool callsBack(double p) { return !g_inCall && W->rPay.chance(g_reentrant * p); }
struct InCall { InCall() { g_inCall++; } ~InCall() { g_inCall--; } };
static Time g_lastCut = 0;

static const char *srvState(TunnelProxySocketServer::State s)
{
    static const char *n[] = {"connecting", "host lookup", "connected", "initializing", "register", "running", "disconnecting", "disconnected"};
    return n[(int)s];
}

static bool busy(Node *n) { return n->stalledUntil > S->now; }

static QUrl urlFor(bool ws)
{
    return QUrl(QString("%1://%2:%3").arg(ws ? (W->ssl ? "wss" : "ws") : (W->ssl ? "ssl" : "tcp")).arg(QString::fromStdString(ipStr(W->tg.ip))).arg(ws ? W->tg.wsPort : W->tg.tcpPort));
}

// this end of a connection cannot be used any more, and its process could know
static bool endedHere(const Conn *c, int side)
{
    const Endpoint &e = c->ep[side];
    return e.closed || e.reset || (e.rxFin && e.avail() == 0);
}

// ------------------------------------------------------------- tunnel server

struct LibServer : ServerSide {
    QPointer<TunnelProxySocketServer> srv;
    Conn *conn_ = nullptr;
    bool enabled = false, trustTls = true, everRunning = false, wasRunning = false, gone = false;
    Time changedAt = 0;          // application call
    int connectsAtStop = 0;
    int regIdx = -1;
    bool mayEnd = false;         // the application or a fault ended this link
    std::map<TunnelProxySocket *, Tunnel *> socks;
    std::map<TunnelProxySocket *, int> told;
    void create(const std::string &u);
    bool running() const override { return srv && !gone && srv->running() && conn_ && !conn_->ep[0].closed && !conn_->ep[0].reset; }
    Conn *link() const override { return conn_; }
    bool raw() const override { return false; }
    bool isWs() const override { return false; }
    void start();
    void stop();
    void sendDown(Tunnel *t, size_t n, uint64_t how) override;
    void requestDisconnect(int64_t addr, Tunnel *t) override;
    void onState(TunnelProxySocketServer::State s);
    void onRunning(bool r);
    void onClient(TunnelProxySocket *s);
    void onGone(TunnelProxySocket *s);
    void sawEnd(const char *what);
};
static std::vector<LibServer *> g_lsrv;

void LibServer::create(const std::string &u)
{
    uuid = u;
    sid = (int)W->servers.size();
    sname = "L" + std::to_string(sid);
    snode = W->newNode("lsrv");
    W->servers.push_back(this);
    g_lsrv.push_back(this);
    NodeScope sc(snode);
    srv = new TunnelProxySocketServer(QUuid(QString::fromStdString(uuid)), QString::fromStdString(sname + " {\"}"));
    App::setRoot(srv, snode);
    TunnelProxySocketServer *s = srv;
    QObject::connect(s, &TunnelProxySocketServer::stateChanged, s, [this](TunnelProxySocketServer::State st) { onState(st); });
    QObject::connect(s, &TunnelProxySocketServer::runningChanged, s, [this](bool r) { onRunning(r); });
    QObject::connect(s, &TunnelProxySocketServer::clientConnected, s, [this](TunnelProxySocket *k) { onClient(k); });
    QObject::connect(s, &TunnelProxySocketServer::clientDisconnected, s, [this](TunnelProxySocket *k) { onGone(k); });
    QObject::connect(s, &TunnelProxySocketServer::sslErrors, s, [this](const QList<QSslError> &l) {
        if (!trustTls) return;
        if (l.size() % 2) srv->ignoreSslErrors(); else srv->ignoreSslErrors(l);
    });
}

void LibServer::start()
{
    if (!srv || busy(snode)) return;
    enabled = true;
    changedAt = S->now;
    mayEnd = true;
    InCall in;
    NodeScope sc(snode);
    if (!srv->startServer(urlFor(false))) S->violation("lib.start_refused", sname + ": startServer refused a valid URL");
}

void LibServer::stop()
{
    if (!srv || busy(snode)) return;
    enabled = false;
    changedAt = S->now;
    mayEnd = true;
    Time at = S->now;
    {
        InCall in;
        NodeScope sc(snode);
        srv->stopServer();
    }
    connectsAtStop = snode->connects;
    S->after(1, [this, at]() { if (!enabled && changedAt == at) connectsAtStop = snode->connects; }); // Qt goes on with the connect() it is in the middle of
    S->after(SEC, [this, at]() {
        if (enabled || gone || changedAt != at || !srv || busy(snode)) return;
        if (srv->running()) S->violation("lib.still_running", sname + " is running a second after it was stopped");
        else if (srv->state() != TunnelProxySocketServer::StateDisconnected) S->violation("lib.still_running", sname + " is " + srvState(srv->state()) + " a second after it was stopped");
        Conn *conn_ = curConn(snode);
        if (conn_ && conn_->state == 1 && !conn_->ep[0].closed) S->violation("lib.still_running", sname + " holds its connection a second after it was stopped");
    });
}

void LibServer::sendDown(Tunnel *t, size_t n, uint64_t how)
{
    if (busy(snode)) return;
    TunnelProxySocket *sock = nullptr;
    for (auto &s : socks) if (s.second == t) sock = s.first;
    if (!sock) return;
    size_t unit = t->text ? 4 : 1;
    if (t->text) n = (n + 3) / 4 * 4;
    NodeScope sc(snode);
    int pieces = 0;
    while (n) {
        size_t k = n;
        if ((how & 1) && n > unit && pieces < 40) k = unit * (1 + W->rPay.below(n / unit));
        std::string d = downData(t, t->downSent, k);
        t->downSent += k;
        sock->writeData(QByteArray(d.data(), (int)d.size()));
        n -= k;
        pieces++;
    }
}

void LibServer::requestDisconnect(int64_t, Tunnel *t)
{
    if (busy(snode)) return;
    for (auto &s : socks)
        if (s.second == t) {
            t->discRequested = true;
            NodeScope sc(snode);
            s.first->disconnectSocket();
            return;
        }
}

void LibServer::onState(TunnelProxySocketServer::State s)
{
    S->trace("%s: %s", sname.c_str(), srvState(s));
    S->note('L', sid, (int)s);
    if (gone) return;
    W->state("ls " + std::to_string((int)s) + " " + std::to_string(std::min<size_t>(addrs.size(), 6)) + (enabled ? "e" : "s") + (wasRunning ? "w" : ""));
    switch (s) {
    case TunnelProxySocketServer::StateConnecting:
        if (wasRunning) sawEnd("connects again");
        break;
    case TunnelProxySocketServer::StateConnected: case TunnelProxySocketServer::StateInitializing:
        conn_ = curConn(snode);
        break;
    case TunnelProxySocketServer::StateRegister: {
        conn_ = curConn(snode);
        Reg r;
        r.server = true;
        r.uuid = uuid;
        r.conn = conn_;
        r.tSend = S->now;
        r.epoch = W->epoch;
        regIdx = (int)W->regs.size();
        W->regs.push_back(r);
        break;
    }
    default: break;
    }
    if (enabled && callsBack(0.03)) { S->count("probe.app_calls_back"); stop(); }
    else if (callsBack(0.01)) { S->count("probe.app_calls_back"); start(); }
}

void LibServer::onRunning(bool r)
{
    S->trace("%s: running %d", sname.c_str(), r);
    if (gone) return;
    W->progress++;
    if (srv->running() != r || (srv->state() == TunnelProxySocketServer::StateRunning) != r) S->violation("lib.state", sname + ": runningChanged(" + (r ? "true" : "false") + ") does not fit the state");
    if (r) {
        S->count("probe.lib_running");
        if (everRunning) S->count("probe.lib_running_again");
        everRunning = wasRunning = true;
        mayEnd = false;
        conn_ = curConn(snode);
        if (regIdx >= 0) { W->regs[regIdx].tResp = S->now; W->regs[regIdx].result = "NoError"; W->regs[regIdx].conn = conn_; }
        if (!enabled) S->violation("lib.running_after_stop", sname + " came up although it is stopped");
        return;
    }
    if (!wasRunning) return;
    if (g_keepalive && !mayEnd && enabled)
        S->violation("lib.keepalive", sname + " lost its registration without cause; last bytes at the proxy " + std::to_string((S->now - conn_->lastArrive[1]) / SEC) + " s ago");
    int l = linkNo;
    S->after(SEC, [this, l]() { if (linkNo == l && !gone) { if (busy(snode)) S->at(snode->stalledUntil + SEC, [this, l]() { if (linkNo == l && !gone && wasRunning) sawEnd("is not running any more"); }); else sawEnd("is not running any more"); } });
    if (enabled && callsBack(0.2)) { S->count("probe.app_calls_back"); stop(); }
    else if (enabled && callsBack(0.2)) { S->count("probe.app_calls_back"); start(); }
}

// the link is over: every socket it had must have been reported
void LibServer::sawEnd(const char *what)
{
    if (!wasRunning) return;
    wasRunning = false;
    if (!addrs.empty())
        S->violation("lib.disconnect_missing", sname + " " + what + ", and " + std::to_string(addrs.size()) + " of its sockets (first: address " + std::to_string(addrs.begin()->first) + ") were not reported as disconnected");
    linkGone();
}

void LibServer::onClient(TunnelProxySocket *k)
{
    if (gone) return;
    if (told.count(k)) { S->violation("lib.socket_signals", sname + ": the same socket is reported connected twice"); return; }
    told[k] = 1;
    if (!k->connected()) S->violation("lib.socket_signals", sname + ": a new socket says it is not connected");
    size_t before = addrs.size();
    announced(k->clientName().toStdString(), k->clientUuid().toString().toStdString(), k->clientPeerAddress().toString().toStdString(), k->socketAddress());
    Tunnel *t = nullptr;
    if (addrs.size() > before) t = addrs[k->socketAddress()];
    if (!t) return;
    socks[k] = t;
    S->count("probe.lib_socket");
    uint16_t a = k->socketAddress();
    QObject::connect(k, &TunnelProxySocket::dataReceived, k, [this, k, a, t](const QByteArray &d) {
        if (gone) return;
        if (!told.count(k)) { S->violation("payload.no_client", sname + ": data on a disconnected socket"); return; }
        payload(a, std::string(d.constData(), d.size()));
        if (callsBack(0.05)) {
            S->count("probe.app_calls_back");
            if (W->rPay.chance(0.7)) sendDown(t, 1 + W->rPay.below(50), W->rPay.next());
            else if (W->rPay.chance(0.7)) requestDisconnect(a, t);
            else if (W->rPay.chance(0.7)) stop();
            else start();
        }
    });
    QObject::connect(k, &TunnelProxySocket::disconnected, k, [this, k]() {
        if (gone) return;
        int &n = told[k];
        n |= 2;
        if (k->connected()) S->violation("lib.socket_signals", sname + ": a disconnected socket says it is connected");
        if (callsBack(0.2)) { // last words, to nobody
            S->count("probe.app_uses_dead_socket");
            if (W->rPay.chance(0.6)) k->writeData(QByteArray(1 + (int)W->rPay.below(60), 'x'));
            else k->disconnectSocket();
        }
    });
    QObject::connect(k, &TunnelProxySocket::connectedChanged, k, [this, k](bool c) {
        if (gone) return;
        int &n = told[k];
        if (c || (n & 4)) S->violation("lib.socket_signals", sname + ": connectedChanged out of order");
        n |= 4;
    });
    if (callsBack(0.3)) {
        S->count("probe.app_calls_back");
        if (W->rPay.chance(0.7)) sendDown(t, 1 + W->rPay.below(200), W->rPay.next());
        else if (W->rPay.chance(0.8)) requestDisconnect(a, t);
        else stop();
    }
}

void LibServer::onGone(TunnelProxySocket *k)
{
    if (gone) return;
    auto it = told.find(k);
    if (it == told.end()) { S->violation("lib.socket_signals", sname + ": a socket is reported disconnected that is not connected"); return; }
    if (it->second != 7) S->violation("lib.socket_signals", sname + ": a socket is reported disconnected by its server, its own signals are missing");
    told.erase(it);
    socks.erase(k);
    withdrawn(k->socketAddress());
    if (enabled && callsBack(0.03)) { S->count("probe.app_calls_back"); stop(); }
    else if (callsBack(0.02)) { S->count("probe.app_calls_back"); start(); }
}

// ------------------------------------------------------------- remote connection

struct LibClient : ClientSide {
    QPointer<TunnelProxyRemoteConnection> rc;
    std::string name, cuuid, suuid;
    bool ws = false, trustTls = true, gone = false;
    Conn *conn_ = nullptr;
    bool up = false;             // told remotely connected
    bool pending = false;        // an attempt is under way
    bool appEnd = false;         // the application ended the attempt
    Time attemptAt = 0, stateAt = 0;
    int regIdx = -1, attempts = 0;
    void create(const std::string &su, bool ws);
    void attempt(const std::string &su);
    void onState(TunnelProxyRemoteConnection::State s);
    void onRemote(bool c);
    void onData(const QByteArray &d);
    bool canSend() const override { return up && rc && !gone; }
    void sendUp(size_t n) override;
    void early();
    bool raw() const override { return false; }
    void end(int how) override;
};
static std::vector<LibClient *> g_lcli;

void LibClient::create(const std::string &su, bool w)
{
    cid = (int)W->clients.size();
    cnode = W->newNode("lcli");
    cuuid = W->newUuid();
    ws = w;
    W->clients.push_back(this);
    g_lcli.push_back(this);
    t = W->newTunnel(su, cuuid, cnode, ws ? TR_WS : TR_TCP);
    name = t->name;
    t->client = this;
    t->viaLib = true;
    suuid = su;
    NodeScope sc(cnode);
    rc = new TunnelProxyRemoteConnection(QUuid(QString::fromStdString(cuuid)), QString::fromStdString(name),
                                         ws ? TunnelProxyRemoteConnection::ConnectionTypeWebSocket : TunnelProxyRemoteConnection::ConnectionTypeTcpSocket);
    App::setRoot(rc, cnode);
    TunnelProxyRemoteConnection *r = rc;
    QObject::connect(r, &TunnelProxyRemoteConnection::stateChanged, r, [this](TunnelProxyRemoteConnection::State s) { onState(s); });
    QObject::connect(r, &TunnelProxyRemoteConnection::remoteConnectedChanged, r, [this](bool c) { onRemote(c); });
    QObject::connect(r, &TunnelProxyRemoteConnection::dataReady, r, [this](const QByteArray &d) { onData(d); });
    QObject::connect(r, &TunnelProxyRemoteConnection::sslErrors, r, [this](const QList<QSslError> &l) {
        if (!trustTls) return;
        if (l.size() % 2) rc->ignoreSslErrors(); else rc->ignoreSslErrors(l);
    });
}

void LibClient::attempt(const std::string &su)
{
    if (!rc || busy(cnode)) return;
    t->clientEnding = true;
    if (attempts++) {
        S->count("probe.lib_attempt_again");
        cnode->ip = ipv4(10, 64 + (cid & 127), attempts >> 8 & 255, attempts & 255); // the host moves to another network
        Tunnel *n = W->newTunnel(su, cuuid, cnode, ws ? TR_WS : TR_TCP);
        W->byName.erase(n->name);
        n->name = name;
        n->client = this;
        n->viaLib = true;
        t = n;
    }
    suuid = su;
    t->suuid = su;
    W->attempts[name].push_back(t);
    t->epoch = W->epoch;
    pending = true;
    appEnd = false;
    regIdx = -1;
    attemptAt = stateAt = S->now;
    conn_ = nullptr;
    InCall in;
    NodeScope sc(cnode);
    rc->connectServer(urlFor(ws), QUuid(QString::fromStdString(su)));
}

void LibClient::onState(TunnelProxyRemoteConnection::State s)
{
    S->trace("%s: state %d", name.substr(0, 12).c_str(), (int)s);
    S->note('R', cid, (int)s);
    if (gone) return;
    stateAt = S->now;
    W->state("lc " + std::to_string((int)s) + (ws ? "w" : "t") + (appEnd ? "a" : "") + (up ? "u" : ""));
    if (rc->state() != s) S->violation("lib.state", "remote connection " + name + ": stateChanged does not fit state()");
    switch (s) {
    case TunnelProxyRemoteConnection::StateConnected: case TunnelProxyRemoteConnection::StateInitializing:
        conn_ = curConn(cnode);
        t->conn = conn_;
        t->epoch = W->epoch;
        break;
    case TunnelProxyRemoteConnection::StateRegister: {
        conn_ = curConn(cnode);
        t->conn = conn_;
        t->epoch = W->epoch;
        Reg r;
        r.uuid = cuuid;
        r.srv = t->suuid;
        r.conn = conn_;
        r.tSend = S->now;
        r.epoch = W->epoch;
        t->regSent = true;
        regIdx = (int)W->regs.size();
        W->regs.push_back(r);
        break;
    }
    case TunnelProxyRemoteConnection::StateRemoteConnected:
        pending = false;
        break;
    case TunnelProxyRemoteConnection::StateDisconnected:
        if (pending || up) W->progress++;
        pending = false;
        t->clientEnding = true;
        break;
    default: break;
    }
    if (s != TunnelProxyRemoteConnection::StateRemoteConnected && W->rPay.chance(0.15)) early();
    if (s == TunnelProxyRemoteConnection::StateDisconnected) { if (callsBack(0.03)) { S->count("probe.app_calls_back"); attempt(suuid); } }
    else if (s != TunnelProxyRemoteConnection::StateDiconnecting && callsBack(0.04)) { S->count("probe.app_calls_back"); end(0); }
}

// the application sends although it is not connected to the server: refused, and nobody gets it
void LibClient::early()
{
    if (!rc || gone || busy(cnode) || rc->remoteConnected()) return;
    S->count("probe.app_sends_early");
    NodeScope sc(cnode);
    if (rc->sendData(QByteArray(1 + (int)W->rPay.below(40), 'x')))
        S->violation("lib.send_result", "remote connection " + name + ": sendData accepted data in state " + std::to_string((int)rc->state()));
}

void LibClient::onRemote(bool c)
{
    S->trace("%s: remote connected %d", name.substr(0, 12).c_str(), c);
    if (gone) return;
    W->progress++;
    if (c == up) S->violation("lib.state", "remote connection " + name + ": remoteConnectedChanged(" + (c ? "true" : "false") + ") twice");
    if (rc->remoteConnected() != c) S->violation("lib.state", "remote connection " + name + ": remoteConnectedChanged does not fit remoteConnected()");
    up = c;
    if (!c) {
        t->clientEnding = true;
        if (callsBack(0.05)) { S->count("probe.app_calls_back"); attempt(suuid); }
        return;
    }
    S->count("probe.lib_remote_connected");
    pending = false;
    conn_ = curConn(cnode);
    t->conn = conn_;
    t->regOk = true;
    t->regAt = S->now;
    if (regIdx >= 0) { W->regs[regIdx].tResp = S->now; W->regs[regIdx].result = "NoError"; W->regs[regIdx].conn = conn_; }
    if (callsBack(1)) {
        S->count("probe.app_calls_back");
        if (W->rPay.chance(0.9)) sendUp(1 + W->rPay.below(300));
        else if (W->rPay.chance(0.7)) end(0);
        else attempt(suuid);
    }
}

void LibClient::onData(const QByteArray &d)
{
    if (gone) return;
    if (!up || !rc->remoteConnected()) {
        S->violation("lib.data_unconnected", "remote connection " + name + ": data while not remotely connected: " + hexOf(std::string(d.constData(), d.size()), 20));
        return;
    }
    gotDown(std::string(d.constData(), d.size()));
    if (callsBack(0.05)) {
        S->count("probe.app_calls_back");
        if (W->rPay.chance(0.7)) sendUp(1 + W->rPay.below(100));
        else if (W->rPay.chance(0.7)) end(0);
        else attempt(suuid);
    }
}

void LibClient::sendUp(size_t n)
{
    if (!rc || gone || busy(cnode)) return;
    if (t->text) n = (n + 3) / 4 * 4;
    std::string d = upData(t, t->upSent, n);
    bool was = rc->remoteConnected();
    if (was) t->upSent += n;
    NodeScope sc(cnode);
    bool ok = rc->sendData(QByteArray(d.data(), (int)d.size()));
    if (ok != was) S->violation("lib.send_result", "remote connection " + name + ": sendData answered " + (ok ? "true" : "false") + " while " + (was ? "" : "not ") + "remotely connected");
}

void LibClient::end(int how)
{
    if (!rc || gone || busy(cnode)) return;
    appEnd = true;
    t->clientEnding = true;
    Time at = S->now;
    NodeScope sc(cnode);
    if (how == 2) { // the application deletes it
        gone = true;
        up = pending = false;
        TunnelProxyRemoteConnection *r = rc;
        QObject::connect(r, &QObject::destroyed, r, [r]() { App::dropRoot(r); });
        r->deleteLater();
        return;
    }
    InCall in;
    rc->disconnectServer();
    int n = attempts;
    S->after(SEC, [this, at, n]() {
        if (gone || attempts != n || !rc || busy(cnode) || ws) return;
        if (rc->state() != TunnelProxyRemoteConnection::StateDisconnected)
            S->violation("lib.still_connected", "remote connection " + name + " is in state " + std::to_string((int)rc->state()) + " a second after disconnectServer()");
        (void)at;
    });
}

// ------------------------------------------------------------- invariants

static void libPeriodic()
{
    for (LibServer *l : g_lsrv) {
        if (l->gone || !l->srv || busy(l->snode)) continue;
        if (!l->enabled && l->changedAt && l->snode->connects != l->connectsAtStop) {
            S->violation("lib.connect_after_stop", l->sname + " connected although it has been stopped for " + std::to_string((S->now - l->changedAt) / MS) + " ms");
            l->connectsAtStop = l->snode->connects;
        }
        // a link that has ended is not reported as running
        Conn *c = l->conn_;
        if (l->srv->running() && c && endedHere(c, 0) && c->endSeenAt[0] >= 0 && S->now - std::max(c->endSeenAt[0], l->snode->stalledUntil) > 2 * SEC)
            S->violation("lib.stale", l->sname + " is running, its connection ended " + std::to_string((S->now - c->endSeenAt[0]) / MS) + " ms ago");
    }
    for (LibClient *l : g_lcli) {
        if (l->gone || !l->rc || busy(l->cnode)) continue;
        if (l->rc->remoteConnected() != l->up) S->violation("lib.state", "remote connection " + l->name + ": remoteConnected() without signal");
        Conn *c = l->conn_;
        bool idle = l->rc->state() == TunnelProxyRemoteConnection::StateDisconnected;
        if (!idle && c && c->state == 1 && endedHere(c, 0) && c->endSeenAt[0] >= 0 && S->now - std::max(c->endSeenAt[0], std::max(l->stateAt, l->cnode->stalledUntil)) > 2 * SEC)
            S->violation("lib.stale", "remote connection " + l->name + " is in state " + std::to_string((int)l->rc->state()) + ", its connection ended " + std::to_string((S->now - c->endSeenAt[0]) / MS) + " ms ago");
        if (!idle && c && c->state == 1 && c->ep[0].closed && c->closedAt[0] >= 0 && S->now - c->closedAt[0] > 2 * SEC && S->now - l->stateAt > 2 * SEC && c == l->cnode->lastConn)
            S->violation("lib.stale", "remote connection " + l->name + " is in state " + std::to_string((int)l->rc->state()) + " and has no connection any more");
    }
    S->after(500 * MS, libPeriodic);
}

// After faults have stopped: servers come back, remote connections can be used again.
static int g_phase;
static Time g_phaseAt, g_bound, g_worksSince;
static std::vector<std::pair<LibClient *, ServerSide *>> g_probes;

static bool libDone()
{
    if (!W->proxyUp) { W->startProxy(); g_lastCut = S->now; return false; }
    if (g_phase == 0) {
        g_reentrant = 0; // the applications are done
        // nobody but the library may hold its UUIDs
        bool held = false;
        for (RawServer *r : W->rservers)
            for (LibServer *l : g_lsrv)
                if (!l->gone && l->uuid == r->uuid && !r->selfEnded && !r->isDown) { r->endAbort(); held = true; }
        g_phase = 1;
        g_phaseAt = S->now;
        // silent drop of an old link (60 s + kill), watchdog, two rounds of the reconnect timer
        g_worksSince = std::max(W->quiesceStart, g_lastCut);
        if (held) g_worksSince = S->now;
        g_bound = g_worksSince + 120 * SEC;
    }
    if (g_phase == 1) {
        bool all = true;
        for (LibServer *l : g_lsrv) if (!l->gone && l->enabled && l->trustTls && !(l->running() && l->linkAlive())) all = false;
        if (!all && S->now < g_bound) return false;
        for (LibServer *l : g_lsrv)
            if (!l->gone && l->enabled && l->trustTls && !(l->running() && l->linkAlive()))
                S->violation("lib.not_running", l->sname + " is " + srvState(l->srv->state()) + " " + std::to_string((S->now - g_worksSince) / SEC) + " s after everything works again");
        for (LibClient *l : g_lcli) {
            if (l->gone) continue;
            auto st = l->rc->state();
            // nothing has told it that the other end is gone
            Conn *c = l->conn_ ? l->conn_ : l->cnode->lastConn;
            if (c && c->state == 1 && !c->ep[0].closed && !endedHere(c, 0) && (c->ep[1].closed || c->ep[1].reset)) continue;
            if (st != TunnelProxyRemoteConnection::StateDisconnected && st != TunnelProxyRemoteConnection::StateRemoteConnected)
                S->violation("lib.attempt_pending", "remote connection " + l->name + " is in state " + std::to_string((int)st) + " " + std::to_string((S->now - l->stateAt) / SEC) + " s after its last change");
        }
        g_phase = 2;
        return false;
    }
    if (g_phase == 2) {
        if (!probesDone()) return false;
        std::vector<ServerSide *> up;
        for (ServerSide *s : W->servers) if (s->linkAlive()) up.push_back(s);
        for (LibClient *l : g_lcli) {
            if (l->gone || l->rc->state() != TunnelProxyRemoteConnection::StateDisconnected || up.empty()) continue;
            if (g_probes.size() > 4) break;
            bool held = false; // the proxy cannot know yet that an earlier connection is over
            for (Tunnel *t : W->attempts[l->name]) if (t->conn && t->conn->state == 1 && !t->conn->ep[1].closed && !endedHere(t->conn, 1)) held = true;
            if (held) continue;
            ServerSide *s = up[(g_probes.size() + W->seed) % up.size()];
            l->trustTls = true;
            l->attempt(s->uuid);
            g_probes.push_back({l, s});
        }
        g_phase = 3;
        g_phaseAt = S->now;
        return false;
    }
    if (g_phase == 3) {
        bool all = true;
        for (auto &p : g_probes) if (!p.first->up || !p.first->t->announced) all = false;
        if (!all && S->now - g_phaseAt < 15 * SEC) return false;
        for (auto &p : g_probes) {
            if (!p.second->linkAlive()) continue;
            if (!p.first->up) S->violation("lib.attempt_failed", "remote connection " + p.first->name + " cannot be connected again: state " + std::to_string((int)p.first->rc->state()));
            else if (p.first->t->announced) { p.first->sendUp(200); p.second->sendDown(p.first->t, 200, 1); }
        }
        g_phase = 4;
        g_phaseAt = S->now;
        return false;
    }
    return S->now - g_phaseAt > 5 * SEC;
}

static void libFinal()
{
    W->tunnelFinal();
    for (LibClient *l : g_lcli) {
        if (l->gone || !l->rc || l->appEnd) continue;
        Tunnel *t = l->t;
        if (t->announced && !t->withdrawn && t->epoch == W->epoch && t->server && t->server->linkAlive() && t->server->linkNo == t->serverLink && !l->up && t->conn && !endedHere(t->conn, 0))
            S->violation("lib.not_connected", "remote connection " + l->name + " is connected at its server and says " + std::to_string((int)l->rc->state()));
    }
    for (LibServer *l : g_lsrv)
        if (!l->gone && l->running() && l->linkAlive() && l->socks.size() != l->addrs.size())
            S->violation("lib.socket_signals", l->sname + " has " + std::to_string(l->socks.size()) + " sockets for " + std::to_string(l->addrs.size()) + " addresses");
}

// ------------------------------------------------------------- operations

template <class T> static T *pickLive(const std::vector<T *> &v, uint64_t r, std::function<bool(T *)> f = nullptr)
{
    std::vector<T *> e;
    for (T *x : v) if (!x->gone && (!f || f(x))) e.push_back(x);
    return e.empty() ? nullptr : e[r % e.size()];
}

static LibServer *newLibServer(const std::string &u)
{
    LibServer *l = new LibServer;
    l->create(u);
    l->start();
    W->note("library server %s starts, uuid %s", l->sname.c_str(), u.c_str());
    return l;
}

static void newLibClient(const std::string &su, uint64_t r)
{
    LibClient *l = new LibClient;
    l->create(su, r % 3 == 0);
    if (W->ssl && (r >> 8) % 12 == 0) l->trustTls = false;
    W->note("remote connection %s (%s) for server %s", l->name.c_str(), l->ws ? "websocket" : "tcp", su.c_str());
    l->attempt(su);
}

static Node *anyLibNode(uint64_t r)
{
    std::vector<Node *> v;
    for (LibServer *l : g_lsrv) if (!l->gone) { v.push_back(l->snode); v.push_back(l->snode); }
    for (LibClient *l : g_lcli) if (!l->gone) v.push_back(l->cnode);
    return v.empty() ? nullptr : v[r % v.size()];
}

static bool execLib(const Op &op)
{
    uint64_t a = op.a, b = op.b, c = op.c;
    Rng r;
    r.seed(b, 77);
    switch (op.kind) {
    case L_SERVER: {
        std::string u = W->newUuid();
        W->serverUuids.push_back(u);
        newLibServer(u);
        return true;
    }
    case L_SRV_STOP: case L_SRV_START: case L_SRV_CYCLE: {
        LibServer *l = pickLive<LibServer>(g_lsrv, a);
        if (!l) return true;
        W->note("library server %s %s", l->sname.c_str(), op.kind == L_SRV_STOP ? "is stopped" : op.kind == L_SRV_START ? "is started again" : "is stopped and started");
        if (op.kind != L_SRV_START) l->stop();
        if (op.kind == L_SRV_START) l->start();
        if (op.kind == L_SRV_CYCLE) {
            if (b & 1) l->start();
            else S->after(r.logTime(10 * US, 20 * SEC), [l]() { if (!l->gone && !W->quiescing) l->start(); });
        }
        return true;
    }
    case L_SRV_CRASH: case L_SRV_DELETE: {
        LibServer *l = pickLive<LibServer>(g_lsrv, a);
        if (!l || busy(l->snode)) return true;
        bool crash = op.kind == L_SRV_CRASH, silent = crash && (b & 1);
        W->note("library server %s: %s", l->sname.c_str(), !crash ? "object deleted" : silent ? "host loses power" : "process crashes");
        S->count(!crash ? "fault.lib_deleted" : silent ? "fault.lib_power_loss" : "fault.lib_crash");
        l->gone = true;
        l->linkGone();
        if (crash) S->crashNode(l->snode, silent);
        std::string u = l->uuid;
        {
            NodeScope sc(l->snode);
            TunnelProxySocketServer *s = l->srv;
            QObject::connect(s, &QObject::destroyed, s, [s]() { App::dropRoot(s); });
            if (crash || (c & 1)) delete s; else s->deleteLater();
        }
        if (c % 4) S->after(r.logTime(MS, 5 * SEC), [u]() { if (!W->quiescing) newLibServer(u); });
        return true;
    }
    case L_CLIENT:
        newLibClient(anyServerUuid(a), b);
        return true;
    case L_CLI_AGAIN: {
        LibClient *l = pickLive<LibClient>(g_lcli, a);
        if (!l) return true;
        W->note("remote connection %s is connected again (state %d)", l->name.c_str(), (int)l->rc->state());
        l->attempt(b % 4 ? l->suuid : anyServerUuid(b >> 3));
        return true;
    }
    case L_CLI_END: {
        LibClient *l = pickLive<LibClient>(g_lcli, a, [](LibClient *x) { return x->rc->state() != TunnelProxyRemoteConnection::StateDisconnected; });
        if (!l) return true;
        W->note("remote connection %s is disconnected", l->name.c_str());
        l->end(0);
        if (b % 3 == 0) l->attempt(l->suuid);
        return true;
    }
    case L_CLI_DELETE: {
        LibClient *l = pickLive<LibClient>(g_lcli, a);
        if (!l) return true;
        W->note("remote connection %s is deleted", l->name.c_str());
        l->end(2);
        return true;
    }
    case L_CLI_CRASH: {
        LibClient *l = pickLive<LibClient>(g_lcli, a);
        if (!l || busy(l->cnode)) return true;
        W->note("process of remote connection %s dies", l->name.c_str());
        S->count("fault.lib_client_crash");
        l->gone = true;
        l->up = false;
        l->t->clientEnding = true;
        S->crashNode(l->cnode, b & 1);
        NodeScope sc(l->cnode);
        TunnelProxyRemoteConnection *x = l->rc;
        delete x;
        App::dropRoot(x);
        return true;
    }
    case L_NETDOWN: case L_NOSOCKET: {
        Node *n = anyLibNode(a);
        if (!n || n->netDown || n->failSocket) return true;
        Time d = r.logTime(10 * MS, 40 * SEC);
        bool down = op.kind == L_NETDOWN;
        W->note("%s %s for %.3f s", n->name.c_str(), down ? "has no route to anywhere" : "cannot create sockets", d / 1e9);
        S->count(down ? "fault.net_unreachable" : "fault.no_socket");
        (down ? n->netDown : n->failSocket) = true;
        S->after(d, [n, down]() { (down ? n->netDown : n->failSocket) = false; });
        return true;
    }
    case L_BLOCK: {
        Node *n = anyLibNode(a);
        if (!n || n->blocked) return true;
        Time d = r.logTime(5 * MS, 150 * SEC);
        W->note("partition of %s for %.3f s", n->name.c_str(), d / 1e9);
        S->count("fault.partition");
        S->setBlocked(n, true);
        S->after(d, [n]() { S->setBlocked(n, false); });
        return true;
    }
    case L_HALFOPEN: {
        // a middlebox forgets this connection; other connections work
        Node *n = anyLibNode(a);
        if (!n || !n->lastConn || n->lastConn->state != 1) return true;
        Conn *k = n->lastConn;
        W->note("the path of the current connection of %s swallows everything", n->name.c_str());
        S->count("fault.half_open");
        S->setConnBlocked(k, true);
        if (b % 3) S->after(r.logTime(SEC, 300 * SEC), [k]() { S->setConnBlocked(k, false); });
        return true;
    }
    case L_RST: {
        Node *n = anyLibNode(a);
        if (!n || !n->lastConn || n->lastConn->state != 1) return true;
        int side = b & 1;
        W->note("the connection of %s is reset at the %s", n->name.c_str(), side ? "proxy" : "library");
        S->count("fault.reset");
        Conn *k = n->lastConn;
        for (Tunnel *t : W->tunnels) if (t->conn == k) { t->clientEnding = true; t->cutOff = true; }
        if (!k->ep[side].closed) S->arriveRst(&k->ep[side], ECONNRESET);
        return true;
    }
    case L_LIBSTALL: {
        Node *n = anyLibNode(a);
        if (!n) return true;
        Time d = r.logTime(MS, g_keepalive ? 4 * SEC : 20 * SEC);
        W->note("the process of %s stalls for %.3f s", n->name.c_str(), d / 1e9);
        S->count("fault.lib_stall");
        n->stalledUntil = std::max(n->stalledUntil, S->now + d);
        return true;
    }
    case L_PROXY_CRASH: case L_PROXY_POWER: case L_PROXY_RESTART: {
        if (!W->proxyUp || busy(S->proxy)) return true;
        bool power = op.kind == L_PROXY_POWER;
        W->note("the proxy %s", op.kind == L_PROXY_RESTART ? "is stopped" : power ? "loses power" : "crashes");
        if (op.kind == L_PROXY_RESTART) { S->count("fault.proxy_restart"); W->stopProxy(); }
        else W->crashProxy(power);
        if (power) S->setBlocked(S->proxy, true);
        S->after(r.logTime(MS, 60 * SEC), [power]() {
            if (W->proxyUp) return;
            if (power) S->setBlocked(S->proxy, false);
            W->startProxy();
            g_lastCut = S->now;
        });
        return true;
    }
    case L_CLOCK: {
        Node *n = b % 2 ? S->proxy : anyLibNode(a);
        if (!n) return true;
        static const double span[] = {0.4, 2, 30, 3600, 86400 * 300.0};
        Time d = (Time)(span[r.below(5)] * (2 * r.unit() - 1) * 1e9);
        W->note("the clock of %s jumps by %.3f s", n->name.c_str(), d / 1e9);
        S->count(d < 0 ? "fault.clock_jump_back" : "fault.clock_jump_forward");
        n->wallOffset += d;
        W->clockJumps = true;
        return true;
    }
    }
    return false;
}

static void libExec()
{
    W->exec = [](const Op &op) { S->count("ops"); if (!execLib(op)) execCommon(op); };
    W->finalReady = libDone;
    W->finalChecks = libFinal;
    S->after(500 * MS, libPeriodic);
}

static void addLib(std::vector<Op> &ops, int kind, int n, Time from, Time to)
{
    for (int i = 0; i < n; i++) {
        Op o;
        o.kind = kind;
        o.t = W->rOps.range(from, to);
        o.a = W->rOps.next(); o.b = W->rOps.next(); o.c = W->rOps.next();
        ops.push_back(o);
    }
}

static void profileLib()
{
    basicSetup(0.25);
    bool faults = W->coin("faults", 0.75), crashes = faults && W->coin("crashes", 0.5);
    g_reentrant = W->coin("reentrant", 0.5) ? W->knob("reentrantP", 0.05, 1) : 0;
    Time end = (Time)(W->knob("spanS", 0.3, 1) * (W->coin("long", 0.4) ? 150 : 15) * SEC);
    std::vector<Gen> mix = {{L_SERVER, 0.7}, {L_SRV_STOP, 1}, {L_SRV_START, 1}, {L_SRV_CYCLE, 1.5}, {L_SRV_DELETE, 0.5}, {L_CLIENT, 5}, {L_CLI_AGAIN, 3}, {L_CLI_END, 3}, {L_CLI_DELETE, 1},
                            {O_SERVER, 0.5}, {O_CLIENT, 4}, {O_CLIENT_END, 2.5}, {O_CLIENT_RECONN, 1.5}, {O_CLIENT_NOSRV, 0.3}, {O_CLIENT_DUP, 0.7}, {O_UP, 9}, {O_DOWN, 9}, {O_BURST, 5}, {O_DISC, 3}, {O_CHURN, 0.7}};
    if (faults) {
        std::vector<Gen> f = {{L_NETDOWN, 1.5}, {L_NOSOCKET, 0.5}, {L_BLOCK, 2}, {L_HALFOPEN, 1.5}, {L_RST, 3}, {L_LIBSTALL, 1}, {L_SRV_CRASH, 0.7}, {L_CLI_CRASH, 0.7}, {O_STALL, 0.7}, {O_BLOCK_PROXY, 0.3},
                              {O_SERVER_DUP, 0.7}, {O_PAUSE, 0.7}, {O_RESUME, 0.7}, {O_SERVER_RECONN, 0.5}, {L_CLOCK, 0.5}};
        mix.insert(mix.end(), f.begin(), f.end());
    }
    if (crashes) {
        std::vector<Gen> f = {{L_PROXY_CRASH, 0.7}, {L_PROXY_POWER, 0.7}, {L_PROXY_RESTART, 0.7}};
        mix.insert(mix.end(), f.begin(), f.end());
    }
    std::vector<Op> ops = genOps(mix, W->knobi("nOps", 8, 70), 200 * MS, end);
    addLib(ops, L_SERVER, W->knobi("libServers", 1, 3), 0, 50 * MS);
    addLib(ops, O_SERVER, W->knobi("servers", 0, 1), 0, 50 * MS);
    addLib(ops, L_CLIENT, W->knobi("libClients", 0, 3), 100 * MS, 200 * MS);
    addLib(ops, O_CLIENT, W->knobi("clients", 0, 3), 100 * MS, 200 * MS);
    std::stable_sort(ops.begin(), ops.end(), [](const Op &a, const Op &b) { return a.t < b.t; });
    go(ops, end + SEC);
    libExec();
}

// links that work, for a long time
static void profileKeepAlive()
{
    g_keepalive = true;
    W->ssl = W->coin("ssl", 0.15);
    W->smallMessages = true;
    W->inactiveMs = W->knobi("inactiveMs", 5000, 14000);
    W->defaultNet();
    S->net.latMax = (Time)(W->knob("latency_ms", 0.1, 900) * MS);
    W->startProxy();
    W->finalReady = probesDone;
    W->finalChecks = []() { W->tunnelFinal(); };
    Time end = (Time)(W->knob("spanMin", 3, W->coin("veryLong", 0.1) ? 300 : 30) * 60 * SEC);
    std::vector<Op> ops;
    addLib(ops, L_SERVER, W->knobi("libServers", 1, 2), 0, 50 * MS);
    addLib(ops, O_CLIENT, W->knobi("clients", 0, 3), 10 * SEC, 20 * SEC);
    addLib(ops, L_CLIENT, W->knobi("libClients", 0, 2), 10 * SEC, 20 * SEC);
    // traffic in phases: nothing, one direction, both; steady or in bursts
    Time t = 20 * SEC;
    Rng &r = W->rOps;
    while (t < end) {
        Time phase = r.logTime(20 * SEC, 20 * 60 * SEC);
        int kind = (int)r.below(4);
        Time gap = r.chance(0.3) ? r.logTime(5 * SEC, 70 * SEC) : r.logTime(400 * MS, 29 * SEC);
        Time stop = std::min(end, t + phase);
        if (kind == 0) { t = stop; continue; }
        int n = 0;
        for (; t < stop && n < 400; t += r.chance(0.5) ? gap : r.range(gap / 2, gap + gap / 2), n++) {
            Op o;
            o.t = t;
            o.kind = kind == 1 ? O_UP : kind == 2 ? O_DOWN : r.chance(0.5) ? O_UP : O_DOWN;
            o.a = r.next(); o.b = r.next(); o.c = r.next();
            ops.push_back(o);
        }
        t = std::max(t, std::min(stop, t + 1));
        if (n >= 400) t = stop;
    }
    std::vector<Op> more = genOps({{L_CLOCK, 1}, {L_LIBSTALL, 1}, {O_STALL, 1}, {O_CLIENT, 1}, {O_CLIENT_END, 1}, {L_CLIENT, 1}, {L_CLI_END, 1}, {O_DISC, 0.5}}, W->knobi("nOps", 0, 30), 20 * SEC, end);
    ops.insert(ops.end(), more.begin(), more.end());
    std::stable_sort(ops.begin(), ops.end(), [](const Op &a, const Op &b) { return a.t < b.t; });
    W->run(ops, end + SEC);
    libExec();
}

void setupLib(const std::string &p)
{
    if (p == "keepalive") profileKeepAlive();
    else profileLib();
}

} // namespace sim
