// The client library against a proxy played by the simulator, which keeps to the
// protocol but takes every freedom it has: any tunnel address, any number of
// clients, any order and packing of what may come together, refusals, silence.
#include "profiles.h"
#include <algorithm>
#include "tunnelproxy/tunnelproxysocketserver.h"
#include "tunnelproxy/tunnelproxyremoteconnection.h"

using remoteproxyclient::TunnelProxyRemoteConnection;
using remoteproxyclient::TunnelProxySocket;
using remoteproxyclient::TunnelProxySocketServer;

namespace sim {

enum FakeOp { F_ANNOUNCE = O_FAKE_FIRST, F_WITHDRAW, F_DATA, F_MIX, F_APP_SEND, F_APP_DISC, F_APP_STOP, F_APP_START, F_CUT, F_MUTE, F_STALL, F_BLOCK, F_C_DATA, F_C_SEND, F_C_AGAIN, F_C_END };

static char byteOf(uint64_t key, uint64_t i)
{
    uint64_t z = (key + i / 8) * 0x9E3779B97F4A7C15ull;
    z ^= z >> 29; z *= 0xBF58476D1CE4E5B9ull; z ^= z >> 32;
    unsigned char c = z >> (8 * (i & 7));
    static const unsigned char special[] = {0xC0, 0xDB, 0xDC, 0xDD, 0x00, '\n', '}', 0xFF};
    return (char)(c < 64 ? special[c & 7] : c);
}
static std::string bytesOf(uint64_t key, uint64_t off, size_t n)
{
    std::string o(n, 0);
    for (size_t i = 0; i < n; i++) o[i] = byteOf(key, off + i);
    return o;
}

struct FServer;
struct FClient;

// a client the played proxy has announced
struct FSock {
    uint16_t addr = 0;
    std::string name, uuid, ip;
    uint64_t key = 0, downSent = 0, downGot = 0, upSent = 0, upGot = 0;
    bool goneSent = false, appUp = false, appGone = false;
    int discAsked = 0, discGot = 0;
};

struct FLink : NativeSock {
    int id = 0;
    FServer *srv = nullptr;
    FClient *cli = nullptr;
    std::string in;
    bool slip = false, raw = false, over = false, refused = false, stuck = false, muted = false;
    int mode = 0;
    Time lastIn = 0;
    std::map<uint16_t, FSock *> now_;          // announced and not withdrawn
    std::map<uint16_t, std::deque<FSock *>> unseen;
    std::vector<FSock *> all;
    uint64_t key = 0, downSent = 0, downGot = 0, upSent = 0, upGot = 0;
    int notes = 0;
    std::string held;                          // leaves together with the next write
    Conn *conn() const { return ep ? ep->conn : nullptr; }
    bool alive() const { Conn *c = conn(); return c && !over && c->state == 1 && !c->ep[0].closed && !c->ep[0].reset && !c->ep[1].closed && !c->ep[1].reset && !c->ep[0].rxFin; }
    bool libKnowsEnd() const { Conn *c = conn(); return !c || c->ep[0].closed || c->ep[0].reset || c->ep[0].rxFin; }
    void out(const std::string &d, bool together);
    void line(const std::string &l);
    void request(const std::string &l);
    void reply(int id, const std::string &params, bool together = false);
    void error(int id);
    void announce(uint16_t a, bool together);
    void withdraw(FSock *k, bool together);
    void data(FSock *k, size_t n, bool together);
    void registered();
    void cut(int how);
    void onConnected() override {}
    void onConnectFailed(int) override { over = true; }
    void onData(const char *d, size_t n) override;
    void onFin() override { over = true; S->nativeClose(this); }
    void onReset(int) override { over = true; }
};

struct FServer {
    int id = 0;
    Node *node = nullptr;
    std::string uuid, name;
    QPointer<TunnelProxySocketServer> srv;
    bool enabled = false, was = false, appEnd = false;
    FLink *link = nullptr;
    uint16_t nextAddr = 1;
    std::map<TunnelProxySocket *, FSock *> socks;
    std::map<TunnelProxySocket *, int> told;
    bool busy() const { return node->stalledUntil > S->now; }
};

struct FClient {
    int id = 0;
    Node *node = nullptr;
    std::string cuuid, suuid, name;
    std::set<std::string> asked;      // server UUIDs; the request of an earlier attempt may be under way
    QPointer<TunnelProxyRemoteConnection> rc;
    FLink *link = nullptr;
    bool up = false, appEnd = false;
    int attempts = 0;
    Time stateAt = 0;
    bool busy() const { return node->stalledUntil > S->now; }
};

static struct Fake {
    std::vector<FServer *> srv;
    std::vector<FClient *> cli;
    std::deque<FLink> links;
    double bad = 0, together = 0, slow = 0;
    int addrMode = 0;
    Rng r;
} *F;

static FLink *linkOf(Node *n)
{
    for (auto i = F->links.rbegin(); i != F->links.rend(); ++i) if (i->conn() && i->conn()->ep[0].node == n) return &*i;
    return nullptr;
}

// ------------------------------------------------------------- the played proxy

void FLink::out(const std::string &d, bool together)
{
    held += d;
    if (together && held.size() < 200000) return;
    std::string x;
    x.swap(held);
    if (!x.empty()) S->nativeSend(this, x);
}

void FLink::line(const std::string &l) { out(slip ? slipFrame(0, l + "\n") : l + "\n", false); }

void FLink::reply(int id, const std::string &params, bool together)
{
    std::string l = "{\"id\":" + std::to_string(id) + ",\"params\":" + params + ",\"status\":\"success\"}\n";
    out(slip ? slipFrame(0, l) : l, together);
}

void FLink::error(int id)
{
    std::string l = "{\"error\":\"Invalid method\",\"id\":" + std::to_string(id) + ",\"status\":\"error\"}\n";
    out(slip ? slipFrame(0, l) : l, false);
}

void FLink::announce(uint16_t a, bool together)
{
    if (!slip || now_.count(a)) return;
    FSock *k = new FSock;
    k->addr = a;
    Rng &r = F->r;
    static const std::vector<std::string> names = {"phone", "Tür \"3\"", "", "\xF0\x9F\x93\xB1 app", "a\\b{}", "ClientDisconnected"};
    k->name = r.pick(names) + " " + std::to_string(all.size());
    k->uuid = QUuid(r.next(), r.next(), r.next(), 1, 2, 3, 4, 5, 6, 7, 8).toString().toStdString();
    k->ip = r.chance(0.3) ? "fe80::" + std::to_string(1 + r.below(9)) : ipStr((uint32_t)r.next() | 1);
    k->key = r.next();
    now_[a] = k;
    unseen[a].push_back(k);
    all.push_back(k);
    S->count("probe.fake_announce");
    std::string l = "{\"id\":" + std::to_string(notes++) + ",\"notification\":\"TunnelProxy.ClientConnected\",\"params\":{\"clientName\":" + jsonStr(k->name) + ",\"clientPeerAddress\":" + jsonStr(k->ip)
        + ",\"clientUuid\":" + jsonStr(k->uuid) + ",\"socketAddress\":" + std::to_string(a) + "}}\n";
    out(slipFrame(0, l), together);
}

void FLink::withdraw(FSock *k, bool together)
{
    if (!slip || k->goneSent) return;
    k->goneSent = true;
    now_.erase(k->addr);
    out(slipFrame(0, "{\"id\":" + std::to_string(notes++) + ",\"notification\":\"TunnelProxy.ClientDisconnected\",\"params\":{\"socketAddress\":" + std::to_string(k->addr) + "}}\n"), together);
}

void FLink::data(FSock *k, size_t n, bool together)
{
    if (!slip || k->goneSent || !n) return;
    std::string d = bytesOf(k->key, k->downSent, n);
    k->downSent += n;
    out(slipFrame(k->addr, d), together);
}

static uint16_t newAddr(FServer *s, FLink *l)
{
    static const uint16_t edge[] = {1, 2, 0x7f, 0x80, 0xbf, 0xc0, 0xdb, 0xdc, 0xff, 0x100, 0x7ffe, 0x7fff, 0x8000, 0x8001, 0xc000, 0xc0c0, 0xc0db, 0xdbdb, 0xdbdc, 0xdb00, 0xfffe, 0xffff};
    for (int i = 0; i < 100; i++) {
        uint16_t a;
        switch (F->addrMode) {
        case 0: a = s->nextAddr++; break;
        case 1: a = edge[F->r.below(22)]; break;
        case 2: a = (uint16_t)(1 + F->r.below(0xffff)); break;
        default: a = F->r.chance(0.5) ? (uint16_t)(s->nextAddr ^ 0x8000) : s->nextAddr++; break; // close to another one
        }
        if (!a || l->now_.count(a)) continue;
        bool used = false; // an address comes again when the tunnel server has forgotten it
        for (FSock *k : l->all) if (k->addr == a && !(k->appGone && k->upGot == k->upSent && k->discGot == k->discAsked)) used = true;
        if (!used) return a;
    }
    return 0;
}

void FLink::registered()
{
    if (srv) {
        slip = true;
        int n = F->r.chance(0.5) ? (int)F->r.below(4) : 0;
        bool tog = F->r.chance(F->together);
        for (int i = 0; i < n; i++) {
            uint16_t a = newAddr(srv, this);
            if (!a) break;
            announce(a, tog);
            if (F->r.chance(0.6)) data(now_[a], 1 + F->r.below(300), tog);
            if (F->r.chance(0.2)) withdraw(now_[a], tog);
        }
        out("", false);
    } else if (cli) {
        raw = true;
        if (F->r.chance(0.6)) {
            size_t n = 1 + F->r.below(500);
            out(bytesOf(key, 0, n), false);
            downSent = n;
        }
    }
}

void FLink::cut(int how)
{
    if (over) return;
    over = true;
    if (how == 0) S->nativeClose(this);
    else if (how == 1) S->nativeAbort(this);
    else S->nativeVanish(this);
}

void FLink::request(const std::string &l)
{
    QJsonParseError e;
    QVariantMap m = QJsonDocument::fromJson(QByteArray(l.data(), (int)l.size()), &e).toVariant().toMap();
    if (e.error != QJsonParseError::NoError || !m.contains("id") || !m.contains("method")) { S->violation(cli ? "rc.request" : "sock.request", "the library sent " + l.substr(0, 200)); return; }
    int id = m.value("id").toInt();
    std::string method = m.value("method").toString().toStdString();
    QVariantMap p = m.value("params").toMap();
    if (stuck) return;
    Rng &r = F->r;
    bool bad = S->faultsOn && !muted;
    auto delay = [&](std::function<void()> fn) {
        Time d = r.chance(F->slow) ? r.logTime(MS, 4 * SEC) : 0;
        if (!d) { if (!over) fn(); return; }
        S->after(d, [this, fn]() { if (!over) fn(); });
    };
    auto misbehave = [&](double prob) {
        if (!bad || !r.chance(prob)) return false;
        S->count("fault.fake_proxy");
        switch (r.below(5)) {
        case 0: stuck = true; break;                              // never answers
        case 1: delay([this, id]() { error(id); }); refused = true; break;
        case 2: cut(0); break;
        case 3: cut(1); break;
        default: stuck = true; delay([this]() { cut(0); }); break;
        }
        return true;
    };
    if (method == "RemoteProxy.Hello" && !slip && !raw) {
        if (misbehave(F->bad / 2)) return;
        delay([this, id]() { reply(id, "{\"apiVersion\":\"0.6\",\"name\":\"played\",\"server\":\"nymea-remoteproxy\",\"version\":\"1.2.3\"}"); });
    } else if ((method == "TunnelProxy.RegisterServer" || method == "TunnelProxy.RegisterClient") && !slip && !raw) {
        bool isSrv = method == "TunnelProxy.RegisterServer";
        std::string u = p.value(isSrv ? "serverUuid" : "clientUuid").toString().toStdString();
        std::string n = p.value(isSrv ? "serverName" : "clientName").toString().toStdString();
        if (isSrv != (srv != nullptr) || normUuid(u) != normUuid(srv ? srv->uuid : cli->cuuid) || n != (srv ? srv->name : cli->name) || (cli && !cli->asked.count(normUuid(p.value("serverUuid").toString().toStdString()))))
            S->violation(cli ? "rc.request" : "sock.request", "the library registers with " + l.substr(0, 300));
        if (misbehave(F->bad)) return;
        if (bad && r.chance(F->bad)) {
            refused = true;
            S->count("fault.fake_refuses");
            static const std::vector<std::string> es = {"AlreadyRegistered", "InvalidUuid", "ServerNotFound", "UnknownSocketAddress", "InternalServerError"};
            std::string why = r.pick(es);
            delay([this, id, why]() { reply(id, "{\"tunnelProxyError\":\"TunnelProxyError" + why + "\"}"); if (F->r.chance(0.7)) cut(0); });
            return;
        }
        delay([this, id, isSrv]() {
            bool tog = F->r.chance(F->together);
            if (isSrv) reply(id, "{\"slipEnabled\":true,\"tunnelProxyError\":\"TunnelProxyErrorNoError\"}", tog);
            else reply(id, "{\"slipEnabled\":false,\"tunnelProxyError\":\"TunnelProxyErrorNoError\"}", tog);
            registered();
            out("", false);
        });
    } else if (method == "TunnelProxy.Ping" && slip) {
        QString ts = p.value("timestamp").toString();
        std::string q = ts.toStdString();
        S->count("probe.fake_ping");
        delay([this, id, q]() { reply(id, "{\"timestamp\":" + (q.empty() ? std::string("0") : q) + "}", F->r.chance(0.2)); });
    } else if (method == "TunnelProxy.DisconnectClient" && slip) {
        uint a = p.value("socketAddress").toUInt();
        FSock *k = nullptr;
        for (FSock *x : all) if (x->addr == a && x->discGot < x->discAsked) { k = x; break; }
        if (!k) { S->violation("sock.disc", srv->name + " asks for the disconnect of address " + std::to_string(a) + " although nobody has asked it to"); return; }
        k->discGot++;
        S->count("probe.fake_disc");
        bool first = r.chance(0.3);
        delay([this, id, k, first]() {
            bool gone = k->goneSent;
            if (first && !gone) withdraw(k, true);
            reply(id, std::string("{\"tunnelProxyError\":\"TunnelProxyError") + (gone ? "UnknownSocketAddress" : "NoError") + "\"}", !first && !gone);
            if (!first && !gone) withdraw(k, false);
        });
    } else
        S->violation(cli ? "rc.request" : "sock.request", "the library sent in the wrong state: " + l.substr(0, 200));
}

void FLink::onData(const char *d, size_t n)
{
    lastIn = S->now;
    W->progress++;
    if (over) return;
    if (raw) {
        for (size_t i = 0; i < n; i++)
            if (upGot + i >= upSent || d[i] != byteOf(key + 1, upGot + i)) { S->violation("rc.data", cli->name + ": byte " + std::to_string(upGot + i) + " is not what the application sent"); return; }
        upGot += n;
        return;
    }
    in.append(d, n);
    for (;;) {
        if (!slip) {
            size_t e = in.find('\n');
            if (e == std::string::npos) return;
            std::string l = in.substr(0, e);
            in.erase(0, e + 1);
            request(l);
            if (raw || over) { if (raw && !in.empty()) S->violation("rc.request", cli->name + ": data behind the registration before it was answered"); return; }
            continue;
        }
        size_t e = in.find((char)0xC0);
        if (e == std::string::npos) return;
        std::string f = in.substr(0, e), o;
        in.erase(0, e + 1);
        if (f.empty()) continue;
        for (size_t i = 0; i < f.size(); i++) {
            if (f[i] != (char)0xDB) { o.push_back(f[i]); continue; }
            i++;
            if (i < f.size() && f[i] == (char)0xDC) o.push_back((char)0xC0);
            else if (i < f.size() && f[i] == (char)0xDD) o.push_back((char)0xDB);
            else { S->violation("sock.data", srv->name + " sent a broken frame " + hexOf(f)); return; }
        }
        if (o.size() < 2) { S->violation("sock.data", srv->name + " sent a frame without an address"); return; }
        uint16_t a = (uint16_t)((unsigned char)o[0] << 8 | (unsigned char)o[1]);
        if (!a) {
            std::string l = o.substr(2);
            while (!l.empty() && l.back() == '\n') l.pop_back();
            request(l);
            if (over) return;
            continue;
        }
        FSock *k = nullptr;
        for (FSock *x : all) if (x->addr == a && (x->upGot < x->upSent || !k)) { k = x; if (x->upGot < x->upSent) break; }
        if (!k) { S->violation("sock.data", srv->name + " sent data to address " + std::to_string(a) + ", which nobody has"); return; }
        for (size_t i = 2; i < o.size(); i++) {
            if (k->upGot >= k->upSent || o[i] != byteOf(k->key + 1, k->upGot)) { S->violation("sock.data", srv->name + " address " + std::to_string(a) + ": byte " + std::to_string(k->upGot) + " is not what the application wrote"); return; }
            k->upGot++;
        }
    }
}

static NativeSock *acceptFake(Conn *c)
{
    FServer *s = nullptr;
    FClient *cl = nullptr;
    for (FServer *x : F->srv) if (x->node == c->ep[0].node) s = x;
    for (FClient *x : F->cli) if (x->node == c->ep[0].node) cl = x;
    if (!s && !cl) return nullptr;
    if (S->faultsOn && F->r.chance(F->bad / 3)) { S->count("fault.fake_refused_syn"); return nullptr; }
    F->links.emplace_back();
    FLink *l = &F->links.back();
    l->id = (int)F->links.size();
    l->srv = s;
    l->cli = cl;
    l->key = F->r.next();
    l->lastIn = S->now;
    if (s) s->link = l;
    if (cl) cl->link = l;
    if (S->faultsOn && F->r.chance(F->bad / 6)) S->after(F->r.logTime(MS, 10 * SEC), [l]() { if (S->faultsOn) { S->count("fault.fake_cut"); l->cut((int)F->r.below(2)); } });
    return l;
}

// ------------------------------------------------------------- applications

static QUrl fakeUrl() { return QUrl(QString("tcp://%1:%2").arg(QString::fromStdString(ipStr(W->tg.ip))).arg(W->tg.tcpPort)); }

static void srvWrite(FServer *s, TunnelProxySocket *q, FSock *k, size_t n)
{
    if (!s->srv || s->busy() || !s->link || !s->link->alive()) return;
    std::string d = bytesOf(k->key + 1, k->upSent, n);
    k->upSent += n;
    NodeScope sc(s->node);
    q->writeData(QByteArray(d.data(), (int)d.size()));
}

static void srvClient(FServer *s, TunnelProxySocket *q)
{
    if (s->told.count(q)) { S->violation("lib.socket_signals", s->name + ": the same socket is reported connected twice"); return; }
    uint16_t a = q->socketAddress();
    FLink *l = s->link;
    FSock *k = nullptr;
    if (l && !l->unseen[a].empty()) { k = l->unseen[a].front(); l->unseen[a].pop_front(); }
    if (!k) { S->violation("lib.socket_signals", s->name + ": a socket with address " + std::to_string(a) + ", which the proxy has not announced"); return; }
    if (q->clientName().toStdString() != k->name || normUuid(q->clientUuid().toString().toStdString()) != normUuid(k->uuid) || q->clientPeerAddress() != QHostAddress(QString::fromStdString(k->ip)))
        S->violation("lib.socket_signals", s->name + ": the socket with address " + std::to_string(a) + " describes another client: " + q->clientName().toStdString() + " " + q->clientUuid().toString().toStdString() + " " + q->clientPeerAddress().toString().toStdString());
    if (!q->connected()) S->violation("lib.socket_signals", s->name + ": a new socket says it is not connected");
    for (auto &o : s->socks) if (o.second->addr == a) S->violation("lib.socket_signals", s->name + ": two sockets with address " + std::to_string(a));
    k->appUp = true;
    s->told[q] = 0;
    s->socks[q] = k;
    W->progress++;
    QObject::connect(q, &TunnelProxySocket::dataReceived, q, [s, q, k](const QByteArray &d) {
        W->progress++;
        if (!s->told.count(q)) { S->violation("payload.no_client", s->name + ": data on a disconnected socket"); return; }
        for (char c : d) {
            if (k->downGot >= k->downSent || c != byteOf(k->key, k->downGot)) { S->violation("sock.data", s->name + " address " + std::to_string(k->addr) + ": byte " + std::to_string(k->downGot) + " of the client's data is wrong"); return; }
            k->downGot++;
        }
        if (W->rPay.chance(0.05)) srvWrite(s, q, k, 1 + W->rPay.below(60));
    });
    QObject::connect(q, &TunnelProxySocket::disconnected, q, [s, q]() { if (s->told.count(q)) s->told[q] |= 1; });
    QObject::connect(q, &TunnelProxySocket::connectedChanged, q, [s, q](bool c) {
        if (c) S->violation("lib.socket_signals", s->name + ": connectedChanged(true) of a connected socket");
        if (s->told.count(q)) s->told[q] |= 2;
    });
    if (W->rPay.chance(0.1)) srvWrite(s, q, k, 1 + W->rPay.below(200));
}

static void srvGone(FServer *s, TunnelProxySocket *q)
{
    auto it = s->socks.find(q);
    if (it == s->socks.end()) { S->violation("lib.socket_signals", s->name + ": a socket is reported disconnected that is not connected"); return; }
    FSock *k = it->second;
    if (s->told[q] != 3) S->violation("lib.socket_signals", s->name + ": a socket is reported disconnected by its server, its own signals are missing");
    if (!k->goneSent && !s->appEnd && !(s->link && (s->link->libKnowsEnd() || std::find(s->link->all.begin(), s->link->all.end(), k) == s->link->all.end())))
        S->violation("lib.socket_signals", s->name + ": the socket with address " + std::to_string(k->addr) + " is reported disconnected, its client is connected");
    if (k->goneSent && k->downGot != k->downSent && !s->appEnd && s->link && !s->link->libKnowsEnd())
        S->violation("sock.data", s->name + " address " + std::to_string(k->addr) + ": disconnected with " + std::to_string(k->downGot) + " of " + std::to_string(k->downSent) + " bytes");
    k->appGone = true;
    s->told.erase(q);
    s->socks.erase(it);
    W->progress++;
}

static void srvState(FServer *s)
{
    auto st = s->srv->state();
    S->note('L', s->id, (int)st);
    W->state("fs " + std::to_string((int)st) + (s->enabled ? "e" : "s") + std::to_string(std::min<size_t>(s->socks.size() / 8, 8)));
    if (st == TunnelProxySocketServer::StateInitializing) s->appEnd = false;
}

static void srvRunning(FServer *s, bool r)
{
    W->progress++;
    S->trace("%s: running %d", s->name.c_str(), r);
    FLink *l = linkOf(s->node);
    if (r) {
        S->count("probe.fake_running");
        if (!l || !l->slip) S->violation("lib.state", s->name + " is running, the proxy has not registered it");
        if (!s->socks.empty()) S->violation("lib.disconnect_missing", s->name + " is running again, " + std::to_string(s->socks.size()) + " sockets of its last connection were not reported as disconnected");
        s->was = true;
        return;
    }
    if (!s->was) return;
    s->was = false;
    S->after(10 * MS, [s]() {
        if (s->srv && !s->srv->running() && !s->busy() && !s->socks.empty())
            S->violation("lib.disconnect_missing", s->name + " is not running any more, " + std::to_string(s->socks.size()) + " of its sockets were not reported as disconnected");
    });
}

static void srvStart(FServer *s)
{
    if (!s->srv || s->busy()) return;
    s->enabled = true;
    s->appEnd = true;
    NodeScope sc(s->node);
    s->srv->startServer(fakeUrl());
}

static void srvStop(FServer *s)
{
    if (!s->srv || s->busy()) return;
    s->enabled = false;
    s->appEnd = true;
    NodeScope sc(s->node);
    s->srv->stopServer();
}

static void cliAttempt(FClient *c)
{
    if (!c->rc || c->busy()) return;
    c->attempts++;
    c->appEnd = true;
    c->suuid = W->newUuid();
    c->asked.insert(normUuid(c->suuid));
    c->stateAt = S->now;
    c->link = nullptr;
    NodeScope sc(c->node);
    c->rc->connectServer(fakeUrl(), QUuid(QString::fromStdString(c->suuid)));
    c->appEnd = false;
}

static void cliState(FClient *c)
{
    auto st = c->rc->state();
    S->note('R', c->id, (int)st);
    S->trace("%s: state %d", c->name.c_str(), (int)st);
    c->stateAt = S->now;
    W->state("fc " + std::to_string((int)st) + (c->up ? "u" : ""));
}

static void cliRemote(FClient *c, bool up)
{
    W->progress++;
    if (c->up == up) S->violation("lib.state", c->name + ": remoteConnectedChanged twice");
    c->up = up;
    if (up) {
        S->count("probe.fake_remote");
        if (!c->link || !c->link->raw) S->violation("lib.state", c->name + " is remotely connected, the proxy has not registered it");
    } else if (!c->appEnd && c->link && !c->link->libKnowsEnd())
        S->violation("lib.state", c->name + " is not remotely connected any more, its connection works");
}

static void cliData(FClient *c, const QByteArray &d)
{
    W->progress++;
    FLink *l = c->link;
    if (!c->up || !l) { S->violation("lib.data_unconnected", c->name + ": data while not remotely connected"); return; }
    for (char ch : d) {
        if (l->downGot >= l->downSent || ch != byteOf(l->key, l->downGot)) { S->violation("rc.data", c->name + ": byte " + std::to_string(l->downGot) + " is wrong"); return; }
        l->downGot++;
    }
}

static void cliSend(FClient *c, size_t n)
{
    if (!c->rc || c->busy()) return;
    FLink *l = c->link;
    bool up = c->rc->remoteConnected();
    std::string d(n, 'x');
    if (up && l) { d = bytesOf(l->key + 1, l->upSent, n); l->upSent += n; }
    NodeScope sc(c->node);
    if (c->rc->sendData(QByteArray(d.data(), (int)d.size())) != up) S->violation("lib.send_result", c->name + ": sendData does not fit remoteConnected()");
}

static void newFServer()
{
    FServer *s = new FServer;
    s->id = (int)F->srv.size();
    s->node = W->newNode("lsrv");
    s->uuid = W->newUuid();
    s->name = "S" + std::to_string(s->id) + " \"{}\"";
    s->nextAddr = (uint16_t)(W->coin("addrHigh", 0.7) ? 1 + F->r.below(0xffff) : 1);
    F->srv.push_back(s);
    NodeScope sc(s->node);
    s->srv = new TunnelProxySocketServer(QUuid(QString::fromStdString(s->uuid)), QString::fromStdString(s->name));
    App::setRoot(s->srv, s->node);
    TunnelProxySocketServer *q = s->srv;
    QObject::connect(q, &TunnelProxySocketServer::stateChanged, q, [s]() { srvState(s); });
    QObject::connect(q, &TunnelProxySocketServer::runningChanged, q, [s](bool r) { srvRunning(s, r); });
    QObject::connect(q, &TunnelProxySocketServer::clientConnected, q, [s](TunnelProxySocket *k) { srvClient(s, k); });
    QObject::connect(q, &TunnelProxySocketServer::clientDisconnected, q, [s](TunnelProxySocket *k) { srvGone(s, k); });
    srvStart(s);
}

static void newFClient()
{
    FClient *c = new FClient;
    c->id = (int)F->cli.size();
    c->node = W->newNode("lcli");
    c->cuuid = W->newUuid();
    c->name = "C" + std::to_string(c->id) + " ü";
    F->cli.push_back(c);
    NodeScope sc(c->node);
    c->rc = new TunnelProxyRemoteConnection(QUuid(QString::fromStdString(c->cuuid)), QString::fromStdString(c->name));
    App::setRoot(c->rc, c->node);
    TunnelProxyRemoteConnection *q = c->rc;
    QObject::connect(q, &TunnelProxyRemoteConnection::stateChanged, q, [c]() { cliState(c); });
    QObject::connect(q, &TunnelProxyRemoteConnection::remoteConnectedChanged, q, [c](bool u) { cliRemote(c, u); });
    QObject::connect(q, &TunnelProxyRemoteConnection::dataReady, q, [c](const QByteArray &d) { cliData(c, d); });
    cliAttempt(c);
}

// ------------------------------------------------------------- operations

static FSock *anySock(FServer *s, uint64_t r, TunnelProxySocket **q)
{
    if (s->socks.empty()) return nullptr;
    std::vector<std::pair<uint16_t, TunnelProxySocket *>> v;
    for (auto &x : s->socks) v.push_back({x.second->addr, x.first});
    std::sort(v.begin(), v.end());
    *q = v[r % v.size()].second;
    return s->socks[*q];
}

static FSock *anyNow(FLink *l, uint64_t r)
{
    if (l->now_.empty()) return nullptr;
    auto i = l->now_.begin();
    std::advance(i, r % l->now_.size());
    return i->second;
}

static void execFake(const Op &op)
{
    S->count("ops");
    FServer *s = F->srv.empty() ? nullptr : F->srv[op.a % F->srv.size()];
    FClient *c = F->cli.empty() ? nullptr : F->cli[op.a % F->cli.size()];
    FLink *l = s ? linkOf(s->node) : nullptr;
    if (l && (!l->slip || l->over)) l = nullptr;
    Rng r;
    r.seed(op.b, 99);
    bool tog = r.chance(F->together);
    switch (op.kind) {
    case F_ANNOUNCE: {
        if (!l) return;
        int n = r.chance(0.25) ? (int)r.range(20, 150) : (int)r.range(1, 6);
        W->note("the proxy announces %d clients to %s", n, s->name.c_str());
        for (int i = 0; i < n; i++) {
            uint16_t a = newAddr(s, l);
            if (!a) break;
            l->announce(a, tog);
            if (r.chance(0.3)) l->data(l->now_[a], 1 + r.below(100), tog);
        }
        l->out("", false);
        return;
    }
    case F_WITHDRAW: {
        if (!l) return;
        int n = r.chance(0.2) ? (int)r.range(5, 100) : 1;
        W->note("%d clients of %s are gone", n, s->name.c_str());
        for (int i = 0; i < n; i++) if (FSock *k = anyNow(l, r.next())) l->withdraw(k, tog);
        l->out("", false);
        return;
    }
    case F_DATA: case F_MIX: {
        if (!l) return;
        int n = r.chance(0.3) ? (int)r.range(5, 60) : (int)r.range(1, 3);
        W->note("the proxy sends %d frames to %s", n, s->name.c_str());
        for (int i = 0; i < n; i++) {
            FSock *k = anyNow(l, r.next());
            double p = op.kind == F_MIX ? r.unit() : 1;
            if (p < 0.2) { uint16_t a = newAddr(s, l); if (a) l->announce(a, tog); }
            else if (p < 0.35 && k) l->withdraw(k, tog);
            else if (k) l->data(k, r.chance(0.1) ? r.range(1000, 60000) : r.range(1, 200), tog);
        }
        l->out("", false);
        return;
    }
    case F_APP_SEND: {
        TunnelProxySocket *q = nullptr;
        if (!s) return;
        for (int i = 0; i < (int)r.range(1, 4); i++)
            if (FSock *k = anySock(s, r.next(), &q)) { W->note("%s writes to address %d", s->name.c_str(), k->addr); srvWrite(s, q, k, r.chance(0.1) ? r.range(1000, 100000) : r.range(1, 300)); }
        return;
    }
    case F_APP_DISC: {
        TunnelProxySocket *q = nullptr;
        if (!s || s->busy() || !s->link || !s->link->alive()) return;
        FSock *k = anySock(s, r.next(), &q);
        if (!k) return;
        W->note("%s disconnects address %d", s->name.c_str(), k->addr);
        k->discAsked++;
        NodeScope sc(s->node);
        q->disconnectSocket();
        return;
    }
    case F_APP_STOP: if (s) { W->note("%s is stopped", s->name.c_str()); srvStop(s); if (op.c & 1) srvStart(s); } return;
    case F_APP_START: if (s) { W->note("%s is started", s->name.c_str()); srvStart(s); } return;
    case F_CUT: {
        std::vector<FLink *> v;
        for (FLink &x : F->links) if (x.alive()) v.push_back(&x);
        if (v.empty()) return;
        FLink *x = v[op.b % v.size()];
        W->note("the proxy ends connection %d", x->id);
        S->count("fault.fake_cut");
        x->cut((int)(op.c % 2));
        return;
    }
    case F_STALL: {
        Node *n = s && (op.c & 1) ? s->node : c ? c->node : nullptr;
        if (!n) return;
        Time d = r.logTime(MS, 20 * SEC);
        W->note("%s stalls for %.3f s", n->name.c_str(), d / 1e9);
        S->count("fault.lib_stall");
        n->stalledUntil = std::max(n->stalledUntil, S->now + d);
        return;
    }
    case F_BLOCK: {
        Node *n = s && (op.c & 1) ? s->node : c ? c->node : nullptr;
        if (!n || n->blocked) return;
        Time d = r.logTime(MS, 100 * SEC);
        W->note("partition of %s for %.3f s", n->name.c_str(), d / 1e9);
        S->count("fault.partition");
        S->setBlocked(n, true);
        S->after(d, [n]() { S->setBlocked(n, false); });
        return;
    }
    case F_C_DATA: {
        if (!c || !c->link || !c->link->raw || c->link->over) return;
        size_t n = r.chance(0.2) ? r.range(1000, 100000) : r.range(1, 300);
        W->note("the proxy sends %zu bytes to %s", n, c->name.c_str());
        c->link->out(bytesOf(c->link->key, c->link->downSent, n), false);
        c->link->downSent += n;
        return;
    }
    case F_C_SEND: if (c) { W->note("%s sends", c->name.c_str()); cliSend(c, r.chance(0.2) ? r.range(1000, 100000) : r.range(1, 300)); } return;
    case F_C_AGAIN: if (c) { W->note("%s connects again", c->name.c_str()); cliAttempt(c); } return;
    case F_C_END:
        if (!c || !c->rc || c->busy()) return;
        W->note("%s disconnects", c->name.c_str());
        c->appEnd = true;
        { NodeScope sc(c->node); c->rc->disconnectServer(); }
        return;
    }
}

// ------------------------------------------------------------- the end

static int g_fphase;
static Time g_fphaseAt;

static bool fakeReady()
{
    if (g_fphase == 0) {
        if (S->now - W->quiesceStart < 70 * SEC) return false; // what a partition has held up comes through
        for (FLink &l : F->links) if (l.stuck || l.refused) l.cut(0); // whoever waits for an answer learns that there is none
        g_fphase = 1;
        g_fphaseAt = S->now;
    }
    if (g_fphase == 1) {
        bool all = true;
        for (FServer *s : F->srv) if (s->enabled && !s->srv->running()) all = false;
        for (FClient *c : F->cli) { auto st = c->rc->state(); if (st != TunnelProxyRemoteConnection::StateDisconnected && st != TunnelProxyRemoteConnection::StateRemoteConnected) all = false; }
        if (!all && S->now - g_fphaseAt < 120 * SEC) return false;
        for (FServer *s : F->srv)
            if (s->enabled && !s->srv->running()) S->violation("lib.not_running", s->name + " is in state " + std::to_string((int)s->srv->state()) + " 120 s after everything works again");
        for (FClient *c : F->cli) {
            auto st = c->rc->state();
            Conn *k = c->link ? c->link->conn() : nullptr;
            if (k && !c->link->libKnowsEnd() && (k->ep[1].closed || k->ep[1].reset)) continue; // nobody has told it
            if (st != TunnelProxyRemoteConnection::StateDisconnected && st != TunnelProxyRemoteConnection::StateRemoteConnected)
                S->violation("lib.attempt_pending", c->name + " is in state " + std::to_string((int)st) + " " + std::to_string((S->now - c->stateAt) / SEC) + " s after its last change");
        }
        if (!S->violations.empty()) return true;
        for (FClient *c : F->cli) if (c->rc->state() == TunnelProxyRemoteConnection::StateDisconnected) cliAttempt(c);
        for (FServer *s : F->srv) {
            FLink *l = linkOf(s->node);
            if (!s->enabled || !l || !l->slip || l->over) continue;
            for (int i = 0; i < 5; i++) { uint16_t a = newAddr(s, l); if (a) { l->announce(a, false); l->data(l->now_[a], 100, false); } }
            for (auto &x : l->now_) if (F->r.chance(0.5)) l->data(x.second, 1 + F->r.below(50), false);
        }
        g_fphase = 2;
        g_fphaseAt = S->now;
        return false;
    }
    if (g_fphase == 2) {
        if (S->now - g_fphaseAt < 15 * SEC) return false;
        for (FClient *c : F->cli) {
            if (!c->up && c->link && c->link->libKnowsEnd()) continue;
            if (!c->up) {
                Conn *k = c->link ? c->link->conn() : nullptr;
                if (k && !c->link->libKnowsEnd() && (k->ep[1].closed || k->ep[1].reset)) continue;
                S->violation("lib.attempt_failed", c->name + " cannot be connected again: state " + std::to_string((int)c->rc->state()));
                continue;
            }
            cliSend(c, 150);
            if (c->link->raw && !c->link->over) { c->link->out(bytesOf(c->link->key, c->link->downSent, 150), false); c->link->downSent += 150; }
        }
        for (FServer *s : F->srv) for (auto &x : std::map<TunnelProxySocket *, FSock *>(s->socks)) if (F->r.chance(0.5)) srvWrite(s, x.first, x.second, 20);
        g_fphase = 3;
        g_fphaseAt = S->now;
        return false;
    }
    return S->now - g_fphaseAt > 10 * SEC;
}

static std::string num(uint64_t v) { return std::to_string(v); }

static void fakeFinal()
{
    for (FServer *s : F->srv) {
        FLink *l = linkOf(s->node);
        if (!s->srv->running() && !s->socks.empty()) S->violation("lib.disconnect_missing", s->name + " is not running and has " + num(s->socks.size()) + " sockets");
        if (!l || !l->slip || !l->alive() || !s->srv->running()) continue;
        for (FSock *k : l->all) {
            if (!k->appUp) S->violation("lib.connect_missing", s->name + " was not told of the client with address " + num(k->addr) + ", one of " + num(l->now_.size()));
            else if (k->goneSent && !k->appGone) S->violation("lib.disconnect_missing", s->name + " was not told that the client with address " + num(k->addr) + " is gone");
            else if (!k->goneSent && k->appGone) S->violation("lib.socket_signals", s->name + ": the client with address " + num(k->addr) + " is connected, its socket is not");
            if (k->downGot != k->downSent) S->violation("sock.lost", s->name + " address " + num(k->addr) + ": " + num(k->downGot) + " of " + num(k->downSent) + " bytes arrived");
            if (k->upGot != k->upSent) S->violation("sock.lost", s->name + " address " + num(k->addr) + ": " + num(k->upGot) + " of " + num(k->upSent) + " bytes it wrote arrived");
            if (k->discGot != k->discAsked) S->violation("sock.disc", s->name + " address " + num(k->addr) + ": the disconnect was not requested");
            if (!S->violations.empty()) break;
        }
    }
    for (FClient *c : F->cli) {
        FLink *l = c->link;
        if (!l || !l->raw || !l->alive()) continue;
        if (!c->up) S->violation("lib.not_connected", c->name + " is registered and says " + num((int)c->rc->state()));
        if (l->downGot != l->downSent) S->violation("rc.lost", c->name + ": " + num(l->downGot) + " of " + num(l->downSent) + " bytes arrived");
        if (l->upGot != l->upSent) S->violation("rc.lost", c->name + ": " + num(l->upGot) + " of " + num(l->upSent) + " bytes it sent arrived");
    }
}

void setupFakeProxy()
{
    F = new Fake;
    F->r.seed(S->seed, 4711);
    W->ssl = false;
    W->defaultNet();
    W->tg.ip = S->proxy->ip;
    bool faults = W->coin("faults", 0.7);
    F->bad = faults ? W->knob("fakeBad", 0.02, 0.5) : 0;
    F->together = W->coin("together", 0.7) ? W->knob("togetherP", 0.1, 1) : 0;
    F->slow = W->coin("slowAnswers", 0.5) ? W->knob("slowAnswersP", 0.05, 0.8) : 0;
    F->addrMode = W->knobi("addrMode", 0, 3);
    S->nativeListeners.push_back({S->proxy, S->proxy->ip, W->tg.tcpPort, acceptFake});
    int ns = W->knobi("libServers", 0, 2), nc = W->knobi("libClients", ns ? 0 : 1, 3);
    for (int i = 0; i < ns; i++) S->at(MS * (1 + i), newFServer);
    for (int i = 0; i < nc; i++) S->at(MS * (5 + i), newFClient);
    Time end = (Time)(W->knob("spanS", 0.3, 1) * (W->coin("long", 0.4) ? 150 : 12) * SEC);
    std::vector<Gen> mix = {{F_ANNOUNCE, 4}, {F_WITHDRAW, 3}, {F_DATA, 5}, {F_MIX, 5}, {F_APP_SEND, 4}, {F_APP_DISC, 3}, {F_APP_STOP, 0.5}, {F_APP_START, 0.5}, {F_C_DATA, 3}, {F_C_SEND, 3}, {F_C_AGAIN, 2}, {F_C_END, 1}};
    if (faults) { std::vector<Gen> f = {{F_CUT, 2}, {F_STALL, 1}, {F_BLOCK, 1}}; mix.insert(mix.end(), f.begin(), f.end()); }
    std::vector<Op> ops = genOps(mix, W->knobi("nOps", 8, 60), 100 * MS, end);
    std::stable_sort(ops.begin(), ops.end(), [](const Op &a, const Op &b) { return a.t < b.t; });
    W->exec = execFake;
    W->quietSpan = 20 * SEC;
    W->finalReady = fakeReady;
    W->finalChecks = fakeFinal;
    W->run(ops, end + SEC);
}

} // namespace sim
