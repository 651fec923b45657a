#include "profiles.h"
#include <algorithm>
#include <cmath>
#include <unistd.h>

namespace sim {

const char *opName(int k)
{
    static const char *n[] = {"", "server connects", "second server with a used UUID", "server ends", "server reconnects", "client connects", "client with a used UUID", "client with a server's UUID",
                              "client for an unknown server", "client ends", "client reconnects", "client sends", "server sends", "both send", "DisconnectClient", "DisconnectClient for nobody", "peer stops reading",
                              "peer reads again", "partition of a peer", "partition of the proxy", "proxy stalls", "malformed frame", "reset", "second registration on a link", "request on a server link",
                              "scripted requests", "idle peer", "hostile peer", "monitor connects", "refresh", "several refreshes", "monitor ends", "clock jump", "descriptor limit", "descriptors available", "server falls silent", "churn", "hostile monitor", "engine stops", "engine starts", "engine restarts", "engine stops and starts", "proxy crashes", "engine is destroyed", "clear text on a TLS port"};
    return k >= 0 && k < (int)(sizeof n / sizeof *n) ? n[k] : "library op";
}

std::vector<Op> genOps(std::vector<Gen> mix, int n, Time start, Time end, bool swarm)
{
    Rng &r = W->rOps;
    std::vector<Op> out;
    double sum = 0;
    for (Gen &g : mix) {
        if (swarm) {
            double u = r.unit();
            if (u < 0.18) g.w = 0;
            else if (u > 0.9) g.w *= 4;
            else if (u < 0.4) g.w *= 0.4;
        }
        sum += g.w;
    }
    if (sum <= 0) return out;
    Time t = start;
    Time mean = std::max<Time>((end - start) / std::max(1, n), US);
    for (int i = 0; i < n; i++) {
        // clusters and pauses: half of the gaps are tiny
        Time gap = r.chance(0.5) ? r.logTime(10 * US, std::max<Time>(mean, 20 * US)) : r.range(0, 3 * mean);
        t += gap;
        if (t > end) t = start + r.range(0, end - start);
        Op o;
        o.t = t;
        double x = r.unit() * sum;
        for (Gen &g : mix) { o.kind = g.kind; if ((x -= g.w) < 0 && g.w > 0) break; }
        o.a = r.next();
        o.b = r.next();
        o.c = r.next();
        out.push_back(o);
    }
    std::stable_sort(out.begin(), out.end(), [](const Op &a, const Op &b) { return a.t < b.t; });
    return out;
}

void addInitial(std::vector<Op> &ops, int servers, int clients, Time spread)
{
    Rng &r = W->rOps;
    std::vector<Op> first;
    for (int i = 0; i < servers + clients; i++) {
        Op o;
        o.kind = i < servers ? O_SERVER : O_CLIENT;
        o.t = i < servers ? (Time)r.range(0, spread / 4) : spread / 2 + (Time)r.range(0, spread / 2);
        o.a = r.next(); o.b = r.next(); o.c = r.next();
        first.push_back(o);
    }
    ops.insert(ops.begin(), first.begin(), first.end());
}

static double g_drip = 0;
static double g_wsFragment = 0;
static bool g_wsServers = false;

void basicSetup(double sslP)
{
    W->ssl = W->coin("ssl", sslP);
    W->inactiveMs = W->knobi("inactiveMs", 5000, 14000);
    if (W->coin("inactiveLong", 0.06)) W->inactiveMs = W->knobi("inactiveLongMs", 55000, 150000);
    W->defaultNet();
    g_drip = W->coin("dripping", 0.4) ? W->knob("drip", 0.05, 0.9) : 0;
    g_wsFragment = W->coin("wsFragments", 0.4) ? W->knob("wsFragmentP", 0.1, 0.9) : 0;
    W->startProxy();
    W->finalReady = probesDone;
    W->finalChecks = []() { W->tunnelFinal(); };
}

static void tune(Peer *p)
{
    p->drip = g_drip;
}
static void tuneAfter(Peer *p)
{
    if (p->ws) p->ws->fragment = g_wsFragment;
}

std::vector<ServerSide *> liveServers()
{
    std::vector<ServerSide *> v;
    for (ServerSide *s : W->servers) if (s->running()) v.push_back(s);
    return v;
}

std::vector<Tunnel *> upTunnels()
{
    std::vector<Tunnel *> v;
    for (Tunnel *t : W->tunnels) if (t->client && t->client->canSend() && t->epoch == W->epoch && t->client->t == t) v.push_back(t);
    return v;
}

std::vector<Tunnel *> downTunnels()
{
    std::vector<Tunnel *> v;
    for (ServerSide *s : W->servers)
        if (s->running())
            for (auto &a : s->addrs) v.push_back(a.second);
    return v;
}

size_t sizeOf(uint64_t r)
{
    Rng x;
    x.seed(r, 9);
    int c = (int)x.below(W->smallMessages ? 14 : 20);
    if (c < 6) return (size_t)x.range(1, 12);
    if (c < 13) return (size_t)x.logTime(1, 1500);
    if (c < 18) return (size_t)x.logTime(1000, 20000);
    return (size_t)x.logTime(20000, 90000);
}

RawServer *newServer(const std::string &uuid, uint64_t r)
{
    RawServer *s = new RawServer;
    tune(s);
    s->hello = (r >> 8) % 2;
    s->start(g_wsServers ? (W->ssl ? TR_WSS : TR_WS) : W->pickTransport(r >> 16, true), uuid);
    tuneAfter(s);
    return s;
}

RawClient *newClient(const std::string &su, const std::string &cu, uint64_t r)
{
    RawClient *c = new RawClient;
    tune(c);
    c->hello = (r >> 8) % 2;
    c->start(W->pickTransport(r >> 16, false), su, cu);
    tuneAfter(c);
    return c;
}

std::string anyServerUuid(uint64_t r)
{
    if (W->serverUuids.empty()) return "{99999999-2222-4333-8444-555555555555}";
    return W->serverUuids[r % W->serverUuids.size()];
}

template <class T> static T *pickIf(const std::vector<T *> &v, uint64_t r, std::function<bool(T *)> f)
{
    std::vector<T *> e;
    for (T *x : v) if (f(x)) e.push_back(x);
    return e.empty() ? nullptr : e[r % e.size()];
}

// An address none of the server's clients has, or will have in this run: far away from those
// in use, but often the same in all but a few bits.
static uint16_t nobodysAddress(RawServer *s, uint64_t r)
{
    uint16_t far = (uint16_t)(20000 + r % 40000);
    if (s->addrs.empty() || (r >> 56) % 3 == 0) return far;
    auto it = s->addrs.begin();
    std::advance(it, (r >> 40) % s->addrs.size());
    uint16_t h = it->first;
    if (h >= 0x2000) return far;
    uint16_t no = far;
    switch ((r >> 32) % 5) {
    case 0: no = (uint16_t)(h ^ ((0x40 + r % 0xc0) << 8)); break;          // the same low byte
    case 1: no = (uint16_t)(h | 0x8000); break;
    case 2: no = (uint16_t)~h; break;
    case 3: no = 0xffff; break;
    case 4: no = (uint16_t)((h << 8 | h >> 8) & 0xffff); break;            // the other byte order
    }
    return no < 0x4000 ? far : no;
}

Peer *alivePeer(uint64_t r)
{
    return pickIf<Peer>(W->peers, r, [](Peer *p) { return !p->selfEnded && !p->isDown && p->epoch == W->epoch; });
}

void sendTo(Tunnel *t, int dir, size_t n, uint64_t how)
{
    if (dir == 0) {
        if (t->client && t->client->canSend()) { t->client->sendUp(n); S->count("work.client_bytes", n); }
    } else if (t->server && t->server->running()) {
        auto it = t->server->addrs.find(t->addr);
        if (it == t->server->addrs.end() || it->second != t) return;
        t->server->sendDown(t, n, how);
        S->count("work.server_bytes", n);
    }
}

bool execCommon(const Op &op)
{
    uint64_t a = op.a, b = op.b, c = op.c;
    switch (op.kind) {
    case O_SERVER: {
        std::string u = W->newUuid();
        W->serverUuids.push_back(u);
        RawServer *s = newServer(u, b);
        W->note("server %s connects (%s) uuid %s", s->name.c_str(), trName(s->tr), u.c_str());
        return true;
    }
    case O_SERVER_DUP: {
        RawServer *s = newServer(anyServerUuid(a), b);
        if ((b >> 40) % 2) // even the name is the same
            for (const Reg &g : W->regs) if (g.server && g.uuid == s->uuid) { s->regName = g.name; break; }
        W->note("server %s connects (%s) with the used uuid %s", s->name.c_str(), trName(s->tr), s->uuid.c_str());
        return true;
    }
    case O_SERVER_END: {
        RawServer *s = pickIf<RawServer>(W->rservers, a, [](RawServer *x) { return !x->selfEnded && !x->isDown; });
        if (!s) return true;
        int how = (int)(b % 4);
        W->note("server %s %s", s->name.c_str(), how == 1 ? "resets" : how == 2 ? "vanishes" : "closes");
        if (how == 1) s->endAbort(); else if (how == 2) s->endVanish(); else s->endGraceful();
        return true;
    }
    case O_SERVER_RECONN: {
        RawServer *s = pickIf<RawServer>(W->rservers, a, [](RawServer *x) { return x->st != nullptr; });
        if (!s) return true;
        int how = (int)(b % 4);
        if (!s->selfEnded && !s->isDown) { if (how == 1) s->endAbort(); else if (how == 2) s->endVanish(); else s->endGraceful(); }
        std::string u = s->uuid;
        Rng r;
        r.seed(c);
        Time d = r.chance(0.4) ? 0 : r.logTime(100 * US, 3 * SEC);
        W->note("server %s %s and comes back with the same uuid after %.3f s", s->name.c_str(), how == 1 ? "resets" : how == 2 ? "vanishes" : "closes", d / 1e9);
        uint64_t rr = r.next();
        S->after(d, [u, rr]() { if (!W->quiescing) newServer(u, rr); });
        return true;
    }
    case O_CLIENT: {
        RawClient *x = newClient(anyServerUuid(a), W->newUuid(), b);
        W->note("client %s connects (%s) for server %s", x->name.c_str(), trName(x->tr), x->suuid.c_str());
        return true;
    }
    case O_CLIENT_DUP: {
        RawClient *o = pickIf<RawClient>(W->rclients, a, [](RawClient *) { return true; });
        if (!o) return true;
        RawClient *x = newClient(anyServerUuid(c), o->t->cuuid, b);
        W->note("client %s connects (%s) for server %s with the uuid of %s", x->name.c_str(), trName(x->tr), x->suuid.c_str(), o->name.c_str());
        return true;
    }
    case O_CLIENT_CROSS: {
        if (a & 1) {
            RawClient *x = newClient(anyServerUuid(c), anyServerUuid(a >> 1), b);
            W->note("client %s connects (%s) with a server's uuid", x->name.c_str(), trName(x->tr));
        } else {
            RawClient *o = pickIf<RawClient>(W->rclients, a >> 1, [](RawClient *) { return true; });
            if (!o) return true;
            RawServer *s = newServer(o->t->cuuid, b);
            W->note("server %s connects (%s) with the uuid of client %s", s->name.c_str(), trName(s->tr), o->name.c_str());
        }
        return true;
    }
    case O_CLIENT_NOSRV: {
        RawClient *x = newClient(W->newUuid(), W->newUuid(), b);
        W->note("client %s connects (%s) for a server that does not exist", x->name.c_str(), trName(x->tr));
        return true;
    }
    case O_CLIENT_END: {
        RawClient *x = pickIf<RawClient>(W->rclients, a, [](RawClient *p) { return !p->selfEnded && !p->isDown; });
        if (!x) return true;
        int how = (int)(b % 6);
        how = how < 3 ? 0 : how < 5 ? 1 : 2;
        if ((c & 3) == 0 && x->canSend()) x->sendUp(sizeOf(c)); // last words
        W->note("client %s %s", x->name.c_str(), how == 1 ? "resets" : how == 2 ? "vanishes" : "closes");
        x->end(how);
        return true;
    }
    case O_CLIENT_RECONN: {
        RawClient *x = pickIf<RawClient>(W->rclients, a, [](RawClient *p) { return p->st != nullptr; });
        if (!x) return true;
        int how = (int)(b % 3);
        if (!x->selfEnded && !x->isDown) x->end(how);
        std::string su = (b >> 8) % 3 ? x->suuid : anyServerUuid(b >> 10), cu = x->t->cuuid;
        Rng r;
        r.seed(c);
        Time d = r.chance(0.4) ? 0 : r.logTime(100 * US, 3 * SEC);
        uint64_t rr = r.next();
        W->note("client %s %s and comes back with the same uuid after %.3f s", x->name.c_str(), how == 1 ? "resets" : how == 2 ? "vanishes" : "closes", d / 1e9);
        S->after(d, [su, cu, rr]() { if (!W->quiescing) newClient(su, cu, rr); });
        return true;
    }
    case O_UP: case O_DOWN: case O_BURST: {
        int n = op.kind == O_BURST ? 1 + (int)(c % 12) : 1;
        Rng r;
        r.seed(b, c);
        for (int i = 0; i < n; i++) {
            int dir = op.kind == O_BURST ? (int)r.below(2) : op.kind == O_DOWN;
            std::vector<Tunnel *> v = dir ? downTunnels() : upTunnels();
            if (v.empty()) continue;
            Tunnel *t = v[(op.kind == O_BURST ? r.next() : a) % v.size()];
            size_t k = sizeOf(r.next());
            if (op.kind != O_BURST) W->note("%s of tunnel %d sends %zu bytes", dir ? "server" : "client", t->id, k);
            sendTo(t, dir, k, r.next());
        }
        if (op.kind == O_BURST) W->note("burst of %d messages", n);
        return true;
    }
    case O_DISC: {
        std::vector<Tunnel *> v;
        for (Tunnel *t : downTunnels()) if (t->server->raw() || (t->server->addrs.count(t->addr))) v.push_back(t);
        if (v.empty()) return true;
        Tunnel *t = v[a % v.size()];
        W->note("server %s requests the disconnect of address %d (tunnel %d)", t->server->sname.c_str(), t->addr, t->id);
        t->server->requestDisconnect(t->addr, t);
        if (b % 4 == 0) sendTo(t, 1, sizeOf(c), c);
        return true;
    }
    case O_DISC_NONE: {
        RawServer *s = pickIf<RawServer>(W->rservers, a, [](RawServer *x) { return x->running(); });
        if (!s) return true;
        uint16_t addr = nobodysAddress(s, b);
        if ((c >> 8) % 4 == 0 && s->addrs.size()) {
            // a number which is no address, but is one of its clients' addresses modulo something
            int64_t have = s->addrs.begin()->first, mod[] = {65536, 1LL << 32, 131072, -65536, 1LL << 40, 16711680};
            int64_t no = have + mod[(c >> 16) % 6];
            W->note("server %s requests the disconnect of %lld, which is no address", s->name.c_str(), (long long)no);
            s->requestDisconnect(no, nullptr);
            return true;
        }
        if (c & 1) {
            // an address of another server's client which this server has already used and lost
            for (ServerSide *o : W->servers)
                if (o != s)
                    for (auto &x : o->addrs)
                        if (s->lastAddr && x.first < s->lastAddr && !s->addrs.count(x.first)) addr = x.first;
        }
        if (s->addrs.count(addr)) return true;
        W->note("server %s requests the disconnect of address %d, which none of its clients has", s->name.c_str(), addr);
        s->requestDisconnect(addr, nullptr);
        return true;
    }
    case O_PAUSE: {
        Peer *p = alivePeer(a);
        if (p && p->wellBehaved) { W->note("%s stops reading", p->name.c_str()); p->setPaused(true); }
        return true;
    }
    case O_FLOOD: { // much more than anybody buffers, for somebody who does not read for a while
        if (W->floods >= 2 || W->smallMessages) return true;
        int dir = (int)(a & 1);
        std::vector<Tunnel *> v = dir ? downTunnels() : upTunnels();
        if (v.empty()) return true;
        Tunnel *t = v[(a >> 1) % v.size()];
        Peer *to = dir ? dynamic_cast<Peer *>(t->client) : dynamic_cast<Peer *>(t->server);
        if (!to || !to->st || !to->wellBehaved || to->selfEnded || to->isDown) return true;
        W->floods++;
        Rng r;
        r.seed(b, c);
        size_t total = (size_t)r.logTime(600000, 6000000);
        Time d = r.logTime(50 * MS, 8 * SEC);
        W->note("%s of tunnel %d sends %zu bytes while %s does not read for %.3f s", dir ? "server" : "client", t->id, total, to->name.c_str(), d / 1e9);
        S->count("work.flood");
        to->setPaused(true);
        bool whole = r.chance(0.4);
        while (total > 0) {
            size_t n = whole ? total : std::min(total, (size_t)r.range(20000, 150000));
            sendTo(t, dir, n, r.next());
            total -= n;
        }
        S->after(d, [to]() { if (to->paused && !to->selfEnded) to->setPaused(false); });
        return true;
    }
    case O_RESUME: {
        Peer *p = pickIf<Peer>(W->peers, a, [](Peer *x) { return x->paused && !x->selfEnded; });
        if (p) { W->note("%s reads again", p->name.c_str()); p->setPaused(false); }
        return true;
    }
    case O_BLOCK: {
        Peer *p = alivePeer(a);
        if (!p || p->node->blocked) return true;
        Rng r;
        r.seed(b);
        Time d = r.logTime(5 * MS, 100 * SEC);
        W->note("partition of %s for %.3f s", p->name.c_str(), d / 1e9);
        S->count("fault.partition");
        Node *n = p->node;
        S->setBlocked(n, true);
        S->after(d, [n]() { S->setBlocked(n, false); });
        return true;
    }
    case O_BLOCK_PROXY: {
        Rng r;
        r.seed(b);
        Time d = r.logTime(5 * MS, 20 * SEC);
        W->note("partition of the proxy for %.3f s", d / 1e9);
        S->count("fault.partition_proxy");
        S->setBlocked(S->proxy, true);
        W->stallTotal += d / 2;
        S->after(d, []() { S->setBlocked(S->proxy, false); });
        return true;
    }
    case O_STALL: {
        Rng r;
        r.seed(b);
        Time d = r.logTime(MS, 4 * SEC);
        W->note("the proxy's process stalls for %.3f s", d / 1e9);
        S->count("fault.proxy_stall");
        S->proxy->stalledUntil = std::max(S->proxy->stalledUntil, S->now + d);
        W->stallTotal += d;
        return true;
    }
    case O_BADFRAME: {
        RawServer *s = pickIf<RawServer>(W->rservers, a, [](RawServer *x) { return x->running(); });
        if (!s) return true;
        std::string f;
        const char *what = "";
        switch (b % 6) {
        case 0: f = std::string("\x7f\x7f\xdb\x41zz\xc0", 7); what = "frame with an invalid escape"; break;
        case 1: f = std::string(1 + c % 5, '\xc0'); what = "empty frames"; break;
        case 2: f = slipFrame(nobodysAddress(s, c), std::string(1 + (c >> 20) % 300, c & 1 ? '\xdb' : 'n')); what = "frame for an address nobody has"; break;
        case 3: f = std::string("\x7f\x7e\xdb\xc0", 4); what = "frame that ends in an escape"; break;
        case 4: f = std::string("\xdb\x00\xc0", 3); what = "frame with an invalid escape"; break;
        default: {
            std::vector<Tunnel *> v;
            for (auto &x : s->addrs) v.push_back(x.second);
            if (v.empty()) return true;
            f = slipFrame(v[c % v.size()]->addr, "");
            what = "frame without payload";
        }
        }
        for (auto &x : s->addrs) if (x.first == 0x7f7f || x.first == 0x7f7e) return true;
        W->note("server %s sends: %s", s->name.c_str(), what);
        S->count("fault.malformed_frame");
        s->put(f);
        return true;
    }
    case O_RST: {
        Peer *p = alivePeer(a);
        if (!p || !p->conn() || p->conn()->unixdom || p->conn()->state != 1) return true;
        W->note("a middlebox resets the connection of %s towards the proxy", p->name.c_str());
        S->count("fault.reset_at_proxy");
        p->exemptDrop = true;
        if (RawClient *rc = dynamic_cast<RawClient *>(p)) { rc->t->clientEnding = true; rc->t->cutOff = true; }
        S->arriveRst(&p->conn()->ep[1], ECONNRESET);
        return true;
    }
    case O_REREG: {
        RawServer *s = pickIf<RawServer>(W->rservers, a, [](RawServer *x) { return x->running() && !x->expectKill; });
        if (!s) return true;
        W->note("server %s registers again on its link", s->name.c_str());
        Expect e;
        bool asClient = b & 1;
        e.kind = asClient ? K_REGCLIENT : K_REGSERVER;
        e.what = "second registration";
        e.uuid = (b & 2) ? s->uuid : W->newUuid();
        e.reg = (int)W->regs.size();
        Reg r;
        r.server = !asClient;
        r.uuid = e.uuid;
        r.srv = s->uuid;
        r.p = s;
        r.conn = s->conn();
        r.tSend = S->now;
        r.epoch = s->epoch;
        W->regs.push_back(r);
        s->exemptDrop = true;
        if (asClient) s->rpc(e, "TunnelProxy.RegisterClient", "{\"clientName\":\"again\",\"clientUuid\":" + jsonStr(e.uuid) + ",\"serverUuid\":" + jsonStr(s->uuid) + "}");
        else s->rpc(e, "TunnelProxy.RegisterServer", "{\"serverName\":\"again\",\"serverUuid\":" + jsonStr(e.uuid) + "}");
        return true;
    }
    case O_SRV_RPC: {
        RawServer *s = pickIf<RawServer>(W->rservers, a, [](RawServer *x) { return x->running() && !x->expectKill; });
        if (!s) return true;
        int n = 1 + (int)(b % 5);
        Rng r;
        r.seed(c);
        W->note("server %s sends %d requests on its link", s->name.c_str(), n);
        for (int i = 0; i < n; i++) {
            Expect e;
            switch (r.below(3)) {
            case 0: e.kind = K_HELLO; e.what = "Hello"; s->rpc(e, "RemoteProxy.Hello", "{}"); break;
            case 1: e.kind = K_INTROSPECT; e.what = "Introspect"; s->rpc(e, "RemoteProxy.Introspect", "{}"); break;
            default: e.kind = K_PING; e.what = "Ping"; e.pingTs = std::to_string(r.below(2000000000)); s->rpc(e, "TunnelProxy.Ping", "{\"timestamp\":" + e.pingTs + "}");
            }
        }
        return true;
    }
    case O_RPC: {
        RpcPeer *p = new RpcPeer;
        tune(p);
        p->start(W->pickTransport(a, false), b, 1 + (int)(c % 6));
        tuneAfter(p);
        W->note("%s (%s) sends scripted requests", p->name.c_str(), trName(p->tr));
        return true;
    }
    case O_IDLE: {
        IdlePeer *p = new IdlePeer;
        Transport t = W->pickTransport(a, false);
        bool plain = W->ssl && t != TR_UNIX && b % 3 == 0;
        p->start(t, (int)(c % 3), plain);
        W->note("%s (%s%s) connects and does not register, mode %d", p->name.c_str(), trName(t), plain ? ", clear text" : "", p->mode);
        return true;
    }
    case O_CHAOS: {
        ChaosPeer *p = new ChaosPeer;
        p->start(W->pickTransport(a, false), b, (int)(c % 6));
        W->note("hostile %s (%s) mode %d", p->name.c_str(), trName(p->tr), p->mode);
        return true;
    }
    case O_MONITOR: {
        MonitorPeer *p = new MonitorPeer;
        tune(p);
        p->start();
        W->note("monitor %s connects", p->name.c_str());
        return true;
    }
    case O_REFRESH: case O_REFRESH_MANY: {
        MonitorPeer *p = pickIf<MonitorPeer>(W->monitors, a, [](MonitorPeer *m) { return m->isUp && !m->isDown && !m->selfEnded && m->epoch == W->epoch; });
        if (!p) return true;
        W->note("monitor %s refreshes", p->name.c_str());
        if (op.kind == O_REFRESH) p->refresh((int)(b % 3));
        else p->refreshMany(2 + (int)(b % 4), c);
        return true;
    }
    case O_MON_BAD: {
        MonitorPeer *p = new MonitorPeer;
        p->bad = true;
        p->start();
        Rng r;
        r.seed(b);
        std::string g;
        switch (r.below(7)) {
        case 0: for (int i = (int)r.logTime(1, 30000); i > 0; i--) g.push_back((char)r.next()); break;
        case 1: g = std::string((size_t)r.logTime(1, 40000), '{'); break;
        case 2: g = "{\"method\":\"nothing\"}\n"; break;
        case 3: g = "[]\n\n\n{}\n"; break;
        case 4: g = "{\"method\":\"refresh\",\"params\":7}\n}\n"; break;
        case 5: g = "{\"method\":\"refresh\"}{\"method\":\"refresh\"}\n"; break;
        default: for (int i = 0; i < 40; i++) g += "{\"method\":\"refresh\",\"params\":{\"printAll\":true}}\n";
        }
        W->note("hostile monitor %s sends %zu bytes", p->name.c_str(), g.size());
        S->count("probe.hostile_monitor");
        int how = (int)r.below(4);
        bool stop = r.chance(0.4);
        size_t cut = r.below(g.size() + 1);
        Time d = r.logTime(10 * US, 300 * MS), e = r.logTime(10 * US, 3 * SEC);
        if (stop) p->setPaused(true);
        S->after(MS, [=]() { p->put(g.substr(0, cut)); });
        S->after(MS + d, [=]() { p->put(g.substr(cut)); });
        S->after(MS + d + e, [=]() { if (how == 0) p->endGraceful(); else if (how == 1) p->endAbort(); else if (how == 2) p->endVanish(); });
        return true;
    }
    case O_MON_END: {
        MonitorPeer *p = pickIf<MonitorPeer>(W->monitors, a, [](MonitorPeer *m) { return !m->isDown && !m->selfEnded; });
        if (!p) return true;
        W->note("monitor %s ends", p->name.c_str());
        if (b & 1) p->endAbort(); else p->endGraceful();
        return true;
    }
    case O_CLOCK: {
        Rng r;
        r.seed(b);
        static const double span[] = {0.4, 2, 30, 3600, 86400 * 300.0};
        Time d = (Time)(span[r.below(5)] * (2 * r.unit() - 1) * 1e9);
        W->note("the proxy host's clock jumps by %.3f s", d / 1e9);
        S->count(d < 0 ? "fault.clock_jump_back" : "fault.clock_jump_forward");
        S->proxy->wallOffset += d;
        W->clockJumps = true;
        return true;
    }
    case O_FDLIMIT: {
        int left = (int)(b % 4);
        W->note("the proxy may open only %d more descriptors", left);
        S->proxy->fdLimit = W->proxyFds() + left;
        W->acceptFaults = true;
        S->count("fault.descriptor_limit");
        return true;
    }
    case O_FDFREE:
        W->note("descriptors are available again");
        S->proxy->fdLimit = 1 << 20;
        return true;
    case O_STOPPING: {
        RawServer *s = pickIf<RawServer>(W->rservers, a, [](RawServer *x) { return x->running() && x->pinging; });
        if (!s) return true;
        W->note("server %s sends nothing any more", s->name.c_str());
        s->pinging = false;
        return true;
    }
    case O_CHURN: {
        // many short lived clients of one server
        int n = 3 + (int)(b % 20);
        std::string su = anyServerUuid(a);
        Rng r;
        r.seed(c);
        W->note("%d short-lived clients for server %s", n, su.c_str());
        for (int i = 0; i < n; i++) {
            uint64_t rr = r.next();
            S->after(r.logTime(10 * US, SEC), [su, rr]() {
                if (W->quiescing) return;
                RawClient *x = newClient(su, W->newUuid(), rr);
                Rng q;
                q.seed(rr, 3);
                S->after(q.logTime(MS, 2 * SEC), [x, rr]() { if (x->canSend() && (rr & 64)) x->sendUp(1 + rr % 50); if (!x->selfEnded && !x->isDown) x->end((int)((rr >> 7) % 3 == 2)); });
            });
        }
        return true;
    }
    }
    return false;
}

// ------------------------------------------------------------- probes

// After faults have stopped: every server UUID must be usable, payload must flow.
struct ProbeState {
    int phase = 0;
    Time since = 0;
    struct P { std::string uuid; RawServer *s = nullptr; ServerSide *owner = nullptr; RawClient *c = nullptr; uint64_t up0 = 0, down0 = 0; bool sent = false; };
    std::vector<P> ps;
};
static ProbeState *g_probe;

bool probesDone()
{
    if (!W->proxyUp) return true;
    if (!g_probe) {
        g_probe = new ProbeState;
        g_probe->since = S->now;
        S->trace("---- probes");
        std::vector<std::string> us = W->serverUuids;
        std::sort(us.begin(), us.end());
        us.erase(std::unique(us.begin(), us.end()), us.end());
        // a UUID that a client holds is not free
        us.erase(std::remove_if(us.begin(), us.end(), [](const std::string &u) {
            for (const Reg &q : W->regs) if (!q.server && q.uuid == u && W->possiblyHeld(q, S->now)) return true;
            return false;
        }), us.end());
        Rng r;
        r.seed(W->seed, 4242);
        while (us.size() > 3) us.erase(us.begin() + r.below(us.size()));
        us.push_back(""); // a fresh one
        for (auto &u : us) {
            ProbeState::P p;
            p.uuid = u.empty() ? W->newUuid() : u;
            for (ServerSide *s : W->servers) if (s->uuid == p.uuid && s->linkAlive()) p.owner = s;
            if (!p.owner) {
                p.s = newServer(p.uuid, r.next());
                p.s->drip = 0;
                p.owner = p.s;
            }
            g_probe->ps.push_back(p);
        }
        return false;
    }
    bool all = true;
    for (auto &p : g_probe->ps) {
        if (!p.owner->running()) { all = false; continue; }
        if (!p.c) {
            Rng r;
            r.seed(W->seed, 99 + (&p - &g_probe->ps[0]));
            p.c = newClient(p.uuid, W->newUuid(), r.next());
            all = false;
            continue;
        }
        Tunnel *t = p.c->t;
        if (!p.c->canSend() || !t->announced) { all = false; continue; }
        if (!p.sent) {
            p.sent = true;
            p.c->sendUp(100);
            p.owner->sendDown(t, 100, 1);
            all = false;
            continue;
        }
        if (t->upRecv != t->upSent || t->downRecv != t->downSent) all = false;
    }
    if (all) return true;
    if (S->now - g_probe->since > 30 * SEC) {
        for (auto &p : g_probe->ps) {
            const char *what = nullptr;
            if (!p.owner->running()) what = p.s && p.s->rejected ? "was refused registration under its free UUID" : p.s && p.s->isDown ? "was disconnected" : "cannot register";
            else if (!p.c || !p.c->canSend()) what = p.c && p.c->rejected ? "cannot get a client: it was refused" : "cannot get a client";
            else if (!p.c->t->announced) what = "was not told about its client";
            else if (p.c->t->upRecv != p.c->t->upSent || p.c->t->downRecv != p.c->t->downSent) what = "does not exchange payload with its client";
            if (what) {
                char b[300];
                snprintf(b, sizeof b, "after all faults: server %s (%s%s) %s (client %s)", p.uuid.c_str(), p.s ? "new, " : "still connected", p.s ? trName(p.s->tr) : "", what, p.c ? trName(p.c->tr) : "-");
                S->violation("probe", b);
            }
        }
        return true;
    }
    return false;
}

// ------------------------------------------------------------- profiles

static Time g_end;

static void abstractState()
{
    // a coarse picture of the whole system, for measuring reach
    static Time last = -1;
    if (S->now == last) return;
    last = S->now;
    int srv = 0, cli = 0, pend = 0, paused = 0, ended = 0, addr = 0, q = 0;
    for (RawServer *s : W->rservers) { if (s->running()) srv++; if (s->selfEnded && s->proxyHolds()) ended++; addr += (int)s->addrs.size(); }
    for (RawClient *c : W->rclients) { if (c->canSend()) cli++; if (c->regPending) pend++; if (c->selfEnded && c->proxyHolds()) ended++; }
    for (Peer *p : W->peers) if (p->paused) paused++;
    for (Tunnel *t : W->tunnels) if (t->upSent > t->upRecv || t->downSent > t->downRecv) q++;
    char b[100];
    snprintf(b, sizeof b, "%d.%d.%d.%d.%d.%d.%d.%d.%d", srv, cli, pend, paused, ended, addr, std::min(q, 5), W->proxyFds(), S->proxy->blocked);
    W->state(b);
}

static void schedState() { abstractState(); S->after(37 * MS, schedState); }

void go(std::vector<Op> ops, Time end)
{
    g_end = end;
    W->exec = [](const Op &op) { S->count("ops"); execCommon(op); };
    S->after(MS, schedState);
    W->run(ops, end);
}

static void profileTunnel(bool wsServers)
{
    g_wsServers = wsServers;
    basicSetup(wsServers ? 0 : 0.22);
    int n = W->knobi("nOps", 8, 70);
    Time end = (Time)(W->knob("spanS", 0.3, 1) * (W->coin("long", 0.3) ? 120 : 12) * SEC);
    bool faults = W->coin("faults", 0.75);
    std::vector<Gen> mix = {{O_SERVER, 2}, {O_CLIENT, 6}, {O_UP, 12}, {O_DOWN, 12}, {O_BURST, 6}, {O_CLIENT_END, 4}, {O_CLIENT_RECONN, 3}, {O_SERVER_DUP, 1}, {O_CLIENT_DUP, 1.5},
                            {O_CLIENT_CROSS, 0.7}, {O_CLIENT_NOSRV, 0.7}, {O_DISC, 2.5}, {O_DISC_NONE, 1.5}, {O_BADFRAME, 3}, {O_SRV_RPC, 1.5}, {O_CHURN, 0.6}, {O_SERVER_RECONN, 1.5}, {O_SERVER_END, 0.7}};
    if (faults) {
        std::vector<Gen> f = {{O_PAUSE, 2}, {O_RESUME, 2}, {O_BLOCK, 2}, {O_BLOCK_PROXY, 0.4}, {O_STALL, 1}, {O_RST, 1}, {O_REREG, 0.5}, {O_FLOOD, 0.7}};
        mix.insert(mix.end(), f.begin(), f.end());
    }
    if (wsServers) mix = {{O_CLIENT, 2}, {O_UP, 5}, {O_DOWN, 5}};
    std::vector<Op> ops = genOps(mix, n, 200 * MS, end);
    addInitial(ops, W->knobi("servers", 1, 3), W->knobi("clients", 1, 5), 200 * MS);
    go(ops, end + SEC);
}

static void profileRpc()
{
    basicSetup(0.2);
    S->net.shortRead *= 2;
    Time end = (Time)(W->knob("spanS", 0.5, 6) * SEC);
    std::vector<Gen> mix = {{O_RPC, 10}, {O_SRV_RPC, 4}, {O_CLIENT, 1}, {O_UP, 1}, {O_CLIENT_DUP, 0.4}, {O_STALL, 0.5}, {O_PAUSE, 0.3}, {O_RESUME, 0.3}, {O_DISC, 0.4}};
    std::vector<Op> ops = genOps(mix, W->knobi("nOps", 6, 40), 100 * MS, end);
    addInitial(ops, W->knobi("servers", 1, 2), W->knobi("clients", 0, 2), 100 * MS);
    go(ops, end + SEC);
}

static void profileTimeouts()
{
    basicSetup(0.5);
    Time end = (Time)(W->knob("spanS", 20, 240) * SEC);
    std::vector<Gen> mix = {{O_IDLE, 8}, {O_SERVER, 2}, {O_CLIENT, 3}, {O_STOPPING, 3}, {O_SERVER_END, 2}, {O_CLIENT_END, 1}, {O_UP, 3}, {O_DOWN, 3}, {O_CLOCK, 1.5}, {O_STALL, 0.7},
                            {O_BLOCK, 1.5}, {O_RPC, 1}, {O_PAUSE, 0.5}, {O_RESUME, 0.5}, {O_SERVER_RECONN, 0.7}, {O_SRV_RPC, 0.5}};
    std::vector<Op> ops = genOps(mix, W->knobi("nOps", 6, 40), 100 * MS, end);
    addInitial(ops, W->knobi("servers", 1, 4), W->knobi("clients", 1, 4), 100 * MS);
    go(ops, end + 70 * SEC);
}

static void profileChaos()
{
    basicSetup(0.25);
    Time end = (Time)(W->knob("spanS", 1, 20) * SEC);
    std::vector<Gen> mix = {{O_CHAOS, 14}, {O_UP, 5}, {O_DOWN, 5}, {O_CLIENT, 3}, {O_SERVER, 1}, {O_CLIENT_END, 2}, {O_SERVER_RECONN, 1}, {O_RPC, 2}, {O_IDLE, 1}, {O_MONITOR, 0.7}, {O_REFRESH, 1},
                            {O_MON_END, 0.5}, {O_RST, 2}, {O_PAUSE, 0.7}, {O_RESUME, 0.7}, {O_REREG, 0.7}, {O_BADFRAME, 1}, {O_DISC, 1}, {O_CLIENT_DUP, 0.6}, {O_CLIENT_CROSS, 0.5}, {O_CHURN, 0.5}, {O_STALL, 0.4}};
    std::vector<Op> ops = genOps(mix, W->knobi("nOps", 8, 60), 100 * MS, end);
    addInitial(ops, W->knobi("servers", 1, 3), W->knobi("clients", 1, 4), 100 * MS);
    go(ops, end + SEC);
}

void preloadProfiles() {}

void setupProfile(const std::string &p)
{
    if (p == "tunnel") profileTunnel(false);
    else if (p == "wsserver") profileTunnel(true);
    else if (p == "rpc") profileRpc();
    else if (p == "timeouts") profileTimeouts();
    else if (p == "chaos") profileChaos();
    else if (p == "addr" || p == "churn" || p == "monitor" || p == "engine" || p == "tlsgate" || p == "release" || p == "signal") setupEngine(p);
    else if (p == "config") setupConfig();
    else if (p == "fakeproxy") setupFakeProxy();
    else if (p == "moncli") setupMonTool();
    else if (p == "lib" || p == "keepalive") setupLib(p);
    else { fprintf(stderr, "unknown profile %s\n", p.c_str()); _exit(3); }
}

} // namespace sim
