// Workloads around the engine: address space, monitor, stop and start, TLS
// gate, release of resources, termination.
#include "profiles.h"
#include "engine.h"
#include "heap.h"
#include "servermain.h"
#include <signal.h>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <algorithm>
#include <sys/time.h>
#include <unistd.h>

using namespace remoteproxy;

namespace sim {

// ------------------------------------------------------------- address space

// A client reduced to what it takes to use up an address.
struct LightClient : ClientSide {
    Stream *st = nullptr;
    std::string jbuf;
    bool ok = false, ended = false, gone = false;
    Time dwell = -1;
    size_t say = 0;
    bool abrupt = false, early = false;
    int idx = 0;
    bool canSend() const override { return ok && !ended && !gone; }
    bool raw() const override { return true; }
    void sendUp(size_t n) override
    {
        std::string d = upData(t, t->upSent, n);
        t->upSent += n;
        st->send(d);
    }
    void end(int how) override
    {
        if (ended || gone) return;
        ended = true;
        t->clientEnding = true;
        t->downSentAtClose = t->downSent;
        if (how == 0) {
            t->closedGracefully = true;
            t->crossing = t->downRecv != t->downSent;
            st->close();
        } else st->abort();
    }
    void start(Node *n, Transport tr, const std::string &su)
    {
        cnode = n;
        t = W->newTunnel(su, W->newUuid(), n, tr);
        t->client = this;
        st = makeStream(tr, n, W->tg);
        st->onUp = [this]() {
            t->conn = st->conn();
            t->epoch = W->epoch;
            st->send("{\"id\":1,\"method\":\"TunnelProxy.RegisterClient\",\"params\":{\"clientName\":" + jsonStr(t->name) + ",\"clientUuid\":" + jsonStr(t->cuuid) + ",\"serverUuid\":" + jsonStr(t->suuid) + "}}\n");
            if (early) end(1);
        };
        st->onData = [this](const std::string &d) {
            size_t i = 0;
            while (i < d.size() && !ok) {
                char c = d[i++];
                if (c != '\n') { jbuf.push_back(c); continue; }
                if (jbuf.find("NoError") == std::string::npos) {
                    S->violation("reg.wrong_result", "a new client of the connected server " + t->suuid + " was answered " + jbuf.substr(0, 150));
                    return;
                }
                ok = true;
                t->regOk = true;
                t->regAt = S->now;
                if (say) sendUp(say);
                if (dwell >= 0) S->after(dwell, [this]() { if (!gone) end(abrupt ? 1 : 0); });
            }
            if (i < d.size()) gotDown(d.substr(i));
        };
        st->onDown = [this](DownKind k) {
            gone = true;
            bool ours = t->clientEnding || t->discRequested || !ok;
            t->clientEnding = true;
            if (k == DK_REFUSED) return;
            if (!ours && t->server && t->server->linkAlive()) S->violation("drop.client", "light client " + t->name + " was disconnected without cause");
        };
        st->open();
    }
};

static std::vector<LightClient *> g_light;

// forget the clients that have come and gone
static void reap()
{
    size_t k = 0;
    std::set<Tunnel *> dead;
    for (LightClient *c : g_light) {
        bool done = (c->ended || c->gone) && c->t->withdrawn && c->st->conn() && c->st->conn()->ep[0].closed && c->st->conn()->ep[1].closed;
        if (!done) { g_light[k++] = c; continue; }
        W->byName.erase(c->t->name);
        dead.insert(c->t);
    }
    g_light.resize(k);
    if (dead.empty()) return;
    W->tunnels.erase(std::remove_if(W->tunnels.begin(), W->tunnels.end(), [&](Tunnel *t) { return dead.count(t) > 0; }), W->tunnels.end());
    W->clients.erase(std::remove_if(W->clients.begin(), W->clients.end(), [&](ClientSide *c) { return dead.count(c->t) > 0; }), W->clients.end());
}

// wrap: some runs use up the whole address range
static void profileAddr(bool wrap)
{
    basicSetup(0);
    int kind = W->knobi("size", 0, wrap ? 9 : 5);
    // 0..5 past 256 and 512, 6..7 thousands, 8..9 all addresses
    int total = kind < 6 ? W->knobi("n_small", 150, 900) : kind < 8 ? W->knobi("n_mid", 900, 5000) : W->knobi("n_wrap", 65700, 66200);
    if (kind >= 6) {
        S->sched.costMax = std::min<Time>(S->sched.costMax, 6 * US);
        S->sched.slowProb = 0;
        S->net.jitter = std::min(S->net.jitter, 0.02);
        S->net.latMax = std::min<Time>(S->net.latMax, 2 * MS);
        S->maxSteps = 40000000;
        S->cpuTicks = 20;
    }
    Time dt = kind < 6 ? W->rKnob.logTime(300 * US, 20 * MS) : 400 * US;
    W->drawn["dt_us"] = dt / 1000.0;
    int block = W->coin("block", kind >= 8 ? 0.8 : 0.5) ? W->knobi("blockSize", 20, kind >= 8 ? 700 : 260) : 0;
    double persist = W->knob("persist", 0, kind < 6 ? 0.15 : kind < 8 ? 0.02 : 0.001);
    double tcp = kind < 6 ? W->knob("tcpP", 0, 0.6) : 0.0;
    Time span = 500 * MS + dt * total;
    std::vector<Gen> mix = {{O_CLIENT, 6}, {O_UP, 12}, {O_DOWN, 12}, {O_BURST, 6}, {O_CLIENT_END, 3}, {O_CLIENT_RECONN, 1}, {O_DISC, 1.5}, {O_DISC_NONE, 0.5}};
    std::vector<Op> ops = genOps(mix, W->knobi("nOps", 10, 60), 250 * MS, span + SEC);
    addInitial(ops, W->knobi("servers", 1, kind < 6 ? 2 : 1), W->knobi("clients", 1, 4), 200 * MS);
    Node *ln = W->newNode("light");
    std::shared_ptr<Rng> r(new Rng);
    r->seed(W->seed, 31);
    std::shared_ptr<int> made(new int(0));
    std::shared_ptr<std::function<void()>> next(new std::function<void()>);
    *next = [=]() {
        if (W->quiescing || *made >= total) return;
        int k = (*made)++;
        S->after(dt, *next);
        if (k % 64 == 0) reap();
        std::vector<std::string> su;
        for (ServerSide *s : W->servers) if (s->linkAlive() && W->rservers.size()) su.push_back(s->uuid);
        if (su.empty()) return;
        LightClient *c = new LightClient;
        bool stay = k < block || r->chance(persist);
        c->dwell = stay ? -1 : r->chance(0.7) ? 0 : r->logTime(10 * US, kind < 6 ? SEC : 30 * MS);
        c->say = r->chance(0.1) || stay ? (size_t)r->range(1, 60) : 0;
        c->abrupt = r->chance(0.2);
        c->early = !stay && r->chance(0.01);
        c->start(ln, r->chance(tcp) ? TR_TCP : TR_UNIX, k < block ? su[0] : su[r->below(su.size())]);
        W->clients.push_back(c);
        g_light.push_back(c);
        S->count("work.light_clients");
    };
    S->after(210 * MS, *next);
    W->quietSpan = 5 * SEC;
    std::function<void()> fin = W->finalChecks;
    W->finalChecks = [fin]() {
        reap();
        fin();
    };
    go(ops, span + 2 * SEC);
    // everybody who is left gets and sends something at the end
    S->at(span + 1500 * MS, []() {
        for (Tunnel *t : upTunnels()) sendTo(t, 0, 20, 1);
        for (Tunnel *t : downTunnels()) if (t->client && t->client->canSend()) sendTo(t, 1, 20, 1);
    });
}

// ------------------------------------------------------------- monitor

static std::string addrOf(const Peer *p) { return p->tr == TR_UNIX ? "127.0.0.1" : ipStr(p->node->ip); }
static std::string str(const QVariant &v) { return v.toString().toStdString(); }

static bool connFine(Conn *c)
{
    return c && c->state == 1 && !c->ep[1].closed && !c->ep[1].rxFin && !c->ep[1].reset && !c->ep[0].closed;
}

static std::map<std::pair<int, std::string>, std::pair<double, double>> g_counts; // monitor, connection id -> rx, tx

static void checkCounters(MonitorPeer *m, const QVariantMap &e, Peer *p)
{
    double rx = e.value("rxDataCount").toDouble(), tx = e.value("txDataCount").toDouble();
    auto &old = g_counts[{m->id, str(e.value("id"))}];
    if (rx < old.first || tx < old.second) S->violation("monitor.counters", m->name + ": counters of " + str(e.value("name")) + " ran backwards");
    old = {rx, tx};
    if (p && rx > (double)p->appSent) {
        char b[200];
        snprintf(b, sizeof b, "%s: %s %s is said to have sent %.0f bytes, it has sent %llu", m->name.c_str(), p->kindName(), p->name.c_str(), rx, (unsigned long long)p->appSent);
        S->violation("monitor.counters", b);
    }
}

// What every answer must satisfy, also in the middle of everything.
static void monitorAnswer(MonitorPeer *m, const MonitorReq &q, const QVariantMap &doc)
{
    if (m->epoch != W->epoch || !W->proxyUp) return;
    QVariantMap st = doc.value("tunnelProxyStatistic").toMap();
    std::set<std::string> srvListed, cliListed;
    int sum = 0;
    QVariantMap tr = st.value("transports").toMap();
    for (const QVariant &v : tr) sum += v.toInt();
    if (tr.size() != 3 || sum != st.value("totalClientCount").toInt())
        S->violation("monitor.inconsistent", m->name + ": " + std::to_string(st.value("totalClientCount").toInt()) + " connections in total, " + std::to_string(sum) + " over all transports");
    for (const QVariant &v : st.value("tunnelConnections").toList()) {
        QVariantMap s = v.toMap();
        std::string u = normUuid(str(s.value("serverUuid")));
        if (!srvListed.insert(u).second) S->violation("monitor.list", m->name + ": server " + u + " listed twice");
        bool known = false, named = false;
        Peer *sp = nullptr;
        int cand = 0;
        for (const Reg &r : W->regs)
            if (r.server && r.uuid == u && W->possiblyHeld(r, q.t)) {
                known = true;
                cand++;
                sp = r.p;
                RawServer *rs = dynamic_cast<RawServer *>(r.p);
                if (rs && str(s.value("name")) == r.name && str(s.value("address")) == addrOf(rs)) named = true;
            }
        if (!known) S->violation("monitor.list", m->name + ": lists server " + u + ", which is not connected");
        else if (!named) S->violation("monitor.list", m->name + ": server " + u + " listed as \"" + str(s.value("name")) + "\" at " + str(s.value("address")));
        checkCounters(m, s, cand == 1 ? sp : nullptr);
        for (const QVariant &cv : s.value("clientConnections").toList()) {
            QVariantMap c = cv.toMap();
            std::string cu = normUuid(str(c.value("clientUuid")));
            if (!cliListed.insert(cu + u).second) S->violation("monitor.list", m->name + ": client " + cu + " listed twice");
            known = named = false;
            cand = 0;
            Peer *cp = nullptr;
            for (const Reg &r : W->regs)
                if (!r.server && r.uuid == cu && r.srv == u && W->possiblyHeld(r, q.t)) {
                    known = true;
                    cand++;
                    cp = r.p;
                    RawClient *rc = dynamic_cast<RawClient *>(r.p);
                    if (rc && str(c.value("name")) == rc->t->name && str(c.value("address")) == addrOf(rc)) named = true;
                }
            if (!known) S->violation("monitor.list", m->name + ": lists client " + cu + " of server " + u + ", which is not connected");
            else if (!named) S->violation("monitor.list", m->name + ": client " + cu + " listed as \"" + str(c.value("name")) + "\" at " + str(c.value("address")));
            checkCounters(m, c, cand == 1 ? cp : nullptr);
        }
    }
    for (RawServer *s : W->rservers) {
        if (!s->registered || s->regIdx < 0 || !W->definitelyHeld(W->regs[s->regIdx], q.t) || !connFine(s->conn()) || s->epoch != W->epoch) continue;
        bool has = false;
        for (auto &a : s->addrs) {
            Tunnel *t = a.second;
            if (t->announcedAt > q.t || t->serverConn != s->conn() || !connFine(t->conn) || t->clientEnding || t->discRequested) continue;
            has = true;
            if (!cliListed.count(t->cuuid + s->uuid)) S->violation("monitor.list", m->name + ": client " + t->name + " of server " + s->uuid + " is connected and not listed");
        }
        if ((q.printAll || has) && !srvListed.count(s->uuid)) S->violation("monitor.list", m->name + ": server " + s->uuid + " is connected and not listed");
    }
}

// The exact comparison; the text says what differs.
static std::string compareMonitor(const QVariantMap &doc)
{
    QVariantMap st = doc.value("tunnelProxyStatistic").toMap();
    std::map<std::string, int> tr = {{"TCP", 0}, {"WebSocket", 0}, {"unix", 0}};
    int ns = 0, nc = 0, nsMore = 0, ncMore = 0; // More: registered or not, the answer never arrived
    std::map<std::string, QVariantMap> entries;
    std::map<std::string, std::string> under;
    for (const QVariant &v : st.value("tunnelConnections").toList()) {
        QVariantMap s = v.toMap();
        entries["s" + normUuid(str(s.value("serverUuid")))] = s;
        for (const QVariant &cv : s.value("clientConnections").toList()) {
            QVariantMap c = cv.toMap();
            std::string k = "c" + normUuid(str(c.value("clientUuid")));
            entries[k] = c;
            under[k] = normUuid(str(s.value("serverUuid")));
        }
    }
    char b[300];
    for (Peer *p : W->peers) {
        if (!p->proxyHolds() || p->epoch != W->epoch || dynamic_cast<MonitorPeer *>(p)) continue;
        tr[trIsWs(p->tr) ? "WebSocket" : p->tr == TR_UNIX ? "unix" : "TCP"]++;
        RawServer *s = dynamic_cast<RawServer *>(p);
        RawClient *c = dynamic_cast<RawClient *>(p);
        if (s && s->registered) ns++;
        if (c && c->t->regOk) nc++;
        if (s && !s->registered && s->regPending) nsMore++;
        if (c && !c->t->regOk && c->regPending) ncMore++;
        if (!p->linkAlive() || (!s && !c) || !p->registered) continue;
        std::string key = s ? "s" + s->uuid : "c" + c->t->cuuid;
        auto it = entries.find(key);
        if (it == entries.end()) return p->name + " is connected and not listed";
        if (c && under[key] != c->t->suuid) return "client " + p->name + " is listed under server " + under[key] + " instead of " + c->t->suuid;
        double rx = it->second.value("rxDataCount").toDouble(), tx = it->second.value("txDataCount").toDouble();
        if (rx != (double)p->appSent || tx != (double)p->appRecv) {
            snprintf(b, sizeof b, "%s %s (%s) sent %llu bytes and got %llu, the monitor says %.0f and %.0f", p->kindName(), p->name.c_str(), trName(p->tr), (unsigned long long)p->appSent, (unsigned long long)p->appRecv, rx, tx);
            return b;
        }
    }
    for (auto &t : tr)
        if (st.value("transports").toMap().value(QString::fromStdString(t.first)).toInt() != t.second) {
            snprintf(b, sizeof b, "%d connections on %s, the monitor says %d", t.second, t.first.c_str(), st.value("transports").toMap().value(QString::fromStdString(t.first)).toInt());
            return b;
        }
    int sc = st.value("serverConnectionsCount").toInt(), cc = st.value("clientConnectionsCount").toInt();
    if (sc < ns || sc > ns + nsMore || cc < nc || cc > nc + ncMore || st.value("totalClientCount").toInt() != tr["TCP"] + tr["unix"] + tr["WebSocket"]) {
        snprintf(b, sizeof b, "%d servers, %d clients, %d connections, the monitor says %d, %d, %d", ns, nc, tr["TCP"] + tr["unix"] + tr["WebSocket"], st.value("serverConnectionsCount").toInt(), st.value("clientConnectionsCount").toInt(), st.value("totalClientCount").toInt());
        return b;
    }
    for (auto &e : entries) {
        bool known = false;
        for (Peer *p : W->peers) {
            RawServer *s = dynamic_cast<RawServer *>(p);
            RawClient *c = dynamic_cast<RawClient *>(p);
            if (p->proxyHolds() && ((s && e.first == "s" + s->uuid) || (c && e.first == "c" + c->t->cuuid))) known = true;
        }
        if (!known) return "lists " + e.first + ", which nobody is";
    }
    if (st.value("troughput").toInt() != 0) {
        snprintf(b, sizeof b, "throughput %d while nothing moves", st.value("troughput").toInt());
        return b;
    }
    return "";
}

struct MonFinal {
    int phase = 0, tries = 0, polls = 0;
    Time since = 0;
    uint64_t answers = 0;
    MonitorPeer *m = nullptr;
    Tunnel *t = nullptr;
    Time every = 0, start = 0, end = 0;
    size_t chunk = 0;
    int dir = 0;
    int samples = 0;
    double sum = 0;
    std::string last;
};
static MonFinal *g_mf;

static void steadySend()
{
    if (S->now >= g_mf->end) return;
    if (g_mf->dir != 1) sendTo(g_mf->t, 0, g_mf->chunk, 0);
    if (g_mf->dir != 0) sendTo(g_mf->t, 1, g_mf->chunk, 0);
    S->after(g_mf->every, steadySend);
}

static bool monitorDone()
{
    if (!g_mf) {
        if (!probesDone()) return false;
        g_mf = new MonFinal;
        g_mf->m = new MonitorPeer;
        g_mf->m->start();
        g_mf->since = S->now;
        S->net.jitter = 0;
        S->net.coalesce = 0;
        S->net.latMax = std::min<Time>(S->net.latMax, 5 * MS);
        S->net.shortWrite = S->net.shortRead = S->net.eintr = S->net.spuriousAgain = 0;
        S->sched.coarse = 0;
        S->sched.slowProb = 0;
        return false;
    }
    MonFinal &f = *g_mf;
    auto gone = [&]() {
        if (S->now - f.since < 20 * SEC) return false;
        S->violation("monitor.no_answer", "a new monitor gets no answer (phase " + std::to_string(f.phase) + ")");
        return true;
    };
    if (!f.m->isUp || f.m->isDown) return gone();
    switch (f.phase) {
    case 0: // steady traffic
        for (ServerSide *s : W->servers) if (s->linkAlive()) for (auto &a : s->addrs) if (a.second->client && a.second->client->canSend() && connFine(a.second->conn)) f.t = a.second;
        if (!f.t) { f.phase = 2; f.since = S->now; return false; }
        {
            Rng r;
            r.seed(W->seed, 515);
            f.every = r.logTime(5 * MS, 90 * MS);
            f.chunk = (size_t)r.range(1, 300) * 4;
            f.dir = (int)r.below(3);
            f.start = S->now;
            f.end = S->now + 6 * SEC;
            if (W->clockJumps) S->after(r.range(MS, 5 * SEC), []() { S->proxy->wallOffset += W->rPay.chance(0.5) ? -1700 * MS : 40 * MS; });
        }
        steadySend();
        f.phase = 1;
        f.since = S->now;
        return false;
    case 1:
        if (f.answers != f.m->answers) {
            f.answers = f.m->answers;
            f.since = S->now;
            if (f.m->lastAt - f.start > 2500 * MS && f.m->lastAt < f.end) {
                double rate = (double)f.chunk * (f.dir == 2 ? 2 : 1) * (1e9 / (double)f.every), v = f.m->last.value("tunnelProxyStatistic").toMap().value("troughput").toDouble();
                double tol = 2.0 * (double)f.chunk * (f.dir == 2 ? 2 : 1);
                S->count("probe.throughput_checked");
                f.samples++;
                f.sum += v;
                if (v < rate * 0.7 - tol || v > rate * 1.4 + tol) { // one second may hold a little of another
                    char b[200];
                    snprintf(b, sizeof b, "throughput %.0f while %.0f bytes per second pass steadily for %.1f s", v, rate, (S->now - f.start) / 1e9);
                    S->violation("monitor.throughput", b);
                }
            }
        }
        if (f.m->reqs.empty()) f.m->refresh(1);
        if (S->now > f.end + 2500 * MS) {
            double rate = (double)f.chunk * (f.dir == 2 ? 2 : 1) * (1e9 / (double)f.every), tol = (double)f.chunk * (f.dir == 2 ? 2 : 1), v = f.samples ? f.sum / f.samples : 0;
            if (f.samples >= 5 && (v < rate * 0.88 - tol || v > rate * 1.12 + tol)) {
                char b[200];
                snprintf(b, sizeof b, "throughput %.0f on average of %d answers while %.0f bytes per second pass steadily", v, f.samples, rate);
                S->violation("monitor.throughput", b);
            }
            f.phase = 2; f.tries = 0; f.since = S->now;
        }
        return gone();
    case 2: // exact numbers
        if (!f.m->reqs.empty()) return gone();
        if (f.polls++ && f.answers != f.m->answers) {
            f.last = compareMonitor(f.m->last);
            S->count("probe.monitor_compared");
            if (f.last.empty()) return true;
            if (++f.tries >= 12) {
                S->violation(f.last.find("throughput") == 0 ? "monitor.throughput" : f.last.find("bytes") != std::string::npos ? "monitor.counters" : "monitor.numbers", "everything is quiet: " + f.last);
                return true;
            }
        }
        f.answers = f.m->answers;
        f.since = S->now;
        f.m->refresh(2);
        return false;
    }
    return true;
}

static void profileMonitor()
{
    basicSetup(0.3);
    W->onMonitorAnswer = monitorAnswer;
    Time end = (Time)(W->knob("spanS", 0.5, 30) * SEC);
    std::vector<Gen> mix = {{O_MONITOR, 2}, {O_REFRESH, 8}, {O_REFRESH_MANY, 4}, {O_MON_END, 1}, {O_MON_BAD, 1.5}, {O_CLIENT, 4}, {O_UP, 6}, {O_DOWN, 6}, {O_BURST, 3}, {O_SERVER, 1.5}, {O_SERVER_END, 0.7},
                            {O_SERVER_RECONN, 0.7}, {O_CLIENT_END, 3}, {O_CLIENT_RECONN, 1}, {O_CLIENT_DUP, 0.5}, {O_CLIENT_NOSRV, 0.5}, {O_DISC, 1}, {O_CHURN, 0.5}, {O_CLOCK, 1}, {O_PAUSE, 1}, {O_RESUME, 1}, {O_STALL, 0.5}, {O_BLOCK, 0.5}, {O_RPC, 0.5}, {O_IDLE, 0.7}, {O_BADFRAME, 0.5}};
    std::vector<Op> ops = genOps(mix, W->knobi("nOps", 10, 70), 100 * MS, end);
    addInitial(ops, W->knobi("servers", 1, 4), W->knobi("clients", 1, 5), 100 * MS);
    Op m;
    m.t = 20 * MS;
    m.kind = O_MONITOR;
    ops.insert(ops.begin(), m);
    W->finalReady = monitorDone;
    go(ops, end + SEC);
}


// ------------------------------------------------------------- stop and start

struct EngineCtl {
    int gen = 0;                 // counts every start and stop
    bool everUp = false;
    File *blockTcp = nullptr, *blockWs = nullptr;
    Node *blocker = nullptr;
    bool monitorOk = true;
    bool lastSignal = false;
    int starts = 0;
    bool clean = true;           // the configuration has no obstacle
    int phase = 0;
    Time since = 0;
};
static EngineCtl *g_ec;

static File *block(uint16_t port)
{
    NodeScope sc(g_ec->blocker);
    if (S->findListener(g_ec->blocker->ip, port)) return nullptr;
    int fd = S->k_socket(AF_INET, SOCK_STREAM);
    File *f = S->files[(size_t)fd];
    struct sockaddr_in a;
    memset(&a, 0, sizeof a);
    a.sin_family = AF_INET;
    a.sin_port = htons(port);
    a.sin_addr.s_addr = htonl(g_ec->blocker->ip);
    if (S->k_bind(f, &a, sizeof a) != 0) { S->k_close(f); return nullptr; }
    S->k_listen(f, 5);
    S->count("fault.port_taken");
    return f;
}

// a configuration; obstacles only when asked for
static void drawConfig(uint64_t rnd, bool obstacles)
{
    Rng r;
    r.seed(rnd, 77);
    EngineCtl &e = *g_ec;
    for (File **f : {&e.blockTcp, &e.blockWs})
        if (*f) { NodeScope sc(e.blocker); S->k_close(*f); *f = nullptr; }
    if (r.chance(0.25)) W->ssl = !W->ssl;
    W->inactiveMs = (int)r.range(5000, 14000);
    W->tg.tcpPort = r.chance(0.8) ? 2213 : 3213;
    W->tg.wsPort = r.chance(0.8) ? 2212 : 3212;
    W->tg.unixPath = W->dir + (r.chance(0.8) ? "/px.sock" : "/px2.sock");
    W->monitorPath = W->dir + (r.chance(0.8) ? "/mon.sock" : "/mon2.sock");
    W->transports = 7;
    e.monitorOk = true;
    e.clean = true;
    if (!obstacles || r.chance(0.6)) return;
    e.clean = false;
    std::string what;
    if (r.chance(0.3)) { W->transports &= ~1; what += " TCP port taken"; }
    if (r.chance(0.3)) { W->transports &= ~2; what += " WebSocket port taken"; }
    if (r.chance(0.3)) { W->transports &= ~4; W->tg.unixPath = W->dir + "/nodir/px.sock"; what += " unix path invalid"; S->count("fault.bad_socket_path"); }
    if (r.chance(0.2)) { e.monitorOk = false; W->monitorPath = W->dir + "/nodir/mon.sock"; what += " monitor path invalid"; S->count("fault.bad_socket_path"); }
    if (!(W->transports & 5)) { W->transports |= 4; W->tg.unixPath = W->dir + "/px.sock"; what += " (not)"; } // servers need one of them
    W->note("next configuration:%s", what.c_str());
}

static void blockPorts()
{
    if (!(W->transports & 1) && !g_ec->blockTcp) g_ec->blockTcp = block(W->tg.tcpPort);
    if (!(W->transports & 2) && !g_ec->blockWs) g_ec->blockWs = block(W->tg.wsPort);
}

// Some time after the last start or stop the engine must be what it was told to be.
static void checkEngine(int gen)
{
    if (gen != g_ec->gen || S->proxy->stalledUntil > S->now) return;
    Engine *e = Engine::exists() ? Engine::instance() : nullptr;
    bool run = e && e->running();
    S->count("probe.engine_state");
    if (run != W->proxyUp) S->violation("engine.state", std::string("the engine was ") + (W->proxyUp ? "started" : "stopped") + " and says it is " + (run ? "running" : "not running"));
    if (run && e->tunnelProxyServer() && !e->tunnelProxyServer()->running()) S->violation("engine.state", "the engine runs, its tunnel proxy does not");
    if (!W->proxyUp) {
        int n = S->openFds(S->proxy);
        if (n) S->violation("stop.leftover", std::to_string(n) + " descriptors are open after the engine has been stopped");
    } else {
        struct { int bit; bool is; const char *name; } ls[] = {{1, S->findListener(S->proxy->ip, W->tg.tcpPort) != nullptr, "TCP"}, {2, S->findListener(S->proxy->ip, W->tg.wsPort) != nullptr, "WebSocket"}, {4, S->findUnix(W->tg.unixPath) != nullptr, "unix"}};
        for (auto &l : ls)
            if ((W->transports & l.bit) && !l.is) S->violation("start.endpoint", std::string("the ") + l.name + " endpoint is not there after a start");
        if (g_ec->monitorOk && !S->findUnix(W->monitorPath)) S->violation("start.endpoint", "the monitor endpoint is not there after a start");
    }
    // nothing of an earlier life may still be connected
    for (Peer *p : W->peers) {
        Conn *c = p->conn();
        if ((p->epoch != W->epoch || !W->proxyUp) && c && c->state == 1 && c->acceptedAt >= 0 && !c->ep[1].closed && c->ep[1].node == S->proxy && c->acceptedAt < W->proxyChangedAt)
            S->violation("stop.leftover", p->name + " (" + trName(p->tr) + ") is still connected to an engine that was stopped");
    }
}

static void changed()
{
    int g = ++g_ec->gen;
    S->after(2 * SEC + W->slack(), [g]() { checkEngine(g); });
}

static void engStart(uint64_t rnd, bool obstacles)
{
    drawConfig(rnd, obstacles);
    // what runs already is not in the way of itself, so take ports only when they are free
    bool up = W->proxyUp;
    if (up && W->transports != 7) {
        // the engine frees its ports while it starts again: nobody else can take them
        if (!(W->transports & 4)) W->transports = 3;
        else W->transports = 7;
    }
    blockPorts();
    W->note("the engine starts%s%s, TCP %d WebSocket %d", up ? " again" : "", W->ssl ? " with TLS" : "", W->tg.tcpPort, W->tg.wsPort);
    S->count(up ? "fault.engine_start_while_running" : "probe.engine_start");
    W->startEngine(W->epoch % 2 ? "proxy2.conf" : "proxy.conf");
    changed();
}

static void engStop()
{
    if (!Engine::exists()) return;
    W->note("the engine stops");
    S->count("fault.engine_stop");
    {
        NodeScope sc(S->proxy);
        W->proxyUp = false;
        W->proxyChangedAt = S->now;
        Engine::instance()->stop();
        if (Engine::instance()->running()) S->violation("engine.state", "the engine says it is running when stop() returns");
    }
    changed();
}

bool execEngine(const Op &op)
{
    if (S->proxy->stalledUntil > S->now && op.kind >= O_ENG_STOP && op.kind <= O_ENG_DESTROY) {
        Op o = op;
        S->at(S->proxy->stalledUntil, [o]() { if (!W->quiescing) execEngine(o); });
        return true;
    }
    switch (op.kind) {
    case O_ENG_STOP: engStop(); return true;
    case O_ENG_START: engStart(op.b, true); return true;
    case O_ENG_RESTART: if (W->proxyUp) engStart(op.b, true); return true;
    case O_ENG_FLIP: { // several in a row, without a break or with a short one
        Rng r;
        r.seed(op.b, 5);
        Time t = 0;
        int n = (int)r.range(2, 4);
        for (int i = 0; i < n; i++) {
            uint64_t x = r.next();
            std::function<void()> f = [x]() {
                if (W->quiescing) return;
                if (W->proxyUp) engStop(); else engStart(x, true);
            };
            if (r.chance(0.6)) f();
            else S->after(t += r.logTime(US, 50 * MS), f);
        }
        return true;
    }
    case O_ENG_CRASH:
        if (!W->proxyUp) return true;
        W->note("the proxy crashes");
        W->crashProxy(false);
        changed();
        return true;
    case O_ENG_DESTROY:
        if (!Engine::exists()) return true;
        W->note("the engine is destroyed");
        S->count("fault.engine_destroy");
        {
            NodeScope sc(S->proxy);
            W->proxyUp = false;
            W->proxyChangedAt = S->now;
            Engine *e = Engine::instance();
            if (op.b % 2) e->stop();
            e->destroy();
            App::dropRoot(e);
        }
        changed();
        return true;
    }
    return false;
}

static bool engineDone()
{
    EngineCtl &e = *g_ec;
    switch (e.phase) {
    case 0: // somebody is left to be looked at
        if (!W->proxyUp) engStart(W->seed, W->seed % 3 == 0);
        e.phase = 1;
        e.since = S->now;
        return false;
    case 1:
        if (S->now - e.since < 3 * SEC || !probesDone()) return false;
        if (e.monitorOk && !monitorDone()) return false;
        W->tunnelFinal();
        engStop();
        e.phase = 2;
        e.since = S->now;
        return false;
    default:
        return S->now - e.since > 3 * SEC + W->slack();
    }
}

static void profileEngine()
{
    g_ec = new EngineCtl;
    g_ec->blocker = S->addNode("blocker", S->proxy->ip);
    basicSetup(0.3);
    W->onMonitorAnswer = monitorAnswer;
    Time end = (Time)(W->knob("spanS", 0.3, 20) * SEC);
    std::vector<Gen> mix = {{O_ENG_STOP, 3}, {O_ENG_START, 4}, {O_ENG_RESTART, 2}, {O_ENG_FLIP, 2}, {O_ENG_CRASH, 1}, {O_ENG_DESTROY, 1}, {O_SERVER, 5}, {O_CLIENT, 8}, {O_UP, 6}, {O_DOWN, 6}, {O_BURST, 3}, {O_SERVER_END, 0.7},
                            {O_SERVER_RECONN, 2}, {O_CLIENT_END, 2}, {O_CLIENT_RECONN, 2}, {O_CLIENT_DUP, 0.5}, {O_DISC, 1}, {O_CHURN, 0.7}, {O_PAUSE, 1}, {O_RESUME, 1}, {O_STALL, 0.5}, {O_BLOCK, 0.5}, {O_RPC, 1}, {O_IDLE, 1.5}, {O_BADFRAME, 0.5},
                            {O_MONITOR, 1}, {O_REFRESH, 2}, {O_REFRESH_MANY, 0.7}};
    std::vector<Op> ops = genOps(mix, W->knobi("nOps", 10, 80), 60 * MS, end);
    addInitial(ops, W->knobi("servers", 1, 3), W->knobi("clients", 1, 5), 100 * MS);
    go(ops, end + SEC);
    W->exec = [](const Op &op) { S->count("ops"); if (!execEngine(op)) execCommon(op); };
    W->finalReady = engineDone;
    W->finalChecks = []() {};
}

// ------------------------------------------------------------- clear text at the TLS endpoints

struct TlsTap { std::string head; size_t left = 0; int type = 0; std::string body; uint64_t records = 0; };
static std::map<int, TlsTap> g_taps;   // by connection
static std::string g_hello;            // the ClientHello of some honest peer
static std::vector<std::string> g_gateUuids; // registered in clear text, used by honest servers later

// What leaves the TCP and WebSocket endpoints must be TLS records and hide what is in them.
static void tapTls(Endpoint *e, const char *d, size_t n)
{
    if (e->conn->unixdom) return;
    if (e->side == 0) {
        if (g_hello.empty() && n > 100 && d[0] == 0x16 && d[5] == 1) g_hello.assign(d, n);
        return;
    }
    if (e->node != S->proxy) return;
    TlsTap &t = g_taps[e->conn->id];
    for (size_t i = 0; i < n;) {
        if (t.left) {
            size_t k = std::min(t.left, n - i);
            t.body.append(d + i, k);
            i += k;
            t.left -= k;
            if (!t.left) {
                t.records++;
                static const char *clear[] = {"TunnelProxy", "RemoteProxy", "\"id\"", "\"status\"", "notification", "HTTP/1", "Sec-WebSocket"};
                for (const char *c : clear)
                    if (t.body.find(c) != std::string::npos) { S->violation("tls.clear_answer", "connection " + std::to_string(e->conn->id) + ": " + c + " can be read in what the proxy sends"); return; }
                for (Tunnel *u : W->tunnels)
                    if (u->conn == e->conn && u->downSent >= 12 && t.body.size() >= 12) {
                        std::string w = downData(u, u->downRecv + 12 <= u->downSent ? u->downRecv : u->downSent - 12, 12);
                        if (t.body.find(w) != std::string::npos) { S->violation("tls.clear_answer", "payload of tunnel " + std::to_string(u->id) + " leaves the proxy in clear text"); return; }
                    }
                t.body.clear();
            }
            continue;
        }
        t.head.push_back(d[i++]);
        if (t.head.size() < 5) continue;
        unsigned ty = (unsigned char)t.head[0], maj = (unsigned char)t.head[1];
        t.left = (size_t)(unsigned char)t.head[3] << 8 | (unsigned char)t.head[4];
        if (ty < 20 || ty > 23 || maj != 3 || !t.left || t.left > 16384 + 2048) {
            S->violation("tls.clear_answer", "connection " + std::to_string(e->conn->id) + ": the proxy sends " + hexOf(t.head + std::string(d + i, std::min<size_t>(n - i, 30))) + ", which is not TLS");
            t.left = 0;
            t.head.clear();
            return;
        }
        t.head.clear();
    }
}

struct GatePeer : IdlePeer {
    Rng r;
    std::string out;
    int what = 0;
    const char *kindName() const override { return "gate"; }
    bool dropJustified(std::string &) override { return true; }
    void bytes(const std::string &) override {} // the tap sees everything

    std::string message()
    {
        std::string id = std::to_string(r.below(1000));
        std::vector<ServerSide *> ls = liveServers();
        std::string su = ls.empty() ? W->newUuid() : ls[r.below(ls.size())]->uuid;
        switch (r.below(6)) {
        case 0: return "{\"id\":" + id + ",\"method\":\"RemoteProxy.Hello\",\"params\":{}}\n";
        case 1: case 2: {
            std::string u = W->newUuid();
            g_gateUuids.push_back(u);
            return "{\"id\":" + id + ",\"method\":\"TunnelProxy.RegisterServer\",\"params\":{\"serverName\":\"gate\",\"serverUuid\":\"" + u + "\"}}\n";
        }
        case 3: case 4: return "{\"id\":" + id + ",\"method\":\"TunnelProxy.RegisterClient\",\"params\":{\"clientName\":\"gate\",\"clientUuid\":\"" + W->newUuid() + "\",\"serverUuid\":\"" + su + "\"}}\n";
        default: return "{\"id\":" + id + ",\"method\":\"TunnelProxy.RegisterServer\",\"params\":{\"serverName\":\"gate\",\"serverUuid\":\"" + su + "\"}}\n";
        }
    }
    std::string http()
    {
        return "GET / HTTP/1.1\r\nHost: 10.0.0.1:2212\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\n\r\n";
    }
    static std::string wsFrame(const std::string &d)
    {
        std::string f("\x81", 1);
        if (d.size() < 126) f.push_back((char)(0x80 | d.size()));
        else { f.push_back((char)(0x80 | 126)); f.push_back((char)(d.size() >> 8)); f.push_back((char)d.size()); }
        return f + std::string(4, 0) + d;
    }
    static std::string record(int type, const std::string &d)
    {
        std::string o;
        o.push_back((char)type);
        o += "\x03\x03";
        o.push_back((char)(d.size() >> 8));
        o.push_back((char)d.size());
        return o + d;
    }
    void build()
    {
        std::string msg = message();
        if (r.chance(0.4)) msg += message();
        std::string hello = g_hello.empty() ? std::string("\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03", 11) : g_hello;
        what = (int)r.below(11);
        switch (what) {
        case 0: case 1: out = msg; break;
        case 2: out = http() + wsFrame(msg); break;
        case 3: out = hello.substr(0, (size_t)r.below(hello.size())) + msg; break;
        case 4: out = hello + msg; break;
        case 5: out = record(20 + (int)r.below(4), msg); break;
        case 6: out = msg + hello; break;
        case 7: { size_t n = (size_t)r.logTime(1, 3000); for (size_t i = 0; i < n; i++) out.push_back((char)r.next()); out += msg; break; }
        case 8: out = slipFrame((uint16_t)r.below(4), "gate") + slipFrame(0, msg); break;
        case 9: out = hello + record(20, std::string("\x01", 1)) + record(23, msg); break;
        default: out = std::string((size_t)r.below(4), '\0') + msg + msg + msg;
        }
        S->count("fault.clear_text_on_tls");
    }
    void begin(Transport t, uint64_t rnd)
    {
        r.seed(rnd, 91);
        misbehaved = true;
        wellBehaved = false;
        build();
        start(t, 0, true);
    }
    void up() override { act2(); }
    void act2()
    {
        if (isDown || selfEnded) return;
        if (out.empty()) {
            if (r.chance(0.3)) { if (r.chance(0.5)) endGraceful(); else endAbort(); return; }
            if (r.chance(0.5)) { out = message(); S->after(r.logTime(MS, 3 * SEC), [this]() { act2(); }); }
            return;
        }
        size_t k = r.chance(0.3) ? out.size() : (size_t)r.range(1, std::max<int64_t>(1, (int64_t)out.size()));
        st->send(out.substr(0, k));
        out.erase(0, k);
        S->after(r.logTime(10 * US, SEC), [this]() { act2(); });
    }
};

// Somebody on the path adds bytes to the stream of an honest peer.
static void inject(Peer *p, uint64_t rnd)
{
    Rng r;
    r.seed(rnd, 17);
    Conn *c = p->conn();
    if (!c || c->state != 1 || c->acceptedAt < 0 || c->ep[0].closed || c->ep[0].wrShut || c->ep[0].reset) return;
    p->misbehaved = p->exemptDrop = true;
    p->wellBehaved = false;
    if (RawClient *rc = dynamic_cast<RawClient *>(p)) { rc->t->cutOff = true; rc->t->excused = true; }
    for (Tunnel *t : W->tunnels) if (t->serverConn == c) { t->cutOff = true; t->excused = true; }
    GatePeer g;
    g.r = r;
    g.build();
    S->count("fault.clear_text_in_session");
    S->sendBytes(&c->ep[0], g.out.data(), g.out.size());
}

bool execGate(const Op &op)
{
    if (op.kind != O_GATE) return false;
    if (op.a % 4 == 0) {
        std::vector<Peer *> v;
        for (Peer *p : W->peers) if ((p->tr == TR_TLS || p->tr == TR_WSS) && p->linkAlive() && !p->paused) v.push_back(p);
        if (v.size()) {
            Peer *p = v[op.b % v.size()];
            W->note("clear text is added to the stream of %s %s", p->kindName(), p->name.c_str());
            inject(p, op.c);
        }
        return true;
    }
    if (op.a % 4 == 1 && g_gateUuids.size()) {
        // an honest server with a UUID that somebody tried to take in clear text
        std::string u = g_gateUuids[op.b % g_gateUuids.size()];
        RawServer *s = newServer(u, op.c);
        W->note("server %s connects (%s) with uuid %s", s->name.c_str(), trName(s->tr), u.c_str());
        return true;
    }
    GatePeer *g = new GatePeer;
    g->begin(op.b % 3 == 0 ? TR_WSS : TR_TLS, op.c);
    W->note("%s: clear text to the %s endpoint, kind %d", g->name.c_str(), trName(g->tr), g->what);
    return true;
}

static void profileGate()
{
    basicSetup(1.0);
    S->onSend = tapTls;
    W->onMonitorAnswer = monitorAnswer;
    Time end = (Time)(W->knob("spanS", 1, 14) * SEC);
    std::vector<Gen> mix = {{O_GATE, 14}, {O_UP, 5}, {O_DOWN, 5}, {O_CLIENT, 3}, {O_SERVER, 1}, {O_CLIENT_END, 1}, {O_SERVER_RECONN, 0.7}, {O_RPC, 0.7}, {O_IDLE, 1.5}, {O_PAUSE, 0.4}, {O_RESUME, 0.7}, {O_STALL, 0.5}, {O_BLOCK, 0.5},
                            {O_RST, 0.7}, {O_CLIENT_RECONN, 0.7}, {O_SERVER_END, 0.3}, {O_MONITOR, 0.5}, {O_REFRESH, 1}};
    std::vector<Op> ops = genOps(mix, W->knobi("nOps", 8, 50), 60 * MS, end);
    addInitial(ops, W->knobi("servers", 1, 2), W->knobi("clients", 1, 3), 100 * MS);
    go(ops, end + SEC);
    W->exec = [](const Op &op) { S->count("ops"); if (!execGate(op)) execCommon(op); };
}

// ------------------------------------------------------------- release

// The same history again and again; after each round everybody leaves.
struct RelSample { int fds, timers, notifiers, objects; size_t blocks, bytes; int qt; };
static std::vector<RelSample> g_rel;
static int g_rounds;

static void everybodyLeaves(int how)
{
    Rng r;
    r.seed(W->seed, 600 + how);
    for (auto &n : S->nodes) {
        S->setBlocked(n.get(), false);
        n->fdLimit = 1 << 20;
        n->failSocket = false;
    }
    for (Conn &c : S->conns) {
        S->setConnBlocked(&c, false);
        // a slow path may take minutes for what is still on its way
        if (how == 3 && !c.unixdom && c.state == 1 && !c.pipe[0].inflight.empty() && c.acceptedAt >= 0 && c.closedAt[1] < 0) S->arriveRst(&c.ep[1], ECONNRESET);
    }
    for (Peer *p : W->peers) {
        if (p->selfEnded || p->isDown || !p->st) continue;
        if (p->paused) p->setPaused(false);
        if (RawClient *c = dynamic_cast<RawClient *>(p)) { c->end((int)r.below(3)); if (c->selfEnded) continue; }
        switch (r.below(5)) {
        case 0: case 1: p->endGraceful(); break;
        case 2: case 3: p->endAbort(); break;
        default: p->endVanish();
        }
    }
}

static void relSample(int round)
{
    Dispatcher *d = static_cast<Dispatcher *>(QAbstractEventDispatcher::instance());
    RelSample s = {S->openFds(S->proxy), d->timersOf(S->proxy), d->notifiersOf(S->proxy), objectCount(), heapBlocks(), heapBytes(), objectsOfQt()};
    g_rel.push_back(s);
    char b[300];
    snprintf(b, sizeof b, "round %d: %d descriptors, %d timers, %d notifiers, %d objects, %zu blocks, %zu bytes, %d in qt", round, s.fds, s.timers, s.notifiers, s.objects, s.blocks, s.bytes, s.qt);
    W->note("%s", b);
    S->count("probe.release_sample");
    if (getenv("SIM_HEAPTRACE")) { fprintf(stderr, "%s\n", b); heapReport(round); }
    heapGeneration(round + 1);
    if (round == 0) return;
    const RelSample &o = g_rel[0];
    std::string left = objectsOf(round);
    if (s.fds != o.fds) {
        snprintf(b, sizeof b, "everybody is gone and the proxy holds %d descriptors instead of %d (round %d)", s.fds, o.fds, round);
        std::string of;
        for (Conn &c : S->conns)
            if (c.state == 1 && c.acceptedAt >= 0 && !c.ep[1].closed && c.ep[1].node == S->proxy)
                for (Peer *p : W->peers) if (p->conn() == &c) of += " " + p->name + " (" + p->kindName() + ", " + trName(p->tr) + ")";
        S->violation("release.descriptors", b + of);
    }
    if (s.notifiers > o.notifiers) S->violation("release.descriptors", "everybody is gone and the proxy watches " + std::to_string(s.notifiers) + " descriptors instead of " + std::to_string(o.notifiers));
    // what the first round has left behind may be there to stay, more must not follow
    const RelSample &f = g_rel[1];
    if (round > 1 && (s.timers > f.timers || s.objects > f.objects)) {
        snprintf(b, sizeof b, "round %d: %d timers and %d objects, after the first round %d and %d; new: %s", round, s.timers, s.objects, f.timers, f.objects, left.substr(0, 150).c_str());
        S->violation("release.objects", b);
    }
    // Every repetition of the same history leaves more memory behind.
    int diffs = (int)g_rel.size() - 3;
    if (round == g_rounds && diffs >= 2 && heapBlocks()) {
        long least = 1 << 30;
        for (size_t k = 3; k < g_rel.size(); k++) {
            if (g_rel[k].qt != g_rel[2].qt) least = 0;
            least = std::min(least, (long)g_rel[k].blocks - (long)g_rel[k - 1].blocks);
        }
        S->count("probe.release_memory");
        if (least >= std::max(2, 6 - diffs)) {
            std::string l;
            for (size_t k = 1; k < g_rel.size(); k++) l += (k > 1 ? ", " : "") + std::to_string(g_rel[k].blocks);
            S->violation("release.memory", "memory blocks left after each repetition of the same history: " + l);
        }
    }
}

static void profileRelease()
{
    heapStart();
    basicSetup(0.35);
    S->net.acceptAbort = W->coin("acceptAborts", 0.25) ? W->knob("acceptAbort", 0.01, 0.3) : 0;
    if (S->net.acceptAbort > 0) W->acceptFaults = true;
    // a peer that vanished before it registered is held until the inactivity deadline
    Time more = std::max<Time>(0, (Time)(W->inactiveMs * 1.06) * MS - 14 * SEC);
    Time span = (Time)(W->knob("spanS", 0.5, 6) * SEC), pause = 92 * SEC + more;
    g_rounds = W->knobi("rounds", 3, 6);
    std::vector<Gen> mix = {{O_SERVER, 2}, {O_CLIENT, 7}, {O_UP, 6}, {O_DOWN, 6}, {O_BURST, 3}, {O_CLIENT_END, 2}, {O_CLIENT_RECONN, 1}, {O_SERVER_DUP, 0.7}, {O_CLIENT_DUP, 0.7}, {O_CLIENT_NOSRV, 0.7}, {O_DISC, 1}, {O_SERVER_RECONN, 1},
                            {O_SERVER_END, 0.7}, {O_CHAOS, 4}, {O_RPC, 2}, {O_IDLE, 3}, {O_MONITOR, 1.5}, {O_REFRESH, 2}, {O_MON_END, 1}, {O_MON_BAD, 1}, {O_PAUSE, 1}, {O_RESUME, 1}, {O_BLOCK, 1}, {O_RST, 1}, {O_REREG, 0.7}, {O_BADFRAME, 0.7},
                            {O_CHURN, 1}, {O_FDLIMIT, 0.7}, {O_FDFREE, 1}, {O_STALL, 0.5}};
    std::vector<Op> one = genOps(mix, W->knobi("nOps", 8, 45), 50 * MS, span);
    addInitial(one, W->knobi("servers", 1, 2), W->knobi("clients", 1, 4), 50 * MS);
    if (W->ssl && W->coin("gates", 0.5))
        for (int i = 0, n = W->knobi("nGates", 1, 5); i < n; i++) {
            Op o;
            o.kind = O_GATE;
            o.t = W->rOps.range(50 * MS, span);
            o.a = 2;
            o.b = W->rOps.next();
            o.c = W->rOps.next();
            one.push_back(o);
        }
    std::vector<Op> ops;
    Time t0 = 500 * MS;
    for (int k = 0; k < g_rounds; k++)
        for (Op o : one) {
            o.t += t0 + k * (span + pause);
            ops.push_back(o);
        }
    std::stable_sort(ops.begin(), ops.end(), [](const Op &a, const Op &b) { return a.t < b.t; });
    S->at(450 * MS, []() { relSample(0); });
    for (int k = 0; k < g_rounds; k++) {
        Time e = t0 + k * (span + pause) + span;
        S->at(e, []() { everybodyLeaves(1); });
        S->at(e + 6 * SEC, []() { everybodyLeaves(2); });
        S->at(e + 9 * SEC, []() { everybodyLeaves(3); });
        S->at(e + more + 86 * SEC, []() { MonitorPeer *m = new MonitorPeer; m->start(); m->refresh(2); });
        S->at(e + more + 88 * SEC, []() {
            MonitorPeer *m = W->monitors.back();
            if (m->haveLast) {
                QVariantMap st = m->last.value("tunnelProxyStatistic").toMap();
                int n = st.value("totalClientCount").toInt() + st.value("serverConnectionsCount").toInt() + st.value("clientConnectionsCount").toInt() + st.value("tunnelConnections").toList().size();
                for (const QVariant &v : st.value("transports").toMap()) n += v.toInt();
                S->count("probe.release_monitor");
                if (n) S->violation("release.registrations", "everybody is gone and the monitor says " + QJsonDocument::fromVariant(st).toJson(QJsonDocument::Compact).toStdString().substr(0, 300));
            }
            m->endGraceful();
        });
        int round = k + 1;
        S->at(e + more + 91 * SEC, [round]() { relSample(round); });
    }
    go(ops, t0 + g_rounds * (span + pause));
    W->exec = [](const Op &op) { S->count("ops"); if (!execGate(op)) execCommon(op); };
}

// ------------------------------------------------------------- termination by a signal
struct SigPlan {
    bool armed = false;
    int sig = SIGTERM;
    uint64_t skip = 0;        // points to pass before the next signal
    int points = 0;           // 0: system calls only, 1: also allocations
    int left = 0;             // signals to come
    Time firstAt = -1;        // when the first one came
    std::string firstWhere;
    std::vector<uint64_t> skips;
    std::vector<int> sigs;
    size_t next = 0;
    bool inside = false;
    int rc = -1;
};
static SigPlan g_sig;

static void raiseNow(const char *where)
{
    struct sigaction sa;
    sigaction(g_sig.sigs[g_sig.next], nullptr, &sa);
    if (sa.sa_handler == SIG_DFL && g_sig.firstAt >= 0) {
        InSim in;
        S->violation("signal.exit", "signal " + std::to_string(g_sig.sigs[g_sig.next]) + " would kill the server while it shuts down");
        g_sig.armed = false;
        return;
    }
    if (sa.sa_handler == SIG_DFL || sa.sa_handler == SIG_IGN) return; // the program is not that far yet
    int sig = g_sig.sigs[g_sig.next++];
    g_sig.inside = true;
    if (g_sig.firstAt < 0) {
        g_sig.firstAt = S->now;
        g_sig.firstWhere = where;
        W->proxyUp = false;
        W->proxyChangedAt = S->now;
        S->count((std::string("fault.signal_in_") + where).c_str());
    } else S->count("fault.another_signal");
    {
        InSim in;
        W->note("signal %d in %s", sig, where);
        S->note('S', (uint64_t)sig);
    }
    int keep = inSim;
    inSim = 0;
    {
        NodeScope sc(S->proxy);
        raise(sig);
    }
    inSim = keep;
    g_sig.inside = false;
    if (g_sig.next >= g_sig.sigs.size()) g_sig.armed = false;
    else g_sig.skip = g_sig.skips[g_sig.next];
}

static void sigPoint(const char *where)
{
    if (!g_sig.armed || g_sig.inside) return;
    if (g_sig.skip > 0) { g_sig.skip--; return; }
    raiseNow(where);
}

static void allocPoint() { sigPoint("allocation"); }

static void deadline()
{
    Time d = 20 * SEC + W->slack();
    if (S->now - g_sig.firstAt < d || S->proxy->stalledUntil > S->now) { S->after(SEC, deadline); return; }
    S->violation("signal.ignored", std::to_string((S->now - g_sig.firstAt) / SEC) + " s after the signal the server still runs");
    S->finished = true;
}

static void watch()
{
    if (g_sig.firstAt >= 0) { deadline(); return; }
    S->after(200 * MS, watch);
}

// A program that called exit() has not left its event loop.
static void leftEarly()
{
    if (g_sig.rc < 0 && S->active) {
        S->violation("signal.exit", "the program called exit()");
    }
}

void runServerMain()
{
    if (W->profile == "config") { runConfigured(); return; }
    std::string cf = W->dir + "/proxy.conf";
    char a0[] = "nymea-remoteproxy", a1[] = "-c";
    std::vector<char> a2(cf.begin(), cf.end());
    a2.push_back(0);
    char *argv[] = {a0, a1, a2.data(), nullptr};
    atexit(leftEarly);
    App::defaultNode = S->proxy;
    S->simPipes = true;
    if (g_sig.armed) {
        S->syscallHook = [](const char *c) { sigPoint(c); };
        if (g_sig.points) g_allocHook = allocPoint;
    }
    {
        NodeScope sc(S->proxy);
        g_sig.rc = serverMain(3, argv);
    }
    g_sig.armed = false;
    g_allocHook = nullptr;
    if (g_sig.firstAt < 0) {
        if (!S->exhausted()) S->violation("signal.exit", "the server left its event loop without a signal");
        return;
    }
    S->finished = true;
    S->count("probe.signal_exit");
    std::string when = " (first signal in " + g_sig.firstWhere + ")";
    if (g_sig.rc != 0) S->violation("signal.exit", "exit code " + std::to_string(g_sig.rc) + when);
    if (Engine::exists()) S->violation("signal.exit", "the engine still exists" + when);
    int n = 0;
    std::string what;
    for (File *f : S->files)
        if (f && f->node == S->proxy && !f->dead && !f->local()) {
            n++;
            what += f->listener ? " listener" : f->ep ? " conn " + std::to_string(f->ep->conn->id) : " socket";
        }
    if (n) S->violation("signal.leftover", std::to_string(n) + " descriptors are open when the server leaves:" + what.substr(0, 200) + when);
    for (Conn &c : S->conns)
        if (c.state == 1 && c.ep[1].node == S->proxy && !c.ep[1].closed) {
            S->violation("signal.leftover", "conn " + std::to_string(c.id) + " is open when the server leaves" + when);
            break;
        }
    for (const std::string &p : {W->tg.unixPath, W->monitorPath})
        if (access(p.c_str(), F_OK) == 0) S->violation("signal.leftover", p.substr(p.rfind('/') + 1) + " is left behind" + when);
}

static void profileSignal()
{
    W->ssl = W->coin("ssl", 0.25);
    W->inactiveMs = W->knobi("inactiveMs", 5000, 14000);
    W->defaultNet();
    W->tg.ip = S->proxy->ip;
    W->writeConfig(W->dir + "/proxy.conf", W->ssl, W->inactiveMs, W->tg.tcpPort, W->tg.wsPort);
    W->epoch = 1;
    W->proxyUp = true;
    Time end = (Time)(W->knob("spanS", 0.05, 8) * SEC);
    std::vector<Gen> mix = {{O_SERVER, 2}, {O_CLIENT, 6}, {O_UP, 10}, {O_DOWN, 10}, {O_BURST, 5}, {O_CLIENT_END, 3}, {O_CLIENT_RECONN, 3}, {O_SERVER_DUP, 1}, {O_CLIENT_DUP, 1}, {O_DISC, 2}, {O_BADFRAME, 1}, {O_SRV_RPC, 1},
                            {O_CHURN, 1}, {O_SERVER_RECONN, 2}, {O_SERVER_END, 2}, {O_PAUSE, 2}, {O_RESUME, 1}, {O_BLOCK, 1}, {O_RST, 1}, {O_REREG, 0.5}, {O_CHAOS, 1}, {O_RPC, 1}, {O_IDLE, 2}, {O_MONITOR, 1}, {O_REFRESH, 3}, {O_MON_END, 0.5}, {O_STALL, 0.5}};
    std::vector<Op> ops = genOps(mix, W->knobi("nOps", 0, 50), 20 * MS, end);
    addInitial(ops, W->knobi("servers", 0, 3), W->knobi("clients", 0, 6), 60 * MS);
    // the signal: the more the later, as often in the middle of something as possible
    Rng r;
    r.seed(S->seed, 991);
    int kinds[] = {SIGTERM, SIGINT, SIGQUIT, SIGHUP};
    int n = 1 + (r.chance(0.5) ? (int)r.below(4) : 0);
    g_sig.points = W->coin("inAllocations", 0.5);
    for (int i = 0; i < n; i++) {
        g_sig.sigs.push_back(kinds[r.below(4)]);
        uint64_t span = g_sig.points ? 1ull << r.below(12) : 1ull << r.below(7);
        g_sig.skips.push_back(r.below(span));
    }
    g_sig.skip = g_sig.skips[0];
    int mode = W->knobi("signalMode", 0, 5);
    Time at = r.range(0, end);
    if (mode == 0) { g_sig.armed = true; g_sig.skip = r.below(g_sig.points ? 6000 : 40); } // while it starts
    else if (mode == 1) S->at(at, []() { raiseNow("poll"); });      // it sleeps
    else S->at(at, []() { g_sig.armed = true; });
    if (mode == 1) { // the others may come at any point
        S->at(at, []() { if (g_sig.next < g_sig.sigs.size()) g_sig.armed = true; });
    }
    if (mode != 0) {
        S->syscallHook = [](const char *c) { sigPoint(c); };
        if (g_sig.points) g_allocHook = allocPoint;
    }
    S->at(end + 30 * SEC, []() { if (g_sig.firstAt < 0) raiseNow("poll"); });
    W->acceptFaults = true;
    go(ops, end + 1000 * SEC);
    watch();
}

void setupEngine(const std::string &p)
{
    if (p == "signal") { profileSignal(); return; }
    if (p == "addr") profileAddr(true);
    else if (p == "churn") profileAddr(false);
    else if (p == "monitor") profileMonitor();
    else if (p == "engine") profileEngine();
    else if (p == "tlsgate") profileGate();
    else if (p == "release") profileRelease();
    else { fprintf(stderr, "unknown profile %s\n", p.c_str()); _exit(3); }
}

} // namespace sim
