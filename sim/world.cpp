#include "world.h"
#include <QDir>
#include <QFile>
#include <QJsonArray>
#include <QJsonObject>
#include <cstdarg>
#include <unistd.h>
#include "engine.h"
#include "proxyconfiguration.h"

using remoteproxy::Engine;
using remoteproxy::ProxyConfiguration;

namespace sim {

World *W = nullptr;

// ------------------------------------------------------------- payload

static inline uint64_t mixKey(uint64_t k, uint64_t i)
{
    uint64_t z = k + i * 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

static char genByte(const Tunnel *t, int dir, uint64_t i)
{
    uint64_t key = t->key * 2 + dir + 1;
    if (t->text) {
        uint64_t h = mixKey(key, i / 4);
        static const char *unit[] = {"{}\n{", "}\n}\n", "abcd", "\xdb\x80\xdc\xbf", "\xdd\x9d\xdc\x9c", "\xf0\x9f\x98\x80", "\xe2\x82\xac}", "\"\\}\n",
                                     "\xc3\xa4\xc3\xb6", "\x01\x7f\x1f\x02", "0\r\n0", "\xdb\xbf\xdb\xa9", "}}}}",
                                     "e\xcc\x81x", "\xe2\x84\xab ", "\xef\xbb\xbfz", "\xef\xbf\xbfy", "\xef\xbf\xbd\t", "\xc2\x85\xc2\xa0"};
        if (h % 4 == 0) { // unique text, so that streams can be told apart
            static const char hex[] = "0123456789abcdef";
            return hex[(h >> (8 + 4 * (i & 3))) & 15];
        }
        if (h % 32 == 1) return "a\0b}"[i & 3];
        return unit[(h >> 8) % (sizeof unit / sizeof *unit)][i & 3];
    }
    uint64_t h = mixKey(key, i);
    if (h & 1) {
        static const unsigned char special[] = {0xC0, 0xDB, 0xDC, 0xDD, 0x00, '}', '\n', '{', 0xFF, 0xC0, 0xDB, 0x01};
        return (char)special[(h >> 8) % sizeof special];
    }
    return (char)(h >> 16);
}

char upByte(const Tunnel *t, uint64_t i) { return genByte(t, 0, i); }
char downByte(const Tunnel *t, uint64_t i) { return genByte(t, 1, i); }
std::string upData(const Tunnel *t, uint64_t off, size_t n) { std::string s(n, 0); for (size_t i = 0; i < n; i++) s[i] = upByte(t, off + i); return s; }
std::string downData(const Tunnel *t, uint64_t off, size_t n) { std::string s(n, 0); for (size_t i = 0; i < n; i++) s[i] = downByte(t, off + i); return s; }

std::string hexOf(const std::string &s, size_t max)
{
    std::string o;
    char b[4];
    for (size_t i = 0; i < s.size() && i < max; i++) { snprintf(b, sizeof b, "%02x", (unsigned char)s[i]); o += b; }
    if (s.size() > max) o += "..";
    return o;
}

std::string jsonStr(const std::string &s)
{
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"') o += "\\\"";
        else if (c == '\\') o += "\\\\";
        else if (c == '\n') o += "\\n";
        else if (c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o.push_back((char)c);
    }
    return o + "\"";
}

std::string normUuid(const std::string &s)
{
    return QUuid(QString::fromStdString(s)).toString().toStdString();
}

std::string slipFrame(uint16_t addr, const std::string &data)
{
    std::string o;
    auto put = [&](unsigned char c) {
        if (c == 0xC0) { o.push_back((char)0xDB); o.push_back((char)0xDC); }
        else if (c == 0xDB) { o.push_back((char)0xDB); o.push_back((char)0xDD); }
        else o.push_back((char)c);
    };
    put(addr >> 8);
    put(addr & 255);
    for (unsigned char c : data) put(c);
    o.push_back((char)0xC0);
    return o;
}

static bool unslip(const std::string &in, std::string &out)
{
    out.clear();
    for (size_t i = 0; i < in.size(); i++) {
        unsigned char c = in[i];
        if (c == 0xDB) {
            if (++i >= in.size()) return false;
            c = in[i];
            if (c == 0xDC) out.push_back((char)0xC0);
            else if (c == 0xDD) out.push_back((char)0xDB);
            else return false;
        } else out.push_back((char)c);
    }
    return true;
}

// who does this run of bytes belong to?
static std::string attribute(const std::string &win, const Tunnel *self, int dir)
{
    if (win.size() < 6) return "";
    for (Tunnel *t : W->tunnels)
        for (int d = 0; d < 2; d++) {
            if (t == self && d == dir) continue;
            uint64_t n = d ? t->downSent : t->upSent;
            for (uint64_t p = 0; p + win.size() <= n && p < 400000; p++) {
                size_t k = 0;
                while (k < win.size() && genByte(t, d, p + k) == win[k]) k++;
                if (k == win.size()) return std::string(d ? "down" : "up") + " stream of tunnel " + std::to_string(t->id) + " at " + std::to_string(p);
            }
        }
    return "";
}

static void verifyStream(Tunnel *t, int dir, const std::string &d, const char *where)
{
    uint64_t &recv = dir ? t->downRecv : t->upRecv;
    uint64_t sent = dir ? t->downSent : t->upSent;
    const char *dn = dir ? "down" : "up";
    if (dir && !t->announced && !W->chaos.empty())
        for (const Reg &q : W->regs)
            if (q.server && q.epoch == t->epoch && q.uuid == t->suuid && dynamic_cast<ChaosPeer *>(q.p)) { // the client of a hostile server
                t->excused = true;
                recv += d.size();
                return;
            }
    for (size_t i = 0; i < d.size(); i++) {
        if (recv + i >= sent || genByte(t, dir, recv + i) != d[i]) {
            std::string win = d.substr(i, 24);
            if (win.size() < 8 && i) win = d.substr(d.size() > 24 ? d.size() - 24 : 0);
            std::string who = attribute(win.substr(0, 12), t, dir);
            char b[256];
            snprintf(b, sizeof b, "%s: tunnel %d (%s) byte %llu of the %s stream: got %s%s, sent so far %llu, expected %s", where, t->id, t->name.c_str(),
                     (unsigned long long)(recv + i), dn, hexOf(win, 12).c_str(), recv + i >= sent ? " (never sent)" : "", (unsigned long long)sent,
                     hexOf(dir ? downData(t, recv + i, 12) : upData(t, recv + i, 12), 12).c_str());
            bool json = win.find("\"id\"") != std::string::npos || d.find("\"notification\"") != std::string::npos || d.find("\"status\"") != std::string::npos;
            if (!who.empty()) S->violation(std::string("crosstalk.") + dn, std::string(b) + " = " + who);
            else if (json) S->violation(std::string("control_in_payload.") + dn, b);
            else S->violation(std::string("corrupt.") + dn, b);
            recv += d.size(); // resynchronise
            t->excused = true;
            return;
        }
    }
    recv += d.size();
    W->progress += d.size();
}

// ------------------------------------------------------------- peers

void Peer::open(Transport t)
{
    tr = t;
    Stream *base = makeStream(t, node, W->tg);
    if (trIsWs(t)) {
        ws = new WsStream(base, "10.0.0.1:2212", &W->rPay);
        openWith(ws);
    } else openWith(base);
}

void Peer::openWith(Stream *s)
{
    st = s;
    epoch = W->epoch;
    openedAt = S->now;
    id = (int)W->peers.size();
    W->peers.push_back(this);
    st->onUp = [this]() {
        isUp = true;
        upAt = S->now;
        if (epoch != W->epoch) {
            // the proxy was restarted while this one was on its way
            endAbort();
            return;
        }
        up();
    };
    st->onData = [this](const std::string &d) {
        gotAny = true;
        appRecv += d.size();
        if (selfEnded) return;
        bytes(d);
    };
    st->onDown = [this](DownKind k) {
        if (isDown) return;
        isDown = true;
        W->progress++;
        downAt = S->now;
        downKind = k;
        down(k);
    };
    st->open();
}

void Peer::put(const std::string &d)
{
    if (selfEnded || isDown) return;
    if (ws || drip <= 0) { appSent += d.size(); st->send(d); return; }
    outq += d;
    if (!dripping) pumpDrip();
}

void Peer::pumpDrip()
{
    dripping = false;
    if (outq.empty() || selfEnded || isDown) return;
    size_t k = outq.size();
    if (W->rPay.chance(drip) && k > 1) k = 1 + W->rPay.below(k < 40 ? k : 40);
    std::string s = outq.substr(0, k);
    outq.erase(0, k);
    appSent += s.size();
    st->send(s);
    if (!outq.empty()) {
        dripping = true;
        S->after(W->rPay.logTime(10 * US, 30 * MS), [this]() { pumpDrip(); });
    }
}

bool Peer::linkAlive() const
{
    if (!st || selfEnded || isDown || epoch != W->epoch || !W->proxyUp) return false;
    Conn *c = conn();
    return st->alive() && !c->ep[0].rxFin && !c->ep[1].rxFin;
}

void Peer::endGraceful()
{
    if (selfEnded || !st) return;
    if (!outq.empty()) { appSent += outq.size(); st->send(outq); outq.clear(); }
    selfEnded = true;
    selfEndedAt = S->now;
    st->close();
}
void Peer::endAbort()
{
    if (selfEnded || !st) return;
    selfEnded = true;
    selfEndedAt = S->now;
    outq.clear();
    st->abort();
}
void Peer::endVanish()
{
    if (selfEnded || !st) return;
    // the end of a process on the same machine never goes unnoticed
    if (tr == TR_UNIX && W->profile == "release") { endAbort(); return; }
    selfEnded = selfVanished = true;
    selfEndedAt = S->now;
    outq.clear();
    st->vanish();
}

void Peer::setPaused(bool p)
{
    if (paused == p || !st || selfEnded) return;
    paused = p;
    S->count(p ? "fault.peer_stops_reading" : "fault.peer_reads_again");
    pausedTotalSince = S->now;
    st->pause(p);
}

// the TLS handshake was not complete at the proxy when its time was over
bool Peer::handshakeLate() const
{
    Conn *c = conn();
    if (!c || c->acceptedAt < 0 || !(tr == TR_TLS || tr == TR_WSS)) return false;
    if (!isUp && S->now - c->acceptedAt >= 4700 * MS) return true;
    return !gotAny && c->closedAt[1] >= 0 && c->closedAt[1] - c->acceptedAt >= 4700 * MS && c->closedAt[1] - c->acceptedAt <= 5500 * MS + W->slack();
}

bool Peer::dropJustified(std::string &why)
{
    Conn *c = conn();
    why = "";
    if (selfEnded || misbehaved || expectKill || exemptDrop) return true;
    if (epoch != W->epoch || !W->proxyUp) return true;
    if (!c) return true;
    if (c->acceptedAt < 0) return true;                 // refused before it was a connection
    if (W->acceptFaults) return true;
    if (refusalLost()) return true;
    bool tls = tr == TR_TLS || tr == TR_WSS;
    if (handshakeLate()) return true;
    if (trIsWs(tr) && unsentAtClose && c->closedAt[1] - c->acceptedAt >= 4500 * MS) return true; // half a frame for five seconds
    if (!isUp && trIsWs(tr) && S->now - c->acceptedAt >= 9 * SEC) return true;
    if (!registered && S->now - c->acceptedAt >= (Time)(W->inactiveMs * 0.945) * MS) return true;
    why = registered ? "" : "unregistered";
    return false;
}

void Peer::down(DownKind k)
{
    if (k == DK_REFUSED) return;
    std::string why;
    if (dropJustified(why)) return;
    W->unexpectedDrop(this, why);
}

void World::unexpectedDrop(Peer *p, const std::string &how)
{
    char b[300];
    Conn *c = p->conn();
    snprintf(b, sizeof b, "%s %s (%s) was disconnected without cause: up %.3fs, now %.3fs, accepted %.3fs, last bytes at proxy %.3fs, conn %d", p->kindName(),
             p->name.c_str(), trName(p->tr), p->upAt / 1e9, S->now / 1e9, c ? c->acceptedAt / 1e9 : -1.0, c ? c->lastArrive[1] / 1e9 : -1.0, c ? c->id : 0);
    if (how == "unregistered") S->violation("early_drop", b);
    else S->violation(std::string("drop.") + p->kindName(), b);
}

std::string Peer::request(const Expect &e, const std::string &method, const std::string &params)
{
    uint64_t r = W->rPay.next();
    std::string id = std::to_string(e.id);
    std::string m = jsonStr(method);
    switch (r % 4) {
    case 0: return "{\"id\":" + id + ",\"method\":" + m + ",\"params\":" + params + "}";
    case 1: return "{\"method\":" + m + ",\"params\":" + params + ",\"id\":" + id + "}";
    case 2: return "{ \"params\": " + params + ", \"id\": " + id + ", \"method\": " + m + " }";
    default: return "{\"id\":" + id + ",\"params\":" + params + ",\"method\":" + m + "}";
    }
}

void Peer::handleResponse(const QVariantMap &m, const std::string &raw)
{
    std::string shortRaw = raw.substr(0, 160);
    if (!m.contains("id") || !m.contains("status")) {
        S->violation("rpc.malformed", name + ": not a response: " + shortRaw);
        return;
    }
    int id = m.value("id").toInt();
    if (pend.empty()) {
        S->violation("rpc.extra_response", name + ": response to nothing: " + shortRaw);
        return;
    }
    // requests that might legally go unanswered come after a connection kill
    Expect e = pend.front();
    if (e.id != id) {
        size_t i = 0;
        while (i < pend.size() && pend[i].id != id) i++;
        if (i == pend.size()) S->violation("rpc.wrong_id", name + ": expected id " + std::to_string(e.id) + " (" + e.what + "), got " + shortRaw);
        else {
            bool allOptional = true;
            for (size_t j = 0; j < i; j++) if (!pend[j].optional) allOptional = false;
            if (allOptional) { e = pend[i]; pend.erase(pend.begin() + i); goto found; } // a connection that is being closed
            S->violation("rpc.order", name + ": expected id " + std::to_string(e.id) + " (" + e.what + "), got " + shortRaw);
        }
        return;
    }
    pend.pop_front();
found:
    if (e.kind != K_PING) W->progress++;
    std::string status = m.value("status").toString().toStdString();
    QVariantMap params = m.value("params").toMap();
    std::string err = params.value("tunnelProxyError").toString().toStdString();
    const char *pre = "TunnelProxyError";
    if (err.compare(0, strlen(pre), pre) == 0) err = err.substr(strlen(pre));
    S->trace("%s: answer to %s (id %d): %s %s", name.c_str(), e.what.c_str(), id, status.c_str(), err.c_str());
    S->mixBytes(err.data(), err.size());
    bool wantError = e.kind == K_ERROR;
    if (wantError != (status == "error") || (!wantError && status != "success")) {
        S->violation("rpc.wrong_status", name + ": " + e.what + " answered with " + shortRaw);
    } else switch (e.kind) {
    case K_HELLO:
        if (params.value("server").toString() != "nymea-remoteproxy" || params.value("name").toString() != QString::fromStdString(W->serverName) || params.value("version").toString().isEmpty() || params.value("apiVersion").toString().isEmpty())
            S->violation("rpc.wrong_outcome", name + ": Hello answered with " + shortRaw);
        break;
    case K_PING:
        if (params.value("timestamp").toULongLong() != strtoull(e.pingTs.c_str(), nullptr, 10))
            S->violation("rpc.wrong_outcome", name + ": Ping " + e.pingTs + " answered with " + shortRaw);
        break;
    case K_INTROSPECT:
        if (!params.value("methods").toMap().contains("TunnelProxy.RegisterServer") || !params.value("notifications").toMap().contains("TunnelProxy.ClientConnected"))
            S->violation("rpc.wrong_outcome", name + ": Introspect answered with " + shortRaw);
        break;
    case K_INVALIDUUID:
        if (err != "InvalidUuid") S->violation("reg.wrong_result", name + ": " + e.what + " with an invalid UUID answered with " + shortRaw);
        break;
    case K_REGSERVER: case K_REGCLIENT:
        checkRegistration(e, err);
        if (e.kind == K_REGSERVER && params.value("slipEnabled").toBool() != (err == "NoError"))
            S->violation("rpc.wrong_outcome", name + ": slipEnabled does not fit: " + shortRaw);
        break;
    case K_DISC:
        break;
    }
    onAnswer(e, err, m);
    if (e.kills || ((e.kind == K_REGSERVER || e.kind == K_REGCLIENT) && (err == "AlreadyRegistered" || err == "ServerNotFound"))) {
        if (!expectKill) { expectKill = true; expectKillSince = S->now; }
        for (auto &x : pend) x.optional = true;
    }
}

// ------------------------------------------------------------- registration model

bool World::possiblyHeld(const Reg &r, Time from) const
{
    if (r.epoch != epoch) return false;
    if (r.tResp >= 0 && r.result != "NoError") return false;
    if (r.conn) {
        if (r.conn->state == 2) return false;
        if (r.conn->closedAt[1] >= 0 && r.conn->closedAt[1] + slack() < from) return false;
    }
    return true;
}

bool World::definitelyHeld(const Reg &r, Time from) const
{
    if (r.epoch != epoch || r.tResp < 0 || r.result != "NoError" || r.tResp > from) return false;
    Conn *c = r.conn;
    return c && c->state == 1 && !c->ep[1].closed && !c->ep[1].rxFin && !c->ep[1].reset;
}

// what the proxy may answer to this registration
std::set<std::string> Peer::registrationCan(const Expect &e, bool &takenForSure)
{
    const Reg &q = W->regs[e.reg];
    Time from = q.tSend - W->slack();
    std::set<std::string> can;
    bool taken = false, srv = false, srvForSure = false, selfReg = false, selfRegMaybe = false;
    takenForSure = false;
    for (size_t i = 0; i < W->regs.size(); i++) {
        const Reg &r = W->regs[i];
        if ((int)i == e.reg) continue;
        if (r.p == this) {
            // an earlier success on this very connection
            if ((int)i < e.reg && r.result == "NoError" && r.tResp >= 0) selfReg = true;
            else if ((int)i < e.reg && r.tResp < 0) selfRegMaybe = true;
        }
        if (r.uuid == q.uuid) {
            if (W->possiblyHeld(r, from)) taken = true;
            if (W->definitelyHeld(r, q.tSend)) takenForSure = true;
        }
        if (!q.server && r.server && r.uuid == q.srv) {
            if (W->possiblyHeld(r, from)) srv = true;
            if (W->definitelyHeld(r, q.tSend)) srvForSure = true;
        }
    }
    if (selfReg) can.insert("AlreadyRegistered");
    else {
        if (taken || selfRegMaybe) can.insert("AlreadyRegistered");
        if (!takenForSure) {
            if (q.server) can.insert("NoError");
            else {
                if (srv) can.insert("NoError");
                if (!srvForSure) can.insert("ServerNotFound");
            }
        }
    }
    return can;
}

// the answer that announced the end was destroyed by a reset
bool Peer::refusalLost()
{
    Conn *c = conn();
    if (!c || (!c->pipe[1].rstSent && !c->ep[0].reset)) return false;
    for (const Expect &e : pend)
        if (e.kind == K_REGSERVER || e.kind == K_REGCLIENT) {
            bool sure;
            std::set<std::string> can = registrationCan(e, sure);
            if (can.count("AlreadyRegistered") || can.count("ServerNotFound")) return true;
        }
    return false;
}

void Peer::checkRegistration(const Expect &e, const std::string &err)
{
    Reg &q = W->regs[e.reg];
    q.tResp = S->now;
    q.result = err;
    q.conn = conn();
    if (epoch != W->epoch || !W->proxyUp) { // answered by a proxy that was stopped since
        if (err == "NoError") { registered = true; regPending = false; }
        return;
    }
    bool takenForSure = false;
    std::set<std::string> can = registrationCan(e, takenForSure);
    if (!can.count(err)) {
        std::string l;
        for (auto &s : can) l += (l.empty() ? "" : " or ") + s;
        S->violation(takenForSure && err == "NoError" ? "reg.double" : "reg.wrong_result",
                     name + ": " + e.what + " uuid " + q.uuid + " answered " + err + ", circumstances call for " + l);
    }
    if (err == "NoError") { registered = true; regPending = false; }
}

// ------------------------------------------------------------- server side (raw and library)

bool ServerSide::linkAlive() const
{
    Conn *c = link();
    return running() && c && c->state == 1 && !c->ep[0].closed && !c->ep[0].reset && !c->ep[0].rxFin && !c->ep[1].closed && !c->ep[1].reset && !c->ep[1].rxFin;
}

void ServerSide::announced(const std::string &cname, const std::string &cuuid, const std::string &ip, int addr)
{
    S->trace("%s: client %s announced at address %d", sname.c_str(), cname.substr(0, 24).c_str(), addr);
    S->note('A', sid, addr);
    W->progress++;
    announces++;
    auto it = W->byName.find(cname);
    if (it == W->byName.end()) {
        S->violation("announce.unknown", sname + ": told about a client named \"" + cname.substr(0, 60) + "\" that nobody is");
        return;
    }
    Tunnel *t = it->second;
    auto at = W->attempts.find(cname);
    if (at != W->attempts.end()) {
        for (Tunnel *x : at->second) if (x->ip == ip) t = x; // every attempt comes from an address of its own
    }
    if (t->suuid != uuid) { S->violation("announce.wrong_server", sname + ": told about client " + cname + " of server " + t->suuid); return; }
    if (t->announced) { S->violation("announce.twice", sname + ": client " + cname + " announced twice"); return; }
    if (normUuid(cuuid) != t->cuuid) S->violation("announce.wrong_data", sname + ": client " + cname + " announced with UUID " + cuuid + ", its own is " + t->cuuid);
    if (ip != t->ip) S->violation("announce.wrong_data", sname + ": client " + cname + " announced with address " + ip + ", its own is " + t->ip);
    if (addr <= 0 || addr >= 0xFFFF) S->violation("addr.invalid", sname + ": client " + cname + " got socket address " + std::to_string(addr));
    auto old = addrs.find((uint16_t)addr);
    if (old != addrs.end()) {
        S->violation("addr.duplicate", sname + ": client " + cname + " got socket address " + std::to_string(addr) + " of client " + old->second->name);
        return;
    }
    addrs[(uint16_t)addr] = t;
    t->announced = true;
    t->announcedAt = S->now;
    t->server = this;
    t->serverLink = linkNo;
    t->serverConn = link();
    t->addr = (uint16_t)addr;
    if (lastAddr && (uint16_t)addr < lastAddr) S->count("probe.address_wrapped");
    lastAddr = (uint16_t)addr;
}

void ServerSide::withdrawn(int addr)
{
    S->trace("%s: address %d withdrawn", sname.c_str(), addr);
    S->note('D', sid, addr);
    W->progress++;
    auto it = addrs.find((uint16_t)addr);
    if (it == addrs.end()) {
        S->violation("withdraw.unknown", sname + ": told that the client at " + std::to_string(addr) + " disconnected, there is none");
        return;
    }
    it->second->withdrawn = true;
    it->second->withdrawnAt = S->now;
    addrs.erase(it);
}

void ServerSide::payload(uint16_t addr, const std::string &d)
{
    auto it = addrs.find(addr);
    if (it == addrs.end()) {
        std::string who = attribute(d.substr(0, 16), nullptr, -1);
        S->violation("payload.no_client", sname + ": " + std::to_string(d.size()) + " payload bytes from address " + std::to_string(addr) + " where no client is: " + hexOf(d, 16) + (who.empty() ? "" : " = " + who));
        return;
    }
    verifyStream(it->second, 0, d, sname.c_str());
}

void ServerSide::linkGone()
{
    addrs.clear();
    linkNo++;
    lastAddr = 0;
}

void ClientSide::gotDown(const std::string &d) { verifyStream(t, 1, d, t->name.c_str()); }

// ------------------------------------------------------------- raw server

void RawServer::start(Transport trn, const std::string &u)
{
    uuid = u;
    node = snode = W->newNode("srv");
    sid = (int)W->servers.size();
    name = sname = "s" + std::to_string(sid);
    W->servers.push_back(this);
    W->rservers.push_back(this);
    open(trn);
}

// a complete request is answered, also if the new line at its end never comes
static bool bareEnd()
{
    if (!W->rPay.chance(0.12)) return false;
    S->count("probe.request_without_newline");
    return true;
}

// names may be long
static std::string longTail()
{
    if (!W->rPay.chance(0.03)) return "";
    S->count("probe.long_request");
    return std::string((size_t)W->rPay.logTime(200, 9000), 'n');
}

static std::string padding(Rng &r)
{
    if (!r.chance(0.12)) return "";
    static const char *p[] = {"}", "{", "\\n", "}\\n{", "]", "x", "xyz", "0123456789"};
    size_t n = (size_t)r.logTime(100, 9400);
    std::string s;
    while (s.size() + 10 < n) s += p[r.below(8)];
    S->count("probe.long_request");
    return s;
}

void RawServer::up()
{
    if (hello) {
        Expect e;
        e.id = nextId++;
        e.kind = K_HELLO;
        e.what = "Hello";
        expect(e);
        put(request(e, "RemoteProxy.Hello", "{}") + (ws ? "" : "\n"));
    }
    Expect e;
    e.id = nextId++;
    e.kind = K_REGSERVER;
    e.what = "RegisterServer";
    e.uuid = uuid;
    e.reg = regIdx = (int)W->regs.size();
    Reg r;
    r.server = true;
    r.uuid = uuid;
    r.p = this;
    r.conn = conn();
    r.tSend = S->now;
    r.epoch = epoch;
    r.name = regName.empty() ? sname + " {\"}" + longTail() : regName;
    W->regs.push_back(r);
    regPending = true;
    expect(e);
    put(request(e, "TunnelProxy.RegisterServer", "{\"serverName\":" + jsonStr(r.name) + ",\"serverUuid\":" + jsonStr(uuid) + "}") + (ws || bareEnd() ? "" : "\n"));
}

void RawServer::rpc(Expect e, const std::string &method, const std::string &params)
{
    e.id = nextId++;
    expect(e);
    put(slipFrame(0, request(e, method, params) + (W->rPay.chance(0.5) ? "\n" : "")));
}

void RawServer::schedulePing()
{
    Time d = (Time)(pingEvery * (0.6 + 0.4 * W->rPay.unit()));
    S->after(d, [this]() {
        if (!running() || !pinging) return;
        Expect e;
        e.kind = K_PING;
        e.what = "Ping";
        e.pingTs = std::to_string(W->rPay.below(2000000000));
        rpc(e, "TunnelProxy.Ping", "{\"timestamp\":" + e.pingTs + "}");
        schedulePing();
    });
}

void RawServer::onAnswer(const Expect &e, const std::string &err, const QVariantMap &m)
{
    if (e.kind == K_REGSERVER) {
        regPending = false;
        if (err == "NoError") {
            slip = true;
            schedulePing();
        } else rejected = true;
    } else if (e.kind == K_DISC && e.t) {
        // the answer must fit what the address was
        Tunnel *t = e.t;
        bool clientAliveNow = t->conn && t->conn->state == 1 && !t->conn->ep[1].closed && !t->conn->ep[1].rxFin && !t->conn->ep[1].reset && !t->clientEnding;
        if (err == "NoError") {
            S->count("probe.disconnect_client_ok");
            if (t->server == this && t->withdrawn && t->withdrawnAt < e.sentAt) S->violation("disc.ok_for_gone", sname + ": DisconnectClient " + std::to_string(e.addr) + " answered success although that client had been withdrawn before the request");
        } else if (err == "UnknownSocketAddress") {
            if (t->server == this && t->serverLink == linkNo && clientAliveNow)
                S->violation("disc.refused", sname + ": DisconnectClient " + std::to_string(e.addr) + " answered " + err + " although the client is connected");
        } else S->violation("disc.wrong_answer", sname + ": DisconnectClient answered " + err);
    } else if (e.kind == K_DISC) {
        if (err == "NoError") S->violation("disc.ok_for_nobody", sname + ": DisconnectClient " + std::to_string(e.addr) + " answered success for an address none of its clients holds");
        else if (err != "UnknownSocketAddress") S->violation("disc.wrong_answer", sname + ": DisconnectClient answered " + err);
        S->count("probe.disconnect_unknown");
    }
    (void)m;
}

void RawServer::json(const std::string &line)
{
    QJsonParseError pe;
    QJsonDocument d = QJsonDocument::fromJson(QByteArray(line.data(), (int)line.size()), &pe);
    if (pe.error != QJsonParseError::NoError) {
        S->violation("rpc.malformed", sname + ": control data is not JSON: " + hexOf(line, 40));
        return;
    }
    QVariantMap m = d.toVariant().toMap();
    if (m.contains("notification")) {
        QString n = m.value("notification").toString();
        QVariantMap p = m.value("params").toMap();
        if (n == "TunnelProxy.ClientConnected")
            announced(p.value("clientName").toString().toStdString(), p.value("clientUuid").toString().toStdString(), p.value("clientPeerAddress").toString().toStdString(), p.value("socketAddress").toInt());
        else if (n == "TunnelProxy.ClientDisconnected") withdrawn(p.value("socketAddress").toInt());
        else S->violation("rpc.malformed", sname + ": unknown notification " + n.toStdString());
        return;
    }
    handleResponse(m, line);
}

void RawServer::bytes(const std::string &d)
{
    size_t i = 0;
    while (i < d.size()) {
        if (!slip) {
            char c = d[i++];
            if (c == '\n') { std::string l; l.swap(jbuf); json(l); if (slip) S->count("probe.server_slip_started"); }
            else jbuf.push_back(c);
        } else {
            unsigned char c = d[i++];
            if (c != 0xC0) { sbuf.push_back((char)c); continue; }
            if (sbuf.empty()) continue;
            std::string f, e;
            e.swap(sbuf);
            if (!unslip(e, f) || f.size() < 2) { S->violation("slip.malformed", sname + ": frame from the proxy cannot be decoded: " + hexOf(e)); continue; }
            uint16_t a = (uint16_t)((unsigned char)f[0] << 8 | (unsigned char)f[1]);
            std::string body = f.substr(2);
            if (a == 0) {
                // that is how the library tells one message from the next
                if (body.empty() || body.back() != '\n') { S->violation("rpc.malformed", sname + ": a message does not end with a new line: " + hexOf(body, 40)); continue; }
                body.pop_back();
                json(body);
            } else payload(a, body);
        }
    }
}

void RawServer::down(DownKind k)
{
    linkGone();
    Peer::down(k);
}

bool RawServer::dropJustified(std::string &why)
{
    if (Peer::dropJustified(why)) return true;
    Conn *c = conn();
    if (rejected) return true;
    if (registered && S->now - c->lastArrive[1] >= 55 * SEC) return true;
    // dropped for a silence, and its end came while what had been written still went out
    if (registered && c->silenceEnd[1] >= 0 && (c->closedAt[1] >= 0 ? c->closedAt[1] : S->now) - c->silenceEnd[1] <= 6 * SEC + W->slack()) return true;
    // part of a TLS record or of a WebSocket frame is nothing yet
    if (registered && tr != TR_TCP && tr != TR_UNIX && S->now - c->lastWhole >= 55 * SEC) return true;
    // A paused TLS server does not send either: the proxy may have got half a record.
    if (registered && (tr == TR_TLS || tr == TR_WSS) && (paused || (pausedTotalSince > 0 && S->now - pausedTotalSince < 75 * SEC))) return true;
    why = registered ? "" : "unregistered";
    return false;
}

void RawServer::sendDown(Tunnel *t, size_t n, uint64_t how)
{
    // how: cuts into several frames, empty END bytes in between, as one write or several
    std::string out;
    size_t unit = t->text ? 4 : 1;
    if (t->text) n = (n + 3) / 4 * 4;
    size_t left = n;
    int frames = 0;
    while (left) {
        size_t k = left;
        if ((how & 1) && left > unit && frames < 40) k = unit * (1 + W->rPay.below(left / unit));
        if (how & 2) out.push_back((char)0xC0);
        out += slipFrame(t->addr, downData(t, t->downSent, k));
        t->downSent += k;
        left -= k;
        frames++;
        if (how & 4) { put(out); out.clear(); }
    }
    if (!out.empty()) put(out);
}

void RawServer::requestDisconnect(int64_t addr, Tunnel *t)
{
    Expect e;
    e.kind = K_DISC;
    e.what = "DisconnectClient " + std::to_string(addr);
    e.addr = addr;
    e.t = t;
    if (t) t->discRequested = true;
    rpc(e, "TunnelProxy.DisconnectClient", "{\"socketAddress\":" + std::to_string(addr) + "}");
}

void RawServer::frame(const std::string &f) { put(f); }

// ------------------------------------------------------------- raw client

void RawClient::start(Transport trn, const std::string &su, const std::string &cu)
{
    node = cnode = W->newNode("cli");
    cid = (int)W->clients.size();
    suuid = su;
    t = W->newTunnel(su, cu, node, trn);
    t->client = this;
    name = "c" + std::to_string(cid);
    W->clients.push_back(this);
    W->rclients.push_back(this);
    open(trn);
}

void RawClient::up()
{
    t->conn = conn();
    t->epoch = epoch;
    if (hello) {
        Expect e;
        e.id = nextId++;
        e.kind = K_HELLO;
        e.what = "Hello";
        expect(e);
        put(request(e, "RemoteProxy.Hello", "{}") + (ws ? "" : "\n"));
    }
    Expect e;
    e.id = nextId++;
    e.kind = K_REGCLIENT;
    e.what = "RegisterClient";
    e.uuid = t->cuuid;
    e.reg = (int)W->regs.size();
    Reg r;
    r.uuid = t->cuuid;
    r.srv = t->suuid;
    r.p = this;
    r.conn = conn();
    r.tSend = S->now;
    r.epoch = epoch;
    W->regs.push_back(r);
    regPending = true;
    expect(e);
    put(request(e, "TunnelProxy.RegisterClient", "{\"clientName\":" + jsonStr(t->name) + ",\"clientUuid\":" + jsonStr(t->cuuid) + ",\"serverUuid\":" + jsonStr(t->suuid) + "}") + (ws || (upData(t, 0, 1) != "\n" && bareEnd()) ? "" : "\n"));
}

void RawClient::onAnswer(const Expect &e, const std::string &err, const QVariantMap &)
{
    if (e.kind != K_REGCLIENT) return;
    regPending = false;
    if (err == "NoError") {
        raw_ = true;
        t->regOk = true;
        t->regAt = S->now;
    } else rejected = true;
}

void RawClient::bytes(const std::string &d)
{
    size_t i = 0;
    while (i < d.size() && !raw_) {
        char c = d[i++];
        if (c != '\n') { jbuf.push_back(c); continue; }
        std::string l;
        l.swap(jbuf);
        QJsonParseError pe;
        QJsonDocument doc = QJsonDocument::fromJson(QByteArray(l.data(), (int)l.size()), &pe);
        if (pe.error != QJsonParseError::NoError) { S->violation("rpc.malformed", name + ": not JSON: " + hexOf(l, 40)); continue; }
        handleResponse(doc.toVariant().toMap(), l);
    }
    if (i < d.size()) gotDown(d.substr(i));
}

void RawClient::down(DownKind k)
{
    t->clientEnding = true;
    Peer::down(k);
}

bool RawClient::dropJustified(std::string &why)
{
    if (Peer::dropJustified(why)) return true;
    if (rejected || t->discRequested) return true;
    if (t->regOk) {
        if (t->announced) {
            // its server
            if (t->serverLink != t->server->linkNo) return true;
            Conn *c = t->serverConn;
            if (!c || c->ep[0].closed || c->ep[0].reset || c->ep[0].rxFin || c->ep[1].closed || c->ep[1].reset || c->ep[1].rxFin) return true;
            if (!t->server->running()) return true;
            return false;
        }
        bool held = false;
        for (const Reg &r : W->regs)
            if (r.server && r.uuid == t->suuid && W->definitelyHeld(r, t->regAt) && r.conn && !r.conn->ep[0].closed) held = true;
        if (!held) return true;
    }
    if (regPending || t->regOk) {
        // registered, but that server link ended before anything came of it
        for (const Reg &r : W->regs)
            if (r.server && r.uuid == t->suuid && r.epoch == epoch && r.conn && r.conn->state == 1 && (r.conn->ep[0].closed || r.conn->ep[0].reset || r.conn->ep[1].closed || r.conn->ep[1].reset) &&
                (r.conn->closedAt[1] < 0 || r.conn->closedAt[1] >= openedAt)) return true;
    }
    return false;
}

void RawClient::sendUp(size_t n)
{
    if (t->text) n = (n + 3) / 4 * 4;
    std::string d = upData(t, t->upSent, n);
    t->upSent += n;
    put(d);
}

void RawClient::end(int how)
{
    t->clientEnding = true;
    t->downSentAtClose = t->downSent;
    if (how == 0) {
        t->closedGracefully = true;
        t->crossing = t->downRecv != t->downSent || paused;
        endGraceful();
    } else if (how == 1) endAbort();
    else endVanish();
}

// ------------------------------------------------------------- idle peer

void IdlePeer::start(Transport trn, int m, bool plain)
{
    mode = m;
    plainOnTls = plain;
    node = W->newNode("idle");
    name = "i" + std::to_string(W->idles.size());
    W->idles.push_back(this);
    if (plain) {
        tr = trn;
        openWith(makePlain(node, W->tg, trIsWs(trn) ? W->tg.wsPort : W->tg.tcpPort));
    } else open(trn);
}

void IdlePeer::up() { if (mode) S->after(W->rPay.range(100 * MS, 2 * SEC), [this]() { act(); }); }

void IdlePeer::act()
{
    if (isDown || selfEnded) return;
    if (plainOnTls) {
        // bytes that are no TLS handshake, or the beginning of one
        static const char hello[] = "\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03";
        misbehaved = mode == 1;
        st->send(mode == 1 ? std::string("{\"id\":1,\"method\":\"RemoteProxy.Hello\"}\n") : std::string(hello, 3));
        if (mode == 2) return;
    } else if (mode == 1) {
        Expect e;
        e.id = nextId++;
        e.kind = K_HELLO;
        e.what = "Hello";
        expect(e);
        put(request(e, "RemoteProxy.Hello", "{}") + (ws ? "" : "\n"));
    } else if (mode == 2 && !ws) {
        st->send(" "); // never a complete request
    }
    S->after(W->rPay.range(300 * MS, 3 * SEC), [this]() { act(); });
}

void IdlePeer::bytes(const std::string &d)
{
    if (plainOnTls) {
        if (d.find("\"id\"") != std::string::npos) S->violation("tls.clear_answer", name + ": clear text request was answered in clear text on a TLS port");
        return;
    }
    for (char c : d) {
        if (c != '\n') { jbuf.push_back(c); continue; }
        std::string l;
        l.swap(jbuf);
        QJsonDocument doc = QJsonDocument::fromJson(QByteArray(l.data(), (int)l.size()));
        handleResponse(doc.toVariant().toMap(), l);
    }
}

bool IdlePeer::dropJustified(std::string &why)
{
    if (Peer::dropJustified(why)) return true;
    if (plainOnTls && W->ssl) {
        Conn *c = conn();
        Time lim = trIsWs(tr) ? 9 * SEC : 4700 * MS;
        if (S->now - c->acceptedAt >= lim) return true;
        why = "unregistered";
    }
    return false;
}

// ------------------------------------------------------------- scripted JSON-RPC peer

void RpcPeer::start(Transport trn, uint64_t rnd, int n)
{
    node = W->newNode("rpc");
    name = "r" + std::to_string(W->rpcs.size());
    W->rpcs.push_back(this);
    tr = trn;
    r1 = rnd;
    extra = n;
    open(trn);
}

static std::string nastyString(Rng &r)
{
    static const char *p[] = {"}", "{", "\\n", "}\\n{", "\\\"", "\\\\", "\xc3\xa4", "\xe2\x82\xac", "x", "name", "}\\n", "{\\\"id\\\":7}", "\\u0000", "\\u00c0", "]", ":", ","};
    std::string s;
    int n = (int)r.below(5);
    for (int i = 0; i < n; i++) s += p[r.below(sizeof p / sizeof *p)];
    return s;
}

void RpcPeer::build(uint64_t rnd, int n)
{
    Rng r;
    r.seed(rnd, 77);
    bool dead = false;
    auto add = [&](Expect e, const std::string &text) {
        e.optional = dead;
        if (e.kind != K_NONE) expect(e);
        if (ws) wsMsgs.push_back(text);
        else script += text + "\n";
        if (e.kills || e.kind == K_NONE) dead = true;
    };
    for (int i = 0; i < n && !dead; i++) {
        Expect e;
        e.id = (int)r.range(1, 100000);
        std::string id = std::to_string(e.id);
        int kind = (int)r.below(22);
        if (kind < 5) {
            e.kind = K_HELLO;
            e.what = "Hello";
            std::string extraParam = r.chance(0.5) ? "" : "\"x\":" + std::string("\"") + nastyString(r) + "\",";
            // unknown top level members are ignored
            add(e, "{" + extraParam + "\"id\":" + id + ",\"method\":\"RemoteProxy.Hello\"" + (r.chance(0.5) ? ",\"params\":{}" : "") + (r.chance(0.5) ? ",\"y\":\"" + padding(r) + "\"" : "") + "}");
        } else if (kind < 9) {
            e.kind = K_PING;
            e.what = "Ping";
            e.pingTs = std::to_string(r.below(4000000000u));
            add(e, "{\"id\":" + id + ",\"method\":\"TunnelProxy.Ping\",\"params\":{\"timestamp\":" + e.pingTs + "}" + (r.chance(0.4) ? ",\"note\":\"" + nastyString(r) + "\"" : "") + (r.chance(0.3) ? ",\"deep\":{\"a\":{\"b\":{}},\"c\":[{},{\"d\":{}}]}" : "") + "}");
        } else if (kind < 11) {
            e.kind = K_INTROSPECT;
            e.what = "Introspect";
            add(e, "{\"params\":{},\"id\":" + id + ",\"method\":\"RemoteProxy.Introspect\"}");
        } else if (kind < 13) {
            e.kind = K_INVALIDUUID;
            e.what = "RegisterServer";
            add(e, "{\"id\":" + id + ",\"method\":\"TunnelProxy.RegisterServer\",\"params\":{\"serverName\":\"" + nastyString(r) + padding(r) + "\",\"serverUuid\":\"{00000000-0000-0000-0000-000000000000}\"}}");
        } else if (kind < 15) {
            e.kind = K_INVALIDUUID;
            e.what = "RegisterClient";
            std::string good = "{11111111-2222-3333-4444-555555555555}", nul = "{00000000-0000-0000-0000-000000000000}";
            bool first = r.chance(0.5);
            add(e, "{\"id\":" + id + ",\"method\":\"TunnelProxy.RegisterClient\",\"params\":{\"clientName\":\"" + nastyString(r) + "\",\"clientUuid\":\"" + (first ? nul : good) + "\",\"serverUuid\":\"" + (first ? good : nul) + "\"}}");
        } else if (kind == 15) {
            e.kind = K_DISC;
            e.kills = true;
            e.what = "DisconnectClient by a stranger";
            add(e, "{\"id\":" + id + ",\"method\":\"TunnelProxy.DisconnectClient\",\"params\":{\"socketAddress\":1}}");
        } else {
            e.kind = K_ERROR;
            e.kills = true;
            switch (kind) {
            case 16: e.what = "unknown namespace"; add(e, "{\"id\":" + id + ",\"method\":\"Foo" + nastyString(r).substr(0, 0) + ".Hello\",\"params\":{}}"); break;
            case 17: e.what = "unknown method"; add(e, "{\"id\":" + id + ",\"method\":\"TunnelProxy.Nope\",\"params\":{\"a\":{}}}"); break;
            case 18: e.what = "malformed method"; add(e, "{\"id\":" + id + ",\"method\":\"TunnelProxy\"}"); break;
            case 19: e.what = "missing id"; e.id = -1; add(e, "{\"method\":\"RemoteProxy.Hello\"}"); break;
            case 20:
                e.what = "wrong params";
                switch (r.below(4)) {
                case 0: add(e, "{\"id\":" + id + ",\"method\":\"TunnelProxy.RegisterServer\",\"params\":{\"serverName\":\"x\"}}"); break;
                case 1: add(e, "{\"id\":" + id + ",\"method\":\"TunnelProxy.Ping\",\"params\":{\"timestamp\":{}}}"); break;
                case 2: add(e, "{\"id\":" + id + ",\"method\":\"TunnelProxy.Ping\",\"params\":{\"timestamp\":1,\"bogus\":{}}}"); break;
                default: add(e, "{\"id\":" + id + ",\"method\":\"TunnelProxy.DisconnectClient\",\"params\":{}}");
                }
                break;
            default:
                if (r.chance(0.5)) {
                    e.what = "broken JSON";
                    e.id = -1;
                    static const char *b[] = {"{\"id\":1 \"method\":\"RemoteProxy.Hello\"}", "{\"id\":1,\"method\":}", "{]}", "{\"id\":1,\"method\":\"RemoteProxy.Hello\",}"};
                    add(e, b[r.below(4)]);
                } else {
                    e.kind = K_NONE;
                    e.kills = true;
                    e.what = "oversized";
                    // more than 10 KiB without being complete
                    std::string big = "{\"id\":1,\"method\":\"RemoteProxy.Hello\",\"x\":\"";
                    big += std::string(10300 + r.below(9000), 'y');
                    expectClose = true;
                    if (ws) wsMsgs.push_back(big);
                    else script += big;
                    dead = true;
                }
            }
        }
    }
    if (!dead && !ws && !script.empty() && r.chance(0.25)) { script.pop_back(); S->count("probe.request_without_newline"); }
    if (dead && !expectClose) {
        // whatever follows the fatal request must not matter
        if (!ws && r.chance(0.3)) {
            Expect e;
            e.id = 100001;
            e.kind = K_HELLO;
            e.what = "Hello after the end";
            e.optional = true;
            expect(e);
            script += "{\"id\":100001,\"method\":\"RemoteProxy.Hello\"}\n";
        }
    }
}

void RpcPeer::up()
{
    build(r1, extra);
    if (ws) {
        for (auto &m : wsMsgs) put(m + (W->rPay.chance(0.2) ? "\n" : ""));
        scriptDone = true;
    } else put(script);
    if (expectClose) { expectKill = true; expectKillSince = S->now + 2 * SEC; expectSentAt = S->now; misbehaved = true; }
}

void RpcPeer::bytes(const std::string &d)
{
    for (char c : d) {
        if (c != '\n') { jbuf.push_back(c); continue; }
        std::string l;
        l.swap(jbuf);
        QJsonParseError pe;
        QJsonDocument doc = QJsonDocument::fromJson(QByteArray(l.data(), (int)l.size()), &pe);
        if (pe.error != QJsonParseError::NoError) { S->violation("rpc.malformed", name + ": not JSON: " + hexOf(l, 60)); continue; }
        handleResponse(doc.toVariant().toMap(), l);
    }
}

void RpcPeer::down(DownKind k)
{
    // everything before the fatal request must have been answered
    if (!selfEnded && !exemptDrop && epoch == W->epoch && W->proxyUp && k == DK_FIN && !(conn() && conn()->ep[0].reset))
        for (auto &e : pend)
            if (!e.optional && e.kind != K_NONE) {
                std::string why;
                bool idle = conn() && conn()->acceptedAt >= 0 && S->now - conn()->acceptedAt >= (Time)(W->inactiveMs * 0.945) * MS;
                if (!idle && !handshakeLate() && !W->acceptFaults)
                    S->violation("rpc.no_response", name + " (" + trName(tr) + "): connection closed without an answer to " + e.what + " id " + std::to_string(e.id));
                break;
            }
    Peer::down(k);
}

bool RpcPeer::dropJustified(std::string &why)
{
    if (Peer::dropJustified(why)) return true;
    for (auto &e : pend) if (e.kills) return true; // the answer may have been overtaken by a reset
    return false;
}

// ------------------------------------------------------------- hostile peer

void ChaosPeer::start(Transport trn, uint64_t rnd, int m)
{
    r.seed(rnd, 5);
    mode = m;
    left = (int)r.range(1, 14);
    node = W->newNode("chaos");
    name = "x" + std::to_string(W->chaos.size());
    W->chaos.push_back(this);
    misbehaved = true;
    wellBehaved = false;
    tr = trn;
    if (mode == 5 && trn != TR_UNIX) openWith(makePlain(node, W->tg, trIsWs(trn) ? W->tg.wsPort : W->tg.tcpPort));
    else open(trn);
}

// this peer may hold the UUID of an honest server from now on
void ChaosPeer::squat(const std::string &uuid)
{
    Reg q;
    q.server = true;
    q.uuid = normUuid(uuid);
    q.p = this;
    q.conn = conn();
    q.tSend = S->now;
    q.epoch = W->epoch;
    W->regs.push_back(q);
}

std::string ChaosPeer::garbage()
{
    std::string g;
    size_t n;
    std::string su = W->serverUuids.empty() ? "{11111111-2222-3333-4444-555555555555}" : W->serverUuids[r.below(W->serverUuids.size())];
    std::string own = W->newUuid();
    switch (r.below(20)) {
    case 0: n = (size_t)r.logTime(1, 20000); for (size_t i = 0; i < n; i++) g.push_back((char)r.next()); return g;
    case 1: return "{\"id\":1,\"method\":\"RemoteProxy.Hello\"}\n";
    case 2: return "}\n{";
    case 3: return std::string((size_t)r.logTime(1, 30000), '{');
    case 4: return "{\"id\":" + std::to_string((int64_t)r.next()) + ",\"method\":\"TunnelProxy.Ping\",\"params\":{\"timestamp\":-1}}\n";
    case 5: return "{\"id\":2,\"method\":\"TunnelProxy.RegisterServer\",\"params\":{\"serverName\":\"evil\",\"serverUuid\":\"" + own + "\"}}\n";
    case 6:
        squat(su);
        return "{\"id\":3,\"method\":\"TunnelProxy.RegisterServer\",\"params\":{\"serverName\":\"evil\",\"serverUuid\":\"" + su + "\"}}\n";
    case 7: return "{\"id\":4,\"method\":\"TunnelProxy.DisconnectClient\",\"params\":{\"socketAddress\":" + std::to_string(r.below(4)) + "}}\n";
    case 8: return slipFrame(0, "{\"id\":5,\"method\":\"TunnelProxy.DisconnectClient\",\"params\":{\"socketAddress\":" + std::to_string(r.below(4)) + "}}\n");
    case 9: return slipFrame((uint16_t)r.below(5), std::string((size_t)r.below(200), 'Z'));
    case 10: return slipFrame((uint16_t)r.next(), "x");
    case 11: { std::string s = "\xdb\x41\xc0"; s += "\xc0\xc0\xdb\xc0"; return s; }
    case 12: { std::string s(1, '\xc0'); s += std::string(1, (char)r.next()); s += '\xc0'; return s; } // one byte frame
    case 13: return slipFrame(0, "garbage {");
    case 14: return slipFrame(0, "{\"id\":6,\"method\":\"TunnelProxy.RegisterServer\",\"params\":{\"serverName\":\"evil\",\"serverUuid\":\"" + own + "\"}}\n");
    case 15: return "{\"id\":7,\"method\":\"RemoteProxy.registerHandler\",\"params\":{}}\n{\"id\":8,\"method\":\"RemoteProxy.deleteLater\"}\n";
    case 16: return "[1,2,3]\n[{}]\n";
    case 17: { std::string s = "{\"id\":1,\"method\":\"RemoteProxy.Hello\",\"params\":"; for (int i = 0; i < 2000; i++) s += "{\"a\":"; return s + "1" + std::string(2001, '}') + "\n"; }
    case 18: return "{\"id\":9,\"method\":\"TunnelProxy.RegisterClient\",\"params\":{\"clientName\":\"evil\",\"clientUuid\":\"" + own + "\",\"serverUuid\":\"{99999999-2222-3333-4444-555555555555}\"}}\n";
    default: return std::string("\0\0\0\0", 4) + std::string((size_t)r.below(100), '\xff');
    }
}

void ChaosPeer::up() { act(); }

void ChaosPeer::act()
{
    if (isDown || selfEnded) return;
    if (left-- <= 0) {
        switch (r.below(4)) {
        case 0: endGraceful(); break;
        case 1: endAbort(); break;
        case 2: endVanish(); break;
        default: setPaused(true); break;
        }
        return;
    }
    S->count("probe.hostile_message");
    std::string g = garbage();
    if (mode == 1) { // behaves like a server first
        mode = 2;
        g = "{\"id\":2,\"method\":\"TunnelProxy.RegisterServer\",\"params\":{\"serverName\":\"evil\",\"serverUuid\":\"" + W->newUuid() + "\"}}\n";
    }
    if (mode == 3 && ws) { // WebSocket level nonsense
        switch (r.below(6)) {
        case 0: ws->sendBinary(g); break;
        case 1: ws->sendRaw(g); break;
        case 2: ws->sendRaw(std::string("\x81\x05hello", 7)); break;      // unmasked
        case 3: ws->sendRaw(std::string("\x81\xff\x7f\xff\xff\xff\xff\xff\xff\xff", 10)); break; // absurd length
        case 4: ws->sendRaw(std::string("\x89\xfe\x01\x00", 4)); break;  // oversized control frame
        default: ws->send(g);
        }
    } else st->send(g);
    S->after(r.logTime(MS, 2 * SEC), [this]() { act(); });
}

void ChaosPeer::bytes(const std::string &d)
{
    in += d;
    if (in.size() > 100000) in.erase(0, 50000);
    // nothing of anybody else's tunnel may come here
    for (Tunnel *t : W->tunnels) {
        if (t->downSent >= 16 && d.size() >= 16) {
            std::string w = downData(t, t->downSent - 16, 16);
            if (d.find(w) != std::string::npos) S->violation("crosstalk.down", name + ": got payload of tunnel " + std::to_string(t->id));
        }
    }
}

// ------------------------------------------------------------- monitor peer

void MonitorPeer::start()
{
    node = W->newNode("mon");
    name = "m" + std::to_string(W->monitors.size());
    W->monitors.push_back(this);
    tr = TR_UNIX;
    Target t;
    t.unixPath = W->monitorPath;
    openWith(makeStream(TR_UNIX, node, t));
}

static std::string refreshText(int how, uint64_t r)
{
    std::string s;
    if (how == 0) s = r % 2 ? "{\"method\":\"refresh\"}" : "{ \"method\": \"refresh\", \"params\": {} }";
    else s = std::string("{\"method\":\"refresh\",\"params\":{\"printAll\":") + (how == 2 ? "true" : "false") + "}}";
    Rng x;
    x.seed(r, 31);
    std::string pad = padding(x);
    if (!pad.empty()) s = s.substr(0, s.size() - 1) + ",\"note\":\"" + pad + "\"}";
    return s + "\n";
}

void MonitorPeer::refresh(int how)
{
    if (isDown || selfEnded || !st) return;
    reqs.push_back(Req{S->now, how == 2});
    put(refreshText(how, W->rPay.next()));
}

void MonitorPeer::refreshMany(int n, uint64_t rnd)
{
    std::string all;
    Rng r;
    r.seed(rnd);
    for (int i = 0; i < n; i++) {
        int how = (int)r.below(3);
        reqs.push_back(Req{S->now, how == 2});
        all += refreshText(how, r.next());
    }
    put(all);
}

void MonitorPeer::bytes(const std::string &d)
{
    for (char c : d) {
        if (c != '\n') { buf.push_back(c); continue; }
        std::string l;
        l.swap(buf);
        QJsonParseError pe;
        QJsonDocument doc = QJsonDocument::fromJson(QByteArray(l.data(), (int)l.size()), &pe);
        if (pe.error != QJsonParseError::NoError) { S->violation("monitor.malformed", name + ": " + l.substr(0, 80)); continue; }
        if (bad) continue;
        if (reqs.empty()) { S->violation("monitor.extra", name + ": an answer without a request"); continue; }
        Req q = reqs.front();
        reqs.pop_front();
        answers++;
        W->progress++;
        last = doc.toVariant().toMap();
        haveLast = true;
        lastAll = q.printAll;
        lastAt = S->now;
        if (!last.contains("tunnelProxyStatistic") || !last.contains("serverName") || last.value("serverName").toString() != QString::fromStdString(W->serverName))
            S->violation("monitor.malformed", name + ": incomplete document " + l.substr(0, 80));
        QVariantMap st = last.value("tunnelProxyStatistic").toMap();
        QVariantList tc = st.value("tunnelConnections").toList();
        int clients = 0;
        for (const QVariant &v : tc) {
            QVariantMap s = v.toMap();
            QVariantList cl = s.value("clientConnections").toList();
            clients += cl.size();
            if (!q.printAll && cl.isEmpty()) S->violation("monitor.filter", name + ": a server without clients was listed although only active ones were asked for");
        }
        if (W->onMonitorAnswer) W->onMonitorAnswer(this, q, last);
        if (q.printAll && tc.size() != st.value("serverConnectionsCount").toInt())
            S->violation("monitor.inconsistent", name + ": lists " + std::to_string(tc.size()) + " servers, counts " + std::to_string(st.value("serverConnectionsCount").toInt()));
    }
}

bool MonitorPeer::dropJustified(std::string &why)
{
    if (selfEnded || bad || epoch != W->epoch || !W->proxyUp) return true;
    if (W->acceptFaults || (conn() && conn()->acceptedAt < 0)) return true;
    why = "";
    return false;
}

// ------------------------------------------------------------- world

double World::knob(const std::string &n, double lo, double hi)
{
    double v = lo + (hi - lo) * rKnob.unit();
    auto it = over.find(n);
    if (it != over.end()) v = it->second;
    drawn[n] = v;
    return v;
}

int World::knobi(const std::string &n, int lo, int hi)
{
    int v = (int)rKnob.range(lo, hi);
    auto it = over.find(n);
    if (it != over.end()) v = (int)it->second;
    drawn[n] = v;
    return v;
}

bool World::coin(const std::string &n, double p)
{
    bool v = rKnob.chance(p);
    auto it = over.find(n);
    if (it != over.end()) v = it->second != 0;
    drawn[n] = v;
    return v;
}

Node *World::newNode(const std::string &n)
{
    int k = nextNode++;
    return S->addNode(n + std::to_string(k), ipv4(10, 1 + k / 60000, (k / 250) % 240 + 1, k % 250 + 1));
}

std::string World::newUuid()
{
    unsigned char b[16];
    for (int i = 0; i < 16; i += 8) { uint64_t v = rUuid.next(); memcpy(b + i, &v, 8); }
    b[6] = (b[6] & 0x0f) | 0x40;
    b[8] = (b[8] & 0x3f) | 0x80;
    char s[48];
    snprintf(s, sizeof s, "{%02x%02x%02x%02x-%02x%02x-%02x%02x-%02x%02x-%02x%02x%02x%02x%02x%02x}", b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7], b[8], b[9], b[10], b[11], b[12], b[13], b[14], b[15]);
    return s;
}

Tunnel *World::newTunnel(const std::string &su, const std::string &cu, Node *n, Transport tr)
{
    Tunnel *t = new Tunnel;
    t->id = nextTunnel++;
    t->key = mixKey(seed, 1000 + t->id);
    t->text = trIsWs(tr);
    t->suuid = su;
    t->cuuid = cu;
    static const char *suffix[] = {"", " }", " }\n{", " \"q\"", " {\"id\":0}", " \xc3\xa4\xe2\x82\xac", " \\", " end}"};
    t->name = "client-" + std::to_string(t->id) + suffix[rPay.below(8)];
    t->ip = tr == TR_UNIX ? "127.0.0.1" : ipStr(n->ip);
    t->epoch = epoch;
    tunnels.push_back(t);
    byName[t->name] = t;
    return t;
}

void World::note(const char *fmt, ...)
{
    char b[600];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    char h[64];
    snprintf(h, sizeof h, "%.6f ", S->now / 1e9);
    if (log.size() < 400) log.push_back(std::string(h) + b);
    S->trace("OP %s", b);
}

void World::state(const std::string &abstract)
{
    S->states.insert(std::hash<std::string>()(abstract));
}

Transport World::pickTransport(uint64_t r, bool forServer)
{
    if (transports != 7) {
        std::vector<Transport> v;
        if (transports & 4) v.push_back(TR_UNIX);
        if (transports & 1) v.push_back(ssl ? TR_TLS : TR_TCP);
        if ((transports & 2) && !forServer) v.push_back(ssl ? TR_WSS : TR_WS);
        return v.empty() ? TR_UNIX : v[r % v.size()];
    }
    if (forServer) return r % 3 == 0 ? TR_UNIX : (ssl ? TR_TLS : TR_TCP);
    switch (r % 4) {
    case 0: return TR_UNIX;
    case 1: return ssl ? TR_WSS : TR_WS;
    default: return ssl ? TR_TLS : TR_TCP;
    }
}

void World::writeConfig(const std::string &path, bool sslOn, int inactive, uint16_t tcp, uint16_t ws)
{
    FILE *f = fopen(path.c_str(), "w");
    const char *certs = getenv("SIM_CERTS");
    fprintf(f, "[ProxyServer]\nname=\"sim proxy \\\"x\\\" {1}\"\nwriteLogs=false\nlogFile=%s/log\nlogEngineEnabled=false\nmonitorSocket=%s\njsonRpcTimeout=10000\ninactiveTimeout=%d\n\n"
               "[SSL]\nenabled=%s\ncertificate=%s/test-certificate.crt\ncertificateKey=%s/test-certificate.key\ncertificateChain=\n\n"
               "[UnixSocketServerTunnelProxy]\nunixSocketFileName=%s\n\n[WebSocketServerTunnelProxy]\nhost=0.0.0.0\nport=%d\n\n[TcpServerTunnelProxy]\nhost=0.0.0.0\nport=%d\n",
            dir.c_str(), monitorPath.c_str(), inactive, sslOn ? "true" : "false", certs, certs, tg.unixPath.c_str(), ws, tcp);
    fclose(f);
}

void World::startProxy() { startEngine(); }

void World::startEngine(const std::string &name)
{
    NodeScope sc(S->proxy);
    tg.ip = S->proxy->ip;
    std::string cf = dir + "/" + name;
    writeConfig(cf, ssl, inactiveMs, tg.tcpPort, tg.wsPort);
    Engine *e = Engine::instance();
    App::setRoot(e, S->proxy);
    ProxyConfiguration *c = new ProxyConfiguration(e);
    if (!c->loadConfiguration(QString::fromStdString(cf))) { fprintf(stderr, "configuration not accepted\n"); _exit(3); }
    epoch++;
    proxyChangedAt = S->now;
    proxyUp = true;
    e->start(c);
}

void World::stopProxy()
{
    NodeScope sc(S->proxy);
    proxyUp = false;
    proxyChangedAt = S->now;
    if (Engine::exists()) {
        Engine *e = Engine::instance();
        e->stop();
        e->destroy();
        App::dropRoot(e);
    }
}

void World::crashProxy(bool silent)
{
    S->count(silent ? "fault.proxy_power_loss" : "fault.proxy_crash");
    S->crashNode(S->proxy, silent);
    proxyUp = false;
    proxyChangedAt = S->now;
    NodeScope sc(S->proxy);
    // only memory is cleaned up: every descriptor of that process is dead
    if (Engine::exists()) {
        Engine *e = Engine::instance();
        e->stop();
        e->destroy();
        App::dropRoot(e);
    }
}

void World::defaultNet()
{
    NetKnobs &n = S->net;
    bool calm = coin("calm", 0.2);
    n.latMin = 20 * US;
    n.latMax = (Time)knob("latMax_ms", 0.1, 40) * MS + 30 * US;
    n.jitter = calm ? 0 : knob("jitter", 0, 0.6);
    n.jitterMax = (Time)(knob("jitterMax_ms", 0.1, 120) * MS);
    n.chunkMode = knobi("chunkMode", 0, 4);
    n.gapProb = knob("gapProb", 0, 1);
    n.coalesce = coin("coalesce", 0.3) ? knob("coalesceP", 0.2, 1) : 0;
    bool small = coin("smallBuffers", 0.3);
    double cap = knob("capKiB", 1, 12);
    n.capMin = small ? (size_t)(cap * 1024 / 2) : 65536;
    n.capMax = small ? (size_t)(cap * 1024 * 2) : 262144;
    if (!small && coin("hugeBuffers", 0.15)) { n.capMin = 1 << 20; n.capMax = 6 << 20; }
    bool sysFaults = coin("sysFaults", 0.5);
    n.shortWrite = sysFaults ? knob("shortWrite", 0, 0.3) : 0;
    n.spuriousAgain = sysFaults ? knob("spuriousAgain", 0, 0.1) : 0;
    n.shortRead = sysFaults ? knob("shortRead", 0, 0.3) : 0;
    n.eintr = sysFaults ? knob("eintr", 0, 0.1) : 0;
    SchedKnobs &s = S->sched;
    s.posted = coin("postedLate", 0.4) ? knob("posted", 0.1, 1) : 0.95;
    s.pickMode = knobi("pickMode", 0, 3);
    s.coarse = coin("coarse", 0.5) ? 0.05 : 0;
    s.costMin = US;
    s.costMax = (Time)knob("cost_us", 2, 200) * US;
    if (coin("slow", 0.2)) { s.slowProb = knob("slowProb", 0, 0.05); s.slowMax = (Time)(knob("slowMax_ms", 1, 300) * MS); }
}

void World::periodic()
{
    for (Peer *p : peers) {
        Conn *c = p->conn();
        if (!c || p->epoch != epoch || !proxyUp || p->node->blocked || S->proxy->blocked) continue;
        if (S->proxy->stalledUntil > S->now || c->ep[1].closed || c->state != 1 || c->acceptedAt < 0) continue;
        bool reading = !p->paused && !p->selfVanished;
        // a tenth of a second may pass between a deadline and the activation that serves it
        bool asked = !p->expectSentAt || c->lastAll >= p->expectSentAt; // the request has arrived
        if (p->expectKill && asked && reading && !p->selfEnded && S->now - std::max(p->expectKillSince, p->expectSentAt ? c->lastAll : 0) > 6 * SEC + slack() && S->used(c, 1) == 0)
            S->violation("rpc.not_closed", p->name + " (" + p->kindName() + ", " + trName(p->tr) + "): the proxy answered with an error that ends the connection " + std::to_string((S->now - p->expectKillSince) / SEC) + " s ago and still holds it");
        if (p->registered && !p->selfEnded && dynamic_cast<RawServer *>(p) && S->now - c->lastArrive[1] > (Time)(68.5 * SEC) + slack() && reading)
            S->violation("timeout.silent_server_kept", p->name + ": nothing arrived for " + std::to_string((S->now - c->lastArrive[1]) / SEC) + " s and the server is still connected");
        if (p->registered && p->selfVanished && dynamic_cast<RawServer *>(p) && S->now - c->lastArrive[1] > 80 * SEC + slack())
            S->violation("timeout.dead_server_kept", p->name + ": nothing arrived for " + std::to_string((S->now - c->lastArrive[1]) / SEC) + " s and the proxy still holds the connection of the dead server");
        if (!p->registered && !p->regPending && p->isUp && reading && !dynamic_cast<MonitorPeer *>(p) && !dynamic_cast<ChaosPeer *>(p) && !p->expectKill) {
            IdlePeer *ip = dynamic_cast<IdlePeer *>(p);
            Time base = std::max(p->upAt, c->acceptedAt);
            Time lim = (Time)(inactiveMs * 1.055) * MS;
            if (ip && ip->plainOnTls && ssl) {
                base = c->acceptedAt;
                lim = trIsWs(p->tr) ? 11 * SEC : 5300 * MS;
            }
            else if (p->tr == TR_TLS || p->tr == TR_WSS) {
                // the proxy is done with the handshake when the end of it has arrived
                if (c->upWhole < 0) lim += 5300 * MS;
                else base = std::max(base, c->upWhole);
            }
            if (S->now - base > lim + 700 * MS + slack())
                S->violation(ip && ip->plainOnTls ? "timeout.handshake_kept" : "timeout.idle_kept", p->name + " (" + trName(p->tr) + "): not registered for " + std::to_string((S->now - base) / MS) + " ms and still connected");
        }
    }
    for (Tunnel *t : tunnels) {
        if (!t->announced || t->epoch != epoch || !proxyUp || !t->conn || !t->serverConn) continue;
        Conn *c = t->conn, *s = t->serverConn;
        if (s->closedAt[1] >= 0 && S->now - s->closedAt[1] > 15 * SEC + slack() && c->acceptedAt >= 0 && !c->ep[1].closed && c->state == 1 && !S->proxy->blocked && S->proxy->stalledUntil <= S->now)
            S->violation("orphan.client", "tunnel " + std::to_string(t->id) + ": its server is gone for " + std::to_string((S->now - s->closedAt[1]) / SEC) + " s and the proxy still holds the client's connection");
    }
    S->after(SEC, [this]() { periodic(); });
}

void World::beginQuiesce()
{
    if (quiescing) return;
    quiescing = true;
    quiesceStart = S->now;
    S->trace("---- faults stop");
    S->faultsOn = false;
    for (auto &n : S->nodes) {
        S->setBlocked(n.get(), false);
        n->netDown = false;
        n->failSocket = false;
        n->fdLimit = 1 << 20;
        if (n->stalledUntil > S->now && n->stalledUntil < S->now + 50000 * SEC) n->stalledUntil = S->now;
    }
    for (Conn &c : S->conns) {
        S->setConnBlocked(&c, false);
        for (size_t &k : c.cap) k = std::max<size_t>(k, 65536); // what is queued must get through
    }
    S->net.chunkMode = 0;
    S->net.gapProb = 0;
    S->hurry();
    S->net.capMin = std::max<size_t>(S->net.capMin, 65536);
    S->net.capMax = std::max<size_t>(S->net.capMax, 65536);
    for (Peer *p : peers) p->drip = 0;
    for (Peer *p : peers) if (p->paused) p->setPaused(false);
    lastProgress = progress;
    lastProgressAt = S->now;
    pollQuiesce();
}

void World::pollQuiesce()
{
    if (progress != lastProgress) { lastProgress = progress; lastProgressAt = S->now; }
    // a slow connection on which much is under way towards the proxy
    for (Conn &c : S->conns)
        if (c.state == 1 && c.pipe[0].inflightBytes > 1000 && c.ep[1].node == S->proxy && !c.ep[1].closed && proxyUp) { lastProgressAt = S->now; break; }
    bool quiet = S->now - lastProgressAt >= quietSpan || S->now - quiesceStart > quiesceCap;
    if (quiet || probing) {
        if (finalReady && !finalReady()) {
            probing = true;
            S->after(250 * MS, [this]() { pollQuiesce(); });
            return;
        }
        if (finalChecks) finalChecks();
        if (atEnd) { atEnd(); return; }
        S->finished = true;
        QCoreApplication::exit(0);
        return;
    }
    S->after(250 * MS, [this]() { pollQuiesce(); });
}

void World::tunnelFinal()
{
    for (Tunnel *t : tunnels) {
        RawClient *rcl = dynamic_cast<RawClient *>(t->client);
        std::string who = "tunnel " + std::to_string(t->id) + " (" + t->name + ", " + (rcl ? trName(rcl->tr) : "library") + ")";
        Conn *c = t->conn;
        if (t->epoch != epoch || !proxyUp || !c || t->excused) continue;
        bool clientAlive = c->state == 1 && !t->clientEnding && !c->ep[0].closed && !c->ep[0].reset && !c->ep[1].closed && !c->ep[1].reset && !c->ep[0].rxFin && !c->ep[1].rxFin;
        bool proxyHoldsClient = c->state == 1 && !c->ep[1].closed;
        if (!t->announced) {
            if (!t->regOk || !clientAlive) continue;
            for (ServerSide *s : servers)
                if (s->uuid == t->suuid && s->linkAlive())
                    S->violation("announce.never", who + " is connected, its server was never told");
            continue;
        }
        ServerSide *s = t->server;
        bool serverAlive = s->linkNo == t->serverLink && s->linkAlive();
        if (!serverAlive) {
            if (proxyHoldsClient && (!s->link() || s->linkNo != t->serverLink || s->link()->ep[1].closed))
                S->violation("orphan.client", who + ": the proxy still holds the client's connection, its server is gone");
            continue;
        }
        if (t->regOk && clientAlive && !t->withdrawn) {
            char b[200];
            if (t->upRecv != t->upSent) {
                snprintf(b, sizeof b, "%s: client sent %llu bytes, server got %llu, both connected", who.c_str(), (unsigned long long)t->upSent, (unsigned long long)t->upRecv);
                S->violation("lost.up", b);
            }
            if (t->downRecv != t->downSent && !t->downTainted) {
                snprintf(b, sizeof b, "%s: server sent %llu bytes, client got %llu, both connected", who.c_str(), (unsigned long long)t->downSent, (unsigned long long)t->downRecv);
                S->violation("lost.down", b);
            }
        }
        if (!t->withdrawn && !proxyHoldsClient) S->violation("withdraw.never", who + ": the client is gone, its server was never told");
        if (t->withdrawn && clientAlive) S->violation("withdraw.alive", who + ": withdrawn at its server, but the client is still connected");
        RawClient *rc = dynamic_cast<RawClient *>(t->client);
        // the WebSocket layer of the proxy gives up on half a frame after five seconds
        bool halfFrame = rc && trIsWs(rc->tr) && rc->unsentAtClose && rc->conn() && rc->conn()->closedAt[1] - rc->conn()->acceptedAt >= 4500 * MS;
        if (rc && rc->ws && rc->ws->gaveUp) halfFrame = true;
        if (t->withdrawn && t->closedGracefully && !t->cutOff && !halfFrame && t->regOk && !t->crossing && t->downSent == t->downSentAtClose && !t->discRequested && t->upRecv != t->upSent) {
            char b[200];
            snprintf(b, sizeof b, "%s: client sent %llu bytes and closed, server got %llu", who.c_str(), (unsigned long long)t->upSent, (unsigned long long)t->upRecv);
            S->violation("lost.up_close", b);
        }
        if (t->discRequested && clientAlive && !t->withdrawn) S->violation("disc.ignored", who + ": its server asked for the disconnect, it is still connected");
    }
    for (MonitorPeer *m : monitors)
        if (m->linkAlive() && !m->bad && !m->reqs.empty() && S->now - m->reqs.front().t > 10 * SEC + slack())
            S->violation("monitor.no_answer", m->name + ": a refresh request was not answered");
    for (Peer *p : peers) {
        if (p->epoch != epoch || !p->linkAlive()) continue;
        for (auto &e : p->pend)
            if (!e.optional && e.kind != K_NONE && p->outq.empty() && S->now - e.sentAt > 10 * SEC + slack()) {
                S->violation("rpc.no_response", p->name + " (" + p->kindName() + ", " + trName(p->tr) + "): no answer to " + e.what + " id " + std::to_string(e.id));
                break;
            }
    }
}

void World::run(std::vector<Op> o, Time end)
{
    ops = std::move(o);
    S->onMarkClosed = [this](Endpoint *e) {
        if (e->side != 1 || e->node != S->proxy) return;
        for (Peer *p : peers) if (p->conn() == e->conn) p->unsentAtClose = p->st->unsent();
    };
    S->onArrive = [this](Endpoint *e) {
        Conn *c = e->conn;
        if (e->side != 1 || !c->pipe[0].inflight.empty()) return;
        if (!c->owner) for (Peer *p : peers) if (p->conn() == c) c->owner = p;
        Peer *p = (Peer *)c->owner;
        if (p && p->st && p->st->unsent() <= e->avail()) {
            if (c->lastWhole >= 0 && S->now - c->lastWhole >= 55 * SEC) c->silenceEnd[1] = S->now;
            c->lastWhole = S->now;
            if (p->outq.empty()) c->lastAll = S->now;
            if (p->isUp && c->upWhole < 0) c->upWhole = S->now;
        }
    };
    for (size_t i = 0; i < ops.size(); i++) {
        if (dropped.count((int)i)) continue;
        Op op = ops[i];
        S->at(op.t, [this, op]() { if (!quiescing) exec(op); });
    }
    S->after(SEC, [this]() { periodic(); });
    S->at(end, [this]() { beginQuiesce(); });
}

} // namespace sim
