// The monitor tool's client (monitor/monitorclient.cpp) against the real monitor
// endpoint: every document exactly once, as soon as it is complete.
#include "profiles.h"
#include "engine.h"
#include "monitorclient.h"
#include <algorithm>

namespace sim {

struct ToolClient {
    std::string name;
    Node *node = nullptr;
    MonitorClient *mc = nullptr;
    bool wanted = true;          // the tool wants to be connected
    bool connected = false;
    Conn *conn = nullptr;
    std::string sent;            // by the proxy on this connection
    size_t scanned = 0;          // of what the tool has read
    std::vector<std::pair<size_t, size_t>> docs; // complete in what it has read
    size_t reported = 0;
    uint64_t requests = 0;
    bool gone = false;
    bool retry = false;
};
static std::vector<ToolClient *> g_tools;

static size_t consumed(const ToolClient *t)
{
    const Conn *c = t->conn;
    return (size_t)(c->pipe[1].total - c->pipe[1].inflightBytes - c->ep[0].avail());
}

static void scan(ToolClient *t)
{
    if (!t->conn || t->conn->ep[0].closed) return;
    size_t n = consumed(t), start = t->docs.empty() ? 0 : t->docs.back().second + 1;
    for (; t->scanned < n && t->scanned < t->sent.size(); t->scanned++)
        if (t->sent[t->scanned] == '\n') { t->docs.push_back({start, t->scanned}); start = t->scanned + 1; }
}

static void checkTool(ToolClient *t)
{
    if (t->gone || !t->conn || t->conn->ep[0].closed) return;
    scan(t);
    if (t->reported < t->docs.size()) {
        S->violation("moncli.missing", t->name + ": " + std::to_string(t->docs.size()) + " documents are complete, " + std::to_string(t->reported) + " reported");
        t->gone = true;
    }
}

static void tryConnect(ToolClient *t)
{
    t->retry = false;
    if (!t->wanted || t->connected) return;
    NodeScope sc(t->node);
    t->mc->connectMonitor();
    if (!t->connected && !t->retry) {
        t->retry = true;
        S->after(W->rPay.range(20 * MS, 900 * MS), [t]() { tryConnect(t); });
    }
}

static void onConnected(ToolClient *t)
{
    t->connected = true;
    t->conn = t->node->lastConn;
    t->sent.clear();
    t->scanned = 0;
    t->docs.clear();
    t->reported = 0;
    t->requests = 0;
    W->progress++;
    S->count("probe.tool_connected");
}

static void onDisconnected(ToolClient *t)
{
    t->connected = false;
    if (t->conn && t->reported < t->docs.size()) checkTool(t);
    t->conn = nullptr;
    if (t->wanted && !t->retry) {
        t->retry = true;
        S->after(W->rPay.range(1 * MS, 900 * MS), [t]() { tryConnect(t); });
    }
}

static void onDoc(ToolClient *t, const QVariantMap &m)
{
    W->progress++;
    S->count("probe.tool_document");
    scan(t);
    if (t->reported >= t->docs.size()) {
        S->violation("moncli.extra", t->name + ": reports a document, " + std::to_string(t->docs.size()) + " are complete and " + std::to_string(t->reported) + " have been reported");
        t->gone = true;
        return;
    }
    auto d = t->docs[t->reported++];
    std::string line = t->sent.substr(d.first, d.second - d.first);
    QVariantMap e = QJsonDocument::fromJson(QByteArray::fromStdString(line)).toVariant().toMap();
    if (e != m || e.isEmpty()) S->violation("moncli.wrong", t->name + ": reported something else than the proxy sent: " + line.substr(0, 160));
    // the answer belongs to this request's question
    W->state("tool " + std::to_string(std::min<size_t>(line.size() / 512, 40)) + " " + std::to_string(std::min<size_t>(t->docs.size() - t->reported, 4)));
}

static ToolClient *newTool(bool all)
{
    ToolClient *t = new ToolClient;
    t->name = "tool" + std::to_string(g_tools.size());
    t->node = W->newNode(t->name);
    NodeScope sc(t->node);
    t->mc = new MonitorClient(QString::fromStdString(W->monitorPath), false);
    App::setRoot(t->mc, t->node);
    t->mc->setPrintAll(all);
    QObject::connect(t->mc, &MonitorClient::connected, t->mc, [t]() { onConnected(t); });
    QObject::connect(t->mc, &MonitorClient::disconnected, t->mc, [t]() { onDisconnected(t); });
    QObject::connect(t->mc, &MonitorClient::dataReady, t->mc, [t](const QVariantMap &m) { onDoc(t, m); });
    g_tools.push_back(t);
    tryConnect(t);
    return t;
}

static void ask(ToolClient *t, int n)
{
    NodeScope sc(t->node);
    for (int i = 0; i < n; i++) {
        if (t->connected && t->conn && !t->conn->ep[0].closed) t->requests++;
        t->mc->refresh();
    }
}

static bool execTool(const Op &op)
{
    ToolClient *t = g_tools.empty() ? nullptr : g_tools[op.a % g_tools.size()];
    switch (op.kind) {
    case O_MC_START: newTool(op.b % 2); return true;
    case O_MC_REFRESH: if (t) ask(t, op.b % 3 ? 1 : 1 + (int)(op.c % 12)); return true;
    case O_MC_CYCLE:
        if (!t || !t->connected) return true;
        W->note("%s disconnects%s", t->name.c_str(), op.b % 2 ? " and connects at once" : "");
        S->count("fault.tool_disconnects");
        {
            NodeScope sc(t->node);
            t->wanted = op.b % 2;
            if (op.c % 2) ask(t, 1 + (int)(op.c % 4)); // in the middle of an answer, if it comes that fast
            t->mc->disconnectMonitor();
            if (op.b % 2) tryConnect(t);
            else if (op.b % 4 == 2) S->after(W->rPay.range(MS, SEC), [t]() { t->wanted = true; tryConnect(t); });
        }
        return true;
    case O_MC_RESTART:
        if (!W->proxyUp || S->proxy->stalledUntil > S->now) return true;
        W->note("the proxy %s", op.b % 3 ? "crashes" : "stops");
        if (op.b % 3) W->crashProxy(false); else W->stopProxy();
        S->after((Time)(op.c % 1500) * MS, []() { if (!W->proxyUp) W->startProxy(); });
        return true;
    }
    return false;
}

static int g_toolPhase;
static Time g_toolSince;

static bool toolsDone()
{
    if (!W->proxyUp) W->startProxy();
    if (!probesDone()) return false;
    if (g_toolPhase == 0) { // each one gets through in the end
        for (ToolClient *t : g_tools) { t->wanted = true; tryConnect(t); }
        g_toolPhase = 1;
        g_toolSince = S->now;
        return false;
    }
    if (S->now - g_toolSince < 3 * SEC) return false;
    if (g_toolPhase == 1) {
        for (ToolClient *t : g_tools) {
            if (!t->connected) S->violation("moncli.no_connection", t->name + " is not connected 3 s after the proxy is there again");
            ask(t, 3);
        }
        g_toolPhase = 2;
        g_toolSince = S->now;
        return false;
    }
    for (ToolClient *t : g_tools)
        if (t->connected && !t->gone && t->reported != t->requests)
            S->violation("moncli.no_answer", t->name + " asked " + std::to_string(t->requests) + " times on this connection and reported " + std::to_string(t->reported) + " documents");
    return true;
}

void setupMonTool()
{
    basicSetup(0.1);
    Time end = (Time)(W->knob("spanS", 0.5, 12) * SEC);
    std::vector<Gen> mix = {{O_MC_REFRESH, 14}, {O_MC_START, 1}, {O_MC_CYCLE, 2.5}, {O_MC_RESTART, 0.7}, {O_SERVER, 2}, {O_CLIENT, 5}, {O_UP, 2}, {O_DOWN, 2}, {O_CLIENT_END, 1}, {O_SERVER_RECONN, 1}, {O_STALL, 0.7}, {O_CHURN, 0.5}, {O_CHAOS, 0.5}};
    std::vector<Op> ops = genOps(mix, W->knobi("nOps", 8, 80), 50 * MS, end);
    addInitial(ops, W->knobi("servers", 0, 6), W->knobi("clients", 0, 25), 50 * MS);
    for (int i = 0, n = W->knobi("tools", 1, 3); i < n; i++) {
        Op o;
        o.kind = O_MC_START;
        o.t = W->rOps.range(MS, 60 * MS);
        o.b = W->rOps.next();
        ops.push_back(o);
    }
    std::stable_sort(ops.begin(), ops.end(), [](const Op &a, const Op &b) { return a.t < b.t; });
    go(ops, end + SEC);
    W->exec = [](const Op &op) { S->count("ops"); if (!execTool(op)) execCommon(op); };
    W->finalReady = toolsDone;
    auto sends = S->onSend;
    S->onSend = [sends](Endpoint *e, const char *d, size_t n) {
        if (sends) sends(e, d, n);
        if (e->side == 1) for (ToolClient *t : g_tools) if (t->conn == e->conn) t->sent.append(d, n);
    };
    auto steps = S->afterStep;
    S->afterStep = [steps]() { if (steps) steps(); for (ToolClient *t : g_tools) checkTool(t); };
}

} // namespace sim
