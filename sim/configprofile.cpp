// The server program with a generated configuration: it runs exactly as its
// file says, or it refuses and never opens anything. System paths are below a
// root of the run, and every file call can fail.
#include "profiles.h"
#include "servermain.h"
#include "engine.h"
#include "proxyconfiguration.h"
#include <QCryptographicHash>
#include <QLoggingCategory>
#include <QSslCertificate>
#include <QSslSocket>
#include <algorithm>
#include <fcntl.h>
#include <signal.h>
#include <sys/stat.h>
#include <unistd.h>

using namespace remoteproxy;
extern "C" int sim_make_socket_file(const char *path);

namespace sim {

namespace {

struct Entry { std::string group, key, value; };

struct Conf {
    std::vector<Entry> entries;
    std::vector<std::string> args;
    std::string file;                      // the path given, or the default
    std::string name = "nymea-remoteproxy", logFile = "/var/log/nymea-remoteproxy.log", monitor = "/tmp/nymea-remoteproxy.monitor", unixPath = "/run/nymea-remoteproxy.socket";
    std::string cert = "/etc/ssl/certs/ssl-cert-snakeoil.pem", key = "/etc/ssl/private/ssl-cert-snakeoil.key", chain;
    bool writeLogs = false, logEngine = false, ssl = true;
    int jsonTimeout = 10000, inactive = 8000;
    uint32_t tcpIp = 0x7f000001, wsIp = 0x7f000001;
    uint16_t tcpPort = 2213, wsPort = 2212;
    std::string mustRefuse, mayRefuse;     // why
    std::string oldLog;                    // what the log file held before
    bool hadLog = false;
    // faults
    std::map<std::string, int> openFails;  // errno by path
    std::map<std::string, uint64_t> readFails; // offset of EIO by path
    double shortIo = 0, eintr = 0;
    int logError = 0;
    uint64_t logErrorFrom = 0, logErrorTo = 0;
    bool ran = false, ended = false;
    Rng r;
};
Conf *C;

std::string slurp(const std::string &path, bool *there = nullptr)
{
    InSim in;
    std::string t;
    int fd = open(path.c_str(), O_RDONLY | O_CLOEXEC);
    if (there) *there = fd >= 0;
    if (fd < 0) return t;
    char b[4096];
    ssize_t n;
    while ((n = read(fd, b, sizeof b)) > 0) t.append(b, (size_t)n);
    close(fd);
    return t;
}

void spit(const std::string &path, const std::string &text)
{
    InSim in;
    int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644);
    if (fd < 0) { fprintf(stderr, "cannot write %s\n", path.c_str()); _exit(3); }
    size_t off = 0;
    while (off < text.size()) {
        ssize_t n = write(fd, text.data() + off, text.size() - off);
        if (n <= 0) _exit(3);
        off += (size_t)n;
    }
    close(fd);
}

void makeDirs(const std::string &path)
{
    for (size_t p = 1; (p = path.find('/', p)) != std::string::npos; p++) mkdir(path.substr(0, p).c_str(), 0755);
    mkdir(path.c_str(), 0755);
}

std::string certDir() { return getenv("SIM_CERTS"); }

// ---- what is expected while it runs

std::string endpointName(uint32_t ip, uint16_t port) { return ipStr(ip) + ":" + std::to_string(port); }

void checkEndpoints(const char *when)
{
    std::multiset<std::string> want, have;
    want.insert(endpointName(C->tcpIp, C->tcpPort));
    want.insert(endpointName(C->wsIp, C->wsPort));
    want.insert(C->unixPath);
    want.insert(C->monitor);
    for (Listener *l : S->listeners) {
        if (l->file->node != S->proxy || l->file->dead) continue;
        if (!l->unixdom) { have.insert(endpointName(l->ip, l->port)); continue; }
        std::string at = "a socket at another path";
        for (const std::string &p : {C->unixPath, C->monitor}) {
            struct stat st;
            if (stat(S->vpath(p).c_str(), &st) == 0 && st.st_ino == l->inode) at = p;
        }
        have.insert(at);
    }
    std::string miss, more;
    for (auto &w : want) if (have.count(w) < want.count(w)) miss += " " + w;
    for (auto &h : have) if (want.count(h) < have.count(h)) more += " " + h;
    if (!miss.empty()) S->violation("config.endpoint_missing", std::string(when) + " it does not listen on" + miss + (more.empty() ? "" : ", but on" + more));
    else if (!more.empty()) S->violation("config.endpoint_extra", std::string(when) + " it listens on" + more + ", which is not configured");
}

void checkGetters()
{
    if (!Engine::exists() || !Engine::instance()->configuration()) { S->violation("config.not_running", "there is no engine"); return; }
    ProxyConfiguration *c = Engine::instance()->configuration();
    if (c->jsonRpcTimeout() != C->jsonTimeout) S->violation("config.value", "JSON RPC timeout " + std::to_string(c->jsonRpcTimeout()) + ", configured " + std::to_string(C->jsonTimeout));
    if (c->inactiveTimeout() != C->inactive) S->violation("config.value", "inactive timeout " + std::to_string(c->inactiveTimeout()) + ", configured " + std::to_string(C->inactive));
    if (c->sslEnabled() != C->ssl) S->violation("config.value", "encryption is " + std::string(c->sslEnabled() ? "on" : "off") + ", configured otherwise");
}

void checkLogEngine()
{
    for (const char *n : {"statistics", "tunnels"}) {
        std::string p = std::string("/var/log/nymea-remoteproxy-") + n + ".log";
        bool there = access(p.c_str(), F_OK) == 0;
        if (there && !C->logEngine) S->violation("config.log_engine", p + " was created, the log engine is not enabled");
        if (!there && C->logEngine && !C->openFails.count(p)) S->violation("config.log_engine", "the log engine is enabled, but there is no " + p);
    }
}

void terminate()
{
    if (C->ended) return;
    C->ended = true;
    W->proxyUp = false;
    W->proxyChangedAt = S->now;
    Time until = S->now + 20 * SEC + W->slack();
    S->at(until, []() {
        S->violation("signal.ignored", "the server still runs long after the signal");
        S->finished = true;
    });
    int keep = inSim;
    inSim = 0;
    {
        NodeScope sc(S->proxy);
        raise(SIGTERM);
    }
    inSim = keep;
}

void started()
{
    C->ran = true;
    S->count("probe.config_ran");
    if (!C->mustRefuse.empty()) {
        S->violation("config.started", "the server runs although " + C->mustRefuse);
        terminate();
        return;
    }
    if (!C->mayRefuse.empty()) S->count("probe.config_tolerated");
    checkEndpoints("when started");
    checkGetters();
    checkLogEngine();
}

QByteArray fingerprint(const QSslCertificate &c) { return c.digest(QCryptographicHash::Sha256).toHex(); }

void encrypted(QSslSocket *s)
{
    QList<QSslCertificate> own = QSslCertificate::fromData(QByteArray::fromStdString(slurp(C->cert)));
    QList<QSslCertificate> chain = C->chain.empty() ? QList<QSslCertificate>() : QSslCertificate::fromData(QByteArray::fromStdString(slurp(C->chain)));
    if (own.isEmpty()) return;
    S->count("probe.certificate_seen");
    if (fingerprint(s->peerCertificate()) != fingerprint(own.first()))
        S->violation("config.certificate", "the server presents the certificate of " + s->peerCertificate().subjectInfo(QSslCertificate::CommonName).join(" ").toStdString() + ", configured is that of " + own.first().subjectInfo(QSslCertificate::CommonName).join(" ").toStdString());
    QList<QByteArray> got;
    for (const QSslCertificate &c : s->peerCertificateChain()) got << fingerprint(c);
    for (const QSslCertificate &c : chain)
        if (!got.contains(fingerprint(c)))
            S->violation("config.chain", "the server does not present " + c.subjectInfo(QSslCertificate::CommonName).join(" ").toStdString() + " of its certificate chain file");
    if (s->sessionProtocol() != QSsl::TlsV1_2 && s->sessionProtocol() != QSsl::TlsV1_3) S->violation("config.protocol", "TLS version " + std::to_string(s->sessionProtocol()));
}

// ---- files

int onOpen(const std::string &path, int)
{
    S->mix(std::hash<std::string>()(path.substr(path.rfind('/') + 1)));
    auto it = C->openFails.find(path);
    if (it != C->openFails.end()) {
        S->count("fault.open_failed");
        W->note("open %s fails: %s", path.c_str(), strerror(it->second));
        return it->second;
    }
    if (S->rFault.chance(C->eintr)) { S->count("fault.open_eintr"); return EINTR; }
    return 0;
}

long onIo(const Sim::VFile &f, bool write, size_t n)
{
    if (n == 0) return 0;
    if (S->rFault.chance(C->eintr)) { S->count("fault.file_eintr"); return -EINTR; }
    if (!write) {
        auto it = C->readFails.find(f.path);
        if (it != C->readFails.end()) {
            if (f.off >= it->second) { S->count("fault.read_eio"); return -EIO; }
            n = (size_t)std::min<uint64_t>(n, it->second - f.off);
        }
    } else if (C->logError && f.path == C->logFile && f.off >= C->logErrorFrom && S->now < (Time)C->logErrorTo) {
        S->count(C->logError == ENOSPC ? "fault.disk_full" : "fault.write_eio");
        return -C->logError;
    }
    if (n > 1 && S->rFault.chance(C->shortIo)) {
        S->count(write ? "fault.short_file_write" : "fault.short_file_read");
        return S->rFault.range(1, (int64_t)n - 1);
    }
    return (long)n;
}

// ---- generation

void put(const std::string &g, const std::string &k, const std::string &v) { C->entries.push_back({g, k, v}); }
std::string boolText(Rng &r, bool b) { return b ? (r.chance(0.5) ? "true" : "1") : (r.chance(0.5) ? "false" : "0"); }

std::string render(Rng &r)
{
    // groups and keys in any order, comments, things nobody knows
    std::vector<std::string> groups = {"ProxyServer", "SSL", "UnixSocketServerTunnelProxy", "WebSocketServerTunnelProxy", "TcpServerTunnelProxy"};
    if (r.chance(0.2)) { groups.push_back("Unknown"); put("Unknown", "port", "1"); put("Unknown", "enabled", "false"); }
    for (size_t i = groups.size(); i > 1; i--) std::swap(groups[i - 1], groups[r.below(i)]);
    if (r.chance(0.15)) put("TcpServerTunnelProxy", "name", "other");
    if (r.chance(0.15)) put("SSL", "inactiveTimeout", "1");
    std::string nl = r.chance(0.15) ? "\r\n" : "\n", t;
    for (auto &g : groups) {
        std::vector<Entry> es;
        for (auto &e : C->entries) if (e.group == g) es.push_back(e);
        if (es.empty() && r.chance(0.5)) continue;
        if (r.chance(0.2)) t += "; about " + g + "=1" + nl;
        t += "[" + g + "]" + nl;
        for (size_t i = es.size(); i > 1; i--) std::swap(es[i - 1], es[r.below(i)]);
        for (auto &e : es) {
            std::string sp = r.chance(0.1) ? " " : "";
            t += e.key + sp + "=" + sp + e.value + nl;
            if (r.chance(0.1)) t += nl;
        }
        if (r.chance(0.7)) t += nl;
    }
    return t;
}

} // namespace

static void build()
{
    Rng &r = C->r;
    r.seed(S->seed, 7321);
    auto given = [&](double p = 0.7) { return r.chance(p); };

    if (given(0.6)) {
        static const std::pair<const char *, const char *> names[] = {{"proxy-1", "proxy-1"}, {"two words", "two words"}, {"\"a, b; c = d\"", "a, b; c = d"}, {"\"say \\\"x\\\" \\\\ {1}\"", "say \"x\" \\ {1}"}, {"\"  spaces  \"", "  spaces  "}, {"12345", "12345"}};
        auto &n = names[r.below(6)];
        put("ProxyServer", "name", n.first);
        C->name = n.second;
    }
    if (given()) { C->writeLogs = r.chance(0.6); put("ProxyServer", "writeLogs", boolText(r, C->writeLogs)); }
    if (given()) {
        C->logFile = r.chance(0.4) ? W->dir + "/log" : r.chance(0.5) ? "/var/log/nymea/proxy/px.log" : "/var/log/px.log";
        put("ProxyServer", "logFile", C->logFile);
    }
    if (given(0.5)) { C->logEngine = r.chance(0.5); put("ProxyServer", "logEngineEnabled", boolText(r, C->logEngine)); }
    if (given()) {
        C->monitor = r.chance(0.5) ? W->dir + "/mon.sock" : "/tmp/nymea-remoteproxy-monitor.sock";
        put("ProxyServer", "monitorSocket", C->monitor);
    }
    if (given()) { C->jsonTimeout = (int)r.range(1, 60000); put("ProxyServer", "jsonRpcTimeout", std::to_string(C->jsonTimeout)); }
    if (given()) { C->inactive = (int)r.range(4000, 14000); put("ProxyServer", "inactiveTimeout", std::to_string(C->inactive)); }
    if (given(0.8)) { C->ssl = r.chance(0.45); put("SSL", "enabled", boolText(r, C->ssl)); }
    bool leaf = false;
    if (given()) {
        leaf = r.chance(0.6);
        C->cert = certDir() + (leaf ? "/leaf.crt" : "/test-certificate.crt");
        C->key = certDir() + (leaf ? "/leaf.key" : "/test-certificate.key");
        put("SSL", "certificate", C->cert);
        put("SSL", "certificateKey", C->key);
        if (leaf && r.chance(0.7)) {
            C->chain = certDir() + "/chain" + std::to_string(1 + r.below(3)) + ".crt";
            put("SSL", "certificateChain", C->chain);
        } else if (r.chance(0.5)) put("SSL", "certificateChain", "");
    }
    if (given()) {
        C->unixPath = r.chance(0.6) ? W->dir + "/px.sock" : "/run/px.sock";
        put("UnixSocketServerTunnelProxy", "unixSocketFileName", C->unixPath);
    }
    static const uint32_t hosts[] = {0, 0x0a000001, 0x7f000001};
    if (given()) { C->wsIp = hosts[r.below(3)]; put("WebSocketServerTunnelProxy", "host", !C->wsIp && r.chance(0.3) ? "::" : ipStr(C->wsIp)); }
    if (given()) { C->wsPort = (uint16_t)(r.chance(0.1) ? 65535 : r.range(1024, 32000)); put("WebSocketServerTunnelProxy", "port", std::to_string(C->wsPort)); }
    if (given()) { C->tcpIp = hosts[r.below(3)]; put("TcpServerTunnelProxy", "host", !C->tcpIp && r.chance(0.3) ? "::" : ipStr(C->tcpIp)); }
    if (given()) { C->tcpPort = (uint16_t)(r.chance(0.1) ? 443 : r.range(32001, 65000)); put("TcpServerTunnelProxy", "port", std::to_string(C->tcpPort)); }

    C->file = W->dir + "/proxy.conf";
    if (r.chance(0.15)) C->file = "/etc/nymea/nymea-remoteproxy.conf";
    else C->args = {r.chance(0.5) ? "-c" : "--configuration", C->file};
    if (r.chance(0.15)) {
        C->writeLogs = true;
        C->logFile = r.chance(0.5) ? W->dir + "/log" : "/var/log/option.log";
        C->args.push_back(r.chance(0.5) ? "-l" : "--logging");
        C->args.push_back(C->logFile);
    }

    // one thing that must not go unnoticed, or none
    auto replace = [&](const std::string &g, const std::string &k, const std::string &v) {
        for (auto &e : C->entries) if (e.group == g && e.key == k) { e.value = v; return; }
        put(g, k, v);
    };
    static const int openErr[] = {EACCES, EIO, EMFILE, ENOENT, ENFILE};
    bool writeConf = true, broken = false;
    std::string tail;
    if (W->coin("broken", 0.35)) switch (W->knobi("brokenKind", 0, 9)) {
    case 0: writeConf = false; C->mustRefuse = "there is no configuration file"; break;
    case 1: C->openFails[C->file] = openErr[r.below(3)]; C->mustRefuse = "its configuration file cannot be read"; break;
    case 2: case 3: case 4: case 5: { // the files of the encryption
        int which = C->chain.empty() ? (int)r.below(2) : (int)r.below(3);
        std::string &f = which == 0 ? C->cert : which == 1 ? C->key : C->chain;
        const char *key = which == 0 ? "certificate" : which == 1 ? "certificateKey" : "certificateChain";
        std::string what = std::string("its ") + (which == 0 ? "certificate" : which == 1 ? "key" : "chain") + " file ";
        switch (r.below(5)) {
        case 0: f = W->dir + "/none.pem"; replace("SSL", key, f); what += "does not exist"; break;
        case 1: C->openFails[f] = openErr[r.below(5)]; what += "cannot be opened"; break;
        case 2: C->readFails[f] = r.below(which == 2 ? 1100 : 900); what += "cannot be read"; break;
        case 3: { // garbage, torn, or nothing
            std::string t = slurp(f.compare(0, 8, "/etc/ssl") ? f : certDir() + (which ? "/test-certificate.key" : "/test-certificate.crt"));
            int how = (int)r.below(3);
            // (the end of a chain file is the end of its first certificate)
            t = how == 0 ? "" : how == 1 ? "this is not PEM\n" : t.substr(0, (size_t)r.range(100, 900));
            f = W->dir + "/bad.pem";
            spit(f, t);
            replace("SSL", key, f);
            what += how == 0 ? "is empty" : how == 1 ? "is garbage" : "is cut off";
            break;
        }
        default:
            if (which != 1) { f = certDir() + "/test-certificate.key"; what += "holds a key"; }
            else { f = certDir() + (r.chance(0.5) ? "/locked.key" : "/leaf.crt"); what += "holds no usable key"; }
            replace("SSL", key, f);
            break;
        }
        (C->ssl ? C->mustRefuse : C->mayRefuse) = what;
        broken = true;
        break;
    }
    case 6: { // numbers that are none
        static const char *bad[] = {"65536", "70000", "-1", "port", "2213x", "0x10000", "99999999999", "4294969508", "\"\""};
        const char *b = bad[r.below(9)];
        replace(r.chance(0.5) ? "TcpServerTunnelProxy" : "WebSocketServerTunnelProxy", "port", b);
        C->mustRefuse = std::string("a port is ") + b;
        break;
    }
    case 7: {
        static const char *bad[] = {"nowhere.example", "300.1.1.1", "127.0.0.1:80", "\"\""};
        const char *b = bad[r.below(4)];
        replace(r.chance(0.5) ? "TcpServerTunnelProxy" : "WebSocketServerTunnelProxy", "host", b);
        C->mustRefuse = std::string("a host is ") + b;
        break;
    }
    case 8: {
        static const char *bad[] = {"soon", "10s", "-5", "99999999999", "\"\""};
        const char *b = bad[r.below(5)];
        replace("ProxyServer", r.chance(0.5) ? "inactiveTimeout" : "jsonRpcTimeout", b);
        C->mustRefuse = std::string("a timeout is ") + b;
        break;
    }
    default:
        if (!C->writeLogs) { C->writeLogs = true; replace("ProxyServer", "writeLogs", "true"); }
        C->openFails[C->logFile] = openErr[r.below(3)];
        C->mustRefuse = "its log file cannot be opened";
        break;
    }
    (void)broken;
    if (C->mustRefuse.empty() && C->mayRefuse.empty()) {
        S->count("probe.config_good");
        if (C->logEngine && r.chance(0.2)) C->openFails[std::string("/var/log/nymea-remoteproxy-") + (r.chance(0.5) ? "tunnels" : "statistics") + ".log"] = openErr[r.below(3)];
        if (r.chance(0.3)) {
            C->logError = r.chance(0.5) ? ENOSPC : EIO;
            C->logErrorFrom = r.below(60000);
            C->logErrorTo = r.chance(0.5) ? (uint64_t)r.range(0, 100) * SEC : UINT64_MAX / 4;
        }
    }
    C->shortIo = W->coin("shortIo", 0.4) ? W->knob("shortIoP", 0.05, 0.95) : 0;
    C->eintr = W->coin("eintrFiles", 0.3) ? W->knob("eintrFilesP", 0.05, 0.4) : 0;

    // the machine before the start
    for (const char *d : {"/run", "/tmp", "/var/log", "/etc/ssl/certs", "/etc/ssl/private", "/etc/nymea"}) makeDirs(S->vroot + d);
    spit("/etc/ssl/certs/ssl-cert-snakeoil.pem", slurp(certDir() + "/test-certificate.crt"));
    spit("/etc/ssl/private/ssl-cert-snakeoil.key", slurp(certDir() + "/test-certificate.key"));
    if (r.chance(0.3)) { sim_make_socket_file(S->vpath(C->unixPath).c_str()); S->count("probe.config_stale_socket"); }
    if (r.chance(0.3)) sim_make_socket_file(S->vpath(C->monitor).c_str());
    if (r.chance(0.4)) {
        std::string d = C->logFile.substr(0, C->logFile.rfind('/'));
        if (access(d.c_str(), F_OK) == 0) { C->oldLog = "what was there before\n"; C->hadLog = true; spit(C->logFile, C->oldLog); }
    }
    if (writeConf) spit(C->file, render(r));
    W->note("configuration%s%s", C->mustRefuse.empty() ? "" : ": ", C->mustRefuse.c_str());
}

static void afterExit(int status)
{
    if (!C->ran) {
        S->count("probe.config_refused");
        std::string why = !C->mustRefuse.empty() ? C->mustRefuse : C->mayRefuse;
        if (why.empty()) S->violation("config.refused", "the server does not start with a correct configuration (exit code " + std::to_string(status) + ")");
        else {
            if (status == 0) S->violation("config.refusal", "exit code 0 although " + why);
            if (S->listens) S->violation("config.refusal", std::to_string(S->listens) + " endpoints were open for a moment although " + why);
        }
        S->finished = true;
        return;
    }
    if (!C->ended) { S->violation("config.left", "the server ended by itself with exit code " + std::to_string(status)); return; }
    S->finished = true;
    if (!S->violations.empty()) return;
    if (status != 0) S->violation("config.left", "exit code " + std::to_string(status) + " after a signal");
    bool there;
    std::string log = slurp(C->logFile, &there);
    if (!C->writeLogs) {
        if (there != C->hadLog || log != C->oldLog) S->violation("config.log", C->logFile + " was written, logging is not enabled");
    } else {
        if (log.compare(0, C->oldLog.size(), C->oldLog)) S->violation("config.log", C->logFile + " lost what was in it");
        if (!C->logError && (!there || log.size() <= C->oldLog.size())) S->violation("config.log", "logging is enabled, but there is nothing in " + C->logFile);
        S->count("probe.config_logged");
    }
}

void setupConfig()
{
    C = new Conf;
    S->vkeep = {W->dir, certDir()};
    S->vroot = W->dir + "/root";
    mkdir(S->vroot.c_str(), 0700);
    QLoggingCategory::setFilterRules("qt.*=false"); // everything the server logs by default
    build();
    S->onOpen = onOpen;
    S->onIo = onIo;
    W->ssl = C->ssl;
    W->inactiveMs = C->inactive;
    W->serverName = C->name;
    W->defaultNet();
    W->tg.tcpPort = C->tcpPort;
    W->tg.wsPort = C->wsPort;
    W->tg.ip = C->tcpIp ? C->tcpIp : S->proxy->ip;
    W->tg.wsIp = C->wsIp ? C->wsIp : S->proxy->ip;
    W->tg.unixPath = C->unixPath;
    W->monitorPath = C->monitor;
    W->epoch = 1;
    W->proxyUp = true;
    W->quietSpan = C->inactive * MS + 8 * SEC;
    W->finalReady = probesDone;
    W->finalChecks = []() { W->tunnelFinal(); };
    W->atEnd = []() { checkEndpoints("at the end"); checkLogEngine(); terminate(); };
    W->afterExit = afterExit;
    onEncrypted = encrypted;
    Time end = (Time)(W->knob("spanS", 0.3, 6) * SEC);
    std::vector<Gen> mix = {{O_SERVER, 2}, {O_CLIENT, 6}, {O_UP, 8}, {O_DOWN, 8}, {O_CLIENT_END, 2}, {O_CLIENT_RECONN, 1}, {O_CHURN, 0.5}, {O_RPC, 2}, {O_SRV_RPC, 1}, {O_IDLE, 4}, {O_MONITOR, 2}, {O_REFRESH, 3}};
    std::vector<Op> ops = genOps(mix, W->knobi("nOps", 0, 24), 60 * MS, end);
    addInitial(ops, W->knobi("servers", 1, 2), W->knobi("clients", 1, 3), 60 * MS);
    for (Op &o : ops) o.t += 20 * MS;
    Rng r;
    r.seed(S->seed, 55);
    for (int k : {O_RPC, O_IDLE, O_MONITOR}) { Op o; o.t = 50 * MS + (Time)r.below(200) * MS; o.kind = k; o.a = r.next(); o.b = r.next(); o.c = r.next(); ops.push_back(o); }
    Op o; o.t = 400 * MS; o.kind = O_REFRESH; o.a = r.next(); o.b = r.next(); o.c = r.next();
    ops.push_back(o);
    std::stable_sort(ops.begin(), ops.end(), [](const Op &x, const Op &y) { return x.t < y.t; });
    S->at(10 * MS, started);
    go(ops, end);
}

void runConfigured()
{
    std::vector<std::string> a = {"nymea-remoteproxy"};
    a.insert(a.end(), C->args.begin(), C->args.end());
    static std::vector<std::vector<char>> bufs;
    static std::vector<char *> argv;
    for (auto &s : a) { bufs.emplace_back(s.begin(), s.end()); bufs.back().push_back(0); }
    for (auto &b : bufs) argv.push_back(b.data());
    argv.push_back(nullptr);
    App::defaultNode = S->proxy;
    S->simPipes = true;
    int rc;
    {
        NodeScope sc(S->proxy);
        rc = serverMain((int)a.size(), argv.data());
        exit(rc);
    }
}

} // namespace sim
