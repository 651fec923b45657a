#include "kernel.h"
#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <netinet/in.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>

extern "C" int sim_reserve_fd();
extern "C" void sim_release_fd(int fd);

namespace sim {

int inSim = 0;

Sim *S = nullptr;

Time Rng::logTime(Time a, Time b)
{
    if (b <= a) return a;
    double la = std::log((double)std::max<Time>(a, 1)), lb = std::log((double)b);
    return (Time)std::exp(la + (lb - la) * unit());
}

std::string ipStr(uint32_t ip)
{
    char b[32];
    snprintf(b, sizeof b, "%u.%u.%u.%u", ip >> 24, (ip >> 16) & 255, (ip >> 8) & 255, ip & 255);
    return b;
}

Node *Sim::addNode(const std::string &name, uint32_t ip)
{
    nodes.emplace_back(new Node);
    Node *n = nodes.back().get();
    n->id = (int)nodes.size() - 1;
    n->name = name;
    n->ip = ip;
    return n;
}

void Sim::at(Time t, std::function<void()> fn)
{
    if (t < now) t = now;
    q.push(new Ev{t, ++seq, std::move(fn)});
}

bool Sim::runDue()
{
    bool any = false;
    while (!q.empty() && q.top()->at <= now && !finished) {
        Ev *e = q.top();
        q.pop();
        step++;
        Node *old = cur;
        cur = harness;
        e->fn();
        cur = old;
        delete e;
        any = true;
        if (exhausted()) break;
    }
    return any;
}

void Sim::mixBytes(const char *d, size_t n)
{
    uint64_t h = 1469598103934665603ull;
    for (size_t i = 0; i < n; i++) h = (h ^ (unsigned char)d[i]) * 1099511628211ull;
    mix(h);
}

void Sim::trace(const char *fmt, ...)
{
    if (!traceFile) return;
    va_list ap;
    va_start(ap, fmt);
    fprintf(traceFile, "[%12.6f #%llu] ", now / 1e9, (unsigned long long)step);
    vfprintf(traceFile, fmt, ap);
    fputc('\n', traceFile);
    va_end(ap);
}

void Sim::note(char tag, uint64_t a, uint64_t b, uint64_t c)
{
    mix(((uint64_t)(unsigned char)tag << 56) ^ (uint64_t)now);
    mix(a);
    mix(b * 31 + c);
    if (traceFile && verbose > 1)
        trace("  %c %llu %llu %llu", tag, (unsigned long long)a, (unsigned long long)b, (unsigned long long)c);
}

void Sim::violation(const std::string &cls, const std::string &detail)
{
    for (const Violation &v : violations)
        if (v.cls == cls) return; // first of its class
    Violation v;
    v.cls = cls;
    v.detail = detail;
    v.at = now;
    v.step = step;
    violations.push_back(v);
    trace("VIOLATION %s: %s", cls.c_str(), detail.c_str());
}

// ---------------------------------------------------------------- files

File *Sim::newFile(Node *n)
{
    int fd = sim_reserve_fd();
    if (fd < 0) { errno = EMFILE; return nullptr; }
    if ((size_t)fd >= files.size()) files.resize(fd + 64, nullptr);
    File *f = new File;
    f->fd = fd;
    f->node = n ? n : harness;
    f->node->fdCount++;
    files[fd] = f;
    return f;
}

void Sim::freeFile(File *f)
{
    f->node->fdCount--;
    files[f->fd] = nullptr;
    sim_release_fd(f->fd);
    delete f;
}

int Sim::openFds(const Node *n) const
{
    int c = 0;
    for (File *f : files) if (f && f->node == n && !f->dead) c++;
    return c;
}

bool Sim::readable(const File *f) const
{
    if (f->dead) return false;
    if (f->local()) return f->in && !f->in->empty();
    if (f->listener) return !f->listener->queue.empty();
    if (f->connState == 3) return true;
    if (!f->ep || f->connState != 2) return false;
    return f->ep->avail() > 0 || f->ep->rxFin || f->ep->err || f->ep->reset;
}

bool Sim::writable(const File *f) const
{
    if (f->dead || f->listener) return false;
    if (f->local()) return f->out != nullptr;
    if (f->connState == 3) return true;
    if (!f->ep || f->connState != 2) return false;
    const Endpoint *e = f->ep;
    if (e->err || e->reset) return true;
    // Linux reports writability when a third of the buffer is free
    size_t u = used(e->conn, e->side), cap = e->conn->cap[e->side];
    return u < cap && (cap - u) * 3 >= std::min<size_t>(cap, 3);
}

size_t Sim::used(const Conn *c, int side) const
{
    return c->pipe[side].inflightBytes + c->ep[1 - side].avail();
}

bool Sim::pathBlocked(const Conn *c) const
{
    if (c->unixdom) return false;
    return c->blocked || (c->ep[0].node && c->ep[0].node->blocked) || (c->ep[1].node && c->ep[1].node->blocked);
}

Time Sim::latency(const Conn *c)
{
    if (c->unixdom) return 0;
    Time l = c->lat;
    if (rNet.chance(net.jitter)) l += rNet.range(0, net.jitterMax);
    return l;
}

// ---------------------------------------------------------------- socket calls

int Sim::k_socket(int domain, int type)
{
    (void)type;
    Node *n = cur ? cur : harness;
    if (n->failSocket || n->fdCount >= n->fdLimit) {
        count("fault.socket_emfile");
        errno = EMFILE;
        return -1;
    }
    File *f = newFile(n);
    if (!f) return -1;
    f->unixdom = domain == AF_UNIX;
    f->v6 = domain == AF_INET6;
    note('s', f->fd, n->id);
    return f->fd;
}

static bool parseAddr(const void *addr, unsigned len, uint32_t &ip, uint16_t &port)
{
    const sockaddr *sa = (const sockaddr *)addr;
    if (sa->sa_family == AF_INET && len >= sizeof(sockaddr_in)) {
        const sockaddr_in *in = (const sockaddr_in *)addr;
        ip = ntohl(in->sin_addr.s_addr);
        port = ntohs(in->sin_port);
        return true;
    }
    if (sa->sa_family == AF_INET6 && len >= sizeof(sockaddr_in6)) {
        const sockaddr_in6 *in = (const sockaddr_in6 *)addr;
        port = ntohs(in->sin6_port);
        const unsigned char *b = in->sin6_addr.s6_addr;
        static const unsigned char any[16] = {0};
        if (!memcmp(b, any, 16)) { ip = 0; return true; }
        static const unsigned char m[12] = {0,0,0,0,0,0,0,0,0,0,0xff,0xff};
        if (!memcmp(b, m, 12)) { ip = (uint32_t)b[12] << 24 | b[13] << 16 | b[14] << 8 | b[15]; return true; }
    }
    return false;
}

Listener *Sim::findListener(uint32_t ip, uint16_t port)
{
    for (Listener *l : listeners)
        if (!l->unixdom && l->port == port && (l->ip == 0 || ip == 0 || l->ip == ip)) return l;
    return nullptr;
}

Listener *Sim::findUnix(const std::string &path)
{
    struct stat st;
    if (stat(vpath(path).c_str(), &st) != 0) { errno = ENOENT; return nullptr; }
    for (Listener *l : listeners)
        if (l->unixdom && l->inode == (uint64_t)st.st_ino) return l;
    errno = ECONNREFUSED;
    return nullptr;
}

static std::string unixPath(const void *addr, unsigned len)
{
    const sockaddr_un *un = (const sockaddr_un *)addr;
    size_t off = offsetof(sockaddr_un, sun_path);
    size_t n = len > off ? len - off : 0;
    n = strnlen(un->sun_path, std::min(n, sizeof un->sun_path));
    return std::string(un->sun_path, n);
}

extern "C" int sim_make_socket_file(const char *path);

std::string Sim::vpath(const std::string &p) const
{
    if (vroot.empty() || p.empty() || p[0] != '/') return p;
    for (const std::string &k : vkeep) if (!p.compare(0, k.size(), k)) return p;
    for (const char *d : {"/run", "/var", "/tmp", "/etc/ssl", "/etc/nymea"}) {
        size_t n = strlen(d);
        if (!p.compare(0, n, d) && (p.size() == n || p[n] == '/')) return vroot + p;
    }
    return p;
}

int Sim::k_bind(File *f, const void *addr, unsigned len)
{
    if (f->dead) { errno = EBADF; return -1; }
    if (f->unixdom) {
        std::string p = vpath(unixPath(addr, len));
        struct stat st;
        if (lstat(p.c_str(), &st) == 0) { errno = EADDRINUSE; return -1; }
        if (sim_make_socket_file(p.c_str()) != 0) return -1;
        if (stat(p.c_str(), &st) != 0) return -1;
        f->inode = st.st_ino;
        f->path = p;
        note('b', f->fd, 1);
        return 0;
    }
    uint32_t ip; uint16_t port;
    if (!parseAddr(addr, len, ip, port)) { errno = EINVAL; return -1; }
    if (port && findListener(ip, port)) {
        count("fault.bind_in_use");
        errno = EADDRINUSE;
        return -1;
    }
    if (!port) port = nextPort++;
    f->bindIp = ip;
    f->bindPort = port;
    note('b', f->fd, ip, port);
    return 0;
}

int Sim::k_listen(File *f, int backlog)
{
    if (f->dead) { errno = EBADF; return -1; }
    Listener *l = new Listener;
    l->file = f;
    l->unixdom = f->unixdom;
    l->ip = f->bindIp;
    l->port = f->bindPort;
    l->inode = f->inode;
    l->backlog = std::max(1, backlog);
    f->listener = l;
    listeners.push_back(l);
    if (f->node == proxy) listens++;
    note('l', f->fd, l->port);
    return 0;
}

Conn *Sim::newConn(bool unixdom, Node *from)
{
    conns.emplace_back();
    Conn *c = &conns.back();
    c->id = (int)conns.size();
    c->unixdom = unixdom;
    for (int i = 0; i < 2; i++) {
        c->ep[i].conn = c;
        c->ep[i].side = i;
        c->cap[i] = (size_t)rNet.range((int64_t)net.capMin, (int64_t)net.capMax);
    }
    c->ep[0].node = from;
    c->ep[0].ip = from->ip;
    c->ep[0].port = nextPort++;
    if (nextPort < 1024) nextPort = 10000;
    c->lat = unixdom ? 0 : rNet.logTime(net.latMin, net.latMax);
    c->openedAt = now;
    from->lastConn = c;
    from->connects++;
    return c;
}

int Sim::k_connect(File *f, const void *addr, unsigned len)
{
    if (f->dead) { errno = EBADF; return -1; }
    if (f->connState == 1) { errno = EALREADY; return -1; }
    if (f->connState == 2) {
        if (!f->connReported) { f->connReported = true; return 0; }
        errno = EISCONN;
        return -1;
    }
    if (f->connState == 3) {
        int e = f->soError ? f->soError : ECONNABORTED;
        f->soError = 0;
        f->connState = 0;
        errno = e;
        return -1;
    }
    if (f->unixdom) {
        std::string p = unixPath(addr, len);
        Listener *l = findUnix(p);
        if (!l) { count("net.unix_refused"); return -1; }
        if ((int)l->queue.size() >= l->backlog) { errno = EAGAIN; return -1; }
        Conn *c = newConn(true, f->node);
        c->ep[0].file = f;
        f->ep = &c->ep[0];
        f->connState = 2;
        f->connReported = true;
        c->state = 1;
        c->establishedAt = now;
        c->ep[1].node = l->file->node;
        l->queue.push_back(c);
        note('c', f->fd, c->id);
        return 0;
    }
    uint32_t ip; uint16_t port;
    if (!parseAddr(addr, len, ip, port)) { errno = EINVAL; return -1; }
    if (f->node->netDown) {
        count("fault.connect_enetunreach");
        errno = ENETUNREACH;
        return -1;
    }
    Conn *c = newConn(false, f->node);
    c->ep[0].file = f;
    c->ep[1].ip = ip;
    c->ep[1].port = port;
    f->ep = &c->ep[0];
    f->connState = 1;
    note('c', f->fd, c->id, port);
    after(latency(c), [=]() { synArrived(c, ip, port, 0); });
    errno = EINPROGRESS;
    return -1;
}

void Sim::synArrived(Conn *c, uint32_t ip, uint16_t port, int attempt)
{
    if (c->ep[0].closed || c->state != 0) return;
    Listener *l = findListener(ip, port);
    Node *dst = l ? l->file->node : nullptr;
    if (!dst)
        for (auto &n : nodes) if (n->ip == ip) dst = n.get();
    bool blocked = c->blocked || c->ep[0].node->blocked || (dst && dst->blocked);
    if (blocked || (l && (int)l->queue.size() >= l->backlog)) {
        count(blocked ? "net.syn_lost" : "net.backlog_full");
        if (attempt >= 6) { connectDone(c, ETIMEDOUT); return; }
        after((SEC << attempt), [=]() { synArrived(c, ip, port, attempt + 1); });
        return;
    }
    if (!l)
        for (auto &nl : nativeListeners) {
            if (nl.ip != ip || nl.port != port) continue;
            NativeSock *ns = nl.accept(c);
            if (!ns) break;
            c->state = 1;
            c->establishedAt = c->acceptedAt = now;
            Endpoint &e = c->ep[1];
            e.node = nl.node;
            e.ip = ip;
            e.port = port;
            e.accepted = true;
            e.native = ns;
            ns->ep = &e;
            Time t = now + latency(c);
            c->pipe[1].lastAt = t;
            at(t, [=]() { connectDone(c, 0); });
            ns->onConnected();
            return;
        }
    if (!l) {
        count("net.refused");
        after(latency(c), [=]() { connectDone(c, ECONNREFUSED); });
        return;
    }
    c->state = 1;
    c->establishedAt = now;
    Endpoint &e = c->ep[1];
    e.node = dst;
    e.ip = ip;
    e.port = port;
    l->queue.push_back(c);
    Time t = now + latency(c);
    c->pipe[1].lastAt = t;
    at(t, [=]() { connectDone(c, 0); });
}

void Sim::connectDone(Conn *c, int err)
{
    Endpoint &e = c->ep[0];
    note('C', c->id, err);
    if (e.closed) return;
    if (err) c->state = 2;
    if (e.native) {
        NativeSock *ns = e.native;
        if (err) { markClosed(&e); ns->onConnectFailed(err); }
        else if (!e.reset) { ns->onConnected(); }
        return;
    }
    if (!e.file) return;
    if (err) {
        e.file->connState = 3;
        e.file->soError = err;
    } else {
        e.file->connState = 2;
    }
}

int Sim::k_accept(File *f)
{
    if (f->dead || !f->listener) { errno = EBADF; return -1; }
    Listener *l = f->listener;
    if (l->queue.empty()) { errno = EAGAIN; return -1; }
    if (f->node->fdCount >= f->node->fdLimit) {
        count("fault.accept_emfile");
        // QTcpServer takes this for a temporary error and asks again at once; let it do so at a sane rate
        if (f->node->stalledUntil < now + MS) f->node->stalledUntil = now + MS;
        errno = EMFILE;
        return -1;
    }
    if (faultsOn && rFault.chance(net.acceptAbort)) {
        count("fault.accept_econnaborted");
        Conn *c = l->queue.front();
        l->queue.pop_front();
        markClosed(&c->ep[1]);
        sendRst(&c->ep[1]);
        errno = ECONNABORTED;
        return -1;
    }
    Conn *c = l->queue.front();
    l->queue.pop_front();
    File *n = newFile(f->node);
    if (!n) return -1;
    n->unixdom = l->unixdom;
    n->connState = 2;
    n->connReported = true;
    n->ep = &c->ep[1];
    c->ep[1].file = n;
    c->ep[1].accepted = true;
    c->acceptedAt = now;
    note('a', f->fd, n->fd, c->id);
    trace("accept %s conn %d -> fd %d", l->unixdom ? "unix" : "tcp", c->id, n->fd);
    return n->fd;
}

int Sim::k_pipe(int fds[2], bool both)
{
    File *a = newFile(cur), *b = newFile(cur);
    a->in = std::make_shared<std::string>();
    b->out = a->in;
    if (both) { b->in = std::make_shared<std::string>(); a->out = b->in; }
    fds[0] = a->fd;
    fds[1] = b->fd;
    return 0;
}

int Sim::k_eventfd(unsigned init)
{
    File *a = newFile(cur);
    a->in = a->out = std::make_shared<std::string>();
    a->counter = true;
    if (init) a->in->assign(1, (char)init);
    return a->fd;
}

long Sim::k_read(File *f, char *buf, size_t n, bool peek)
{
    if (f->dead) { errno = EAGAIN; return -1; }
    if (f->local()) {
        if (!f->in) { errno = EBADF; return -1; }
        if (f->in->empty()) { errno = EAGAIN; return -1; }
        if (f->counter) {
            uint64_t v = f->in->size();
            if (n < sizeof v) { errno = EINVAL; return -1; }
            memcpy(buf, &v, sizeof v);
            f->in->clear();
            return sizeof v;
        }
        size_t k = std::min(n, f->in->size());
        memcpy(buf, f->in->data(), k);
        if (!peek) f->in->erase(0, k);
        return (long)k;
    }
    if (f->connState == 3) { errno = f->soError ? f->soError : ENOTCONN; return -1; }
    if (!f->ep || f->connState != 2) { errno = ENOTCONN; return -1; }
    Endpoint *e = f->ep;
    if (faultsOn && rFault.chance(net.eintr)) { count("fault.eintr"); errno = EINTR; return -1; }
    if (e->avail() > 0) {
        size_t k = std::min(n, e->avail());
        if (!peek && k > 1 && faultsOn && rFault.chance(net.shortRead)) {
            k = 1 + rFault.below(k);
            count("fault.short_read");
        }
        memcpy(buf, e->rx.data() + e->rxOff, k);
        if (peek) return (long)k;
        note('r', f->fd, k, e->rxOff);
        moved = step;
        e->rxOff += k;
        if (e->rxOff == e->rx.size()) { e->rx.clear(); e->rxOff = 0; }
        else if (e->rxOff > 65536 && e->rxOff > e->rx.size() / 2) { e->rx.erase(0, e->rxOff); e->rxOff = 0; }
        windowOpened(e);
        return (long)k;
    }
    if (e->rxFin) return 0;
    if (e->err) { errno = e->err; e->err = 0; return -1; }
    if (e->reset) return 0;
    errno = EAGAIN;
    return -1;
}

long Sim::k_write(File *f, const char *buf, size_t n)
{
    if (f->dead) return (long)n; // a crashed process: the write never happened
    if (f->local()) {
        if (!f->out) { errno = EBADF; return -1; }
        if (f->counter) f->out->append("+");
        else {
            if (f->out->size() >= 65536) { errno = EAGAIN; return -1; }
            n = std::min<size_t>(n, 65536 - f->out->size());
            f->out->append(buf, n);
        }
        return (long)n;
    }
    if (!f->ep || f->connState != 2) { errno = ENOTCONN; return -1; }
    Endpoint *e = f->ep;
    if (e->err) { errno = e->err; e->err = 0; return -1; }
    if (e->reset || e->wrShut) { errno = EPIPE; return -1; }
    if (faultsOn && rFault.chance(net.eintr)) { count("fault.eintr"); errno = EINTR; return -1; }
    Conn *c = e->conn;
    if (c->unixdom && c->ep[1 - e->side].closed) { e->reset = true; errno = EPIPE; return -1; }
    size_t u = used(c, e->side), cap = c->cap[e->side];
    size_t space = u < cap ? cap - u : 0;
    if (space == 0) { count("net.send_buffer_full"); errno = EAGAIN; return -1; }
    if (faultsOn && rFault.chance(net.spuriousAgain)) { count("fault.spurious_eagain"); errno = EAGAIN; return -1; }
    size_t k = std::min(n, space);
    if (k < n) count("net.partial_write");
    if (k > 1 && faultsOn && rFault.chance(net.shortWrite)) { k = 1 + rFault.below(k); count("fault.short_write"); }
    note('w', f->fd, k);
    mixBytes(buf, k);
    sendBytes(e, buf, k);
    return (long)k;
}

void Sim::k_close(File *f)
{
    note('x', f->fd);
    if (f->dead) { freeFile(f); return; }
    if (f->listener) {
        Listener *l = f->listener;
        listeners.erase(std::find(listeners.begin(), listeners.end(), l));
        while (!l->queue.empty()) {
            Conn *c = l->queue.front();
            l->queue.pop_front();
            markClosed(&c->ep[1]);
            sendRst(&c->ep[1]);
        }
        delete l;
    }
    if (f->ep) {
        Endpoint *e = f->ep;
        e->file = nullptr;
        endpointGone(e);
    }
    freeFile(f);
}

// The process has closed its socket: FIN after the buffered data, or RST if
// received data was left unread.
void Sim::endpointGone(Endpoint *e)
{
    if (e->closed) return;
    bool unread = e->avail() > 0;
    markClosed(e);
    if (e->conn->state == 0) { e->conn->state = 2; return; }
    if (e->reset) { /* nothing left to say */ }
    else if (unread) { count("net.close_with_unread_data"); sendRst(e); }
    else sendFin(e);
    std::string().swap(e->rx);
    e->rxOff = 0;
    windowOpened(e);
}

int Sim::k_shutdown(File *f, int how)
{
    if (f->dead) return 0;
    if (!f->ep || f->connState != 2) { errno = ENOTCONN; return -1; }
    if (how == SHUT_WR || how == SHUT_RDWR) sendFin(f->ep);
    return 0;
}

// ---------------------------------------------------------------- the wire

void Sim::sendBytes(Endpoint *e, const char *d, size_t n)
{
    Conn *c = e->conn;
    Pipe &p = c->pipe[e->side];
    p.total += n;
    if (onSend) onSend(e, d, n);
    int mode = net.chunkMode;
    if (mode == 4) mode = (int)rNet.below(4);
    size_t off = 0;
    int pieces = 0;
    while (off < n) {
        size_t k = n - off;
        if (pieces < 24) {
            if (mode == 1) k = std::min<size_t>(k, 1460);
            else if (mode == 2 && k > 1) k = 1 + rNet.below(k);
            else if (mode == 3) k = std::min<size_t>(k, 1 + rNet.below(7));
        }
        if (k < n && pieces == 0) count("net.segmented_write");
        Time t = std::max(p.lastAt, now + latency(c));
        if (pieces > 0 && rNet.chance(net.gapProb)) t += c->unixdom ? 0 : rNet.range(0, net.jitterMax / 4 + 1000);
        if (net.coalesce > 0 && !c->unixdom && rNet.chance(net.coalesce)) {
            // hold back to the next slot so that arrivals meet
            Time slot = 10 * MS;
            t = std::max(t, (now / slot + 1) * slot);
        }
        Seg s;
        s.at = p.lastAt = t;
        s.seq = ++seq;
        s.data.assign(d + off, k);
        p.inflightBytes += k;
        uint64_t sq = s.seq;
        p.inflight.push_back(std::move(s));
        int side = e->side;
        if (!p.waiting) at(t, [=]() { deliver(c, side, sq); });
        off += k;
        pieces++;
    }
}

void Sim::sendFin(Endpoint *e)
{
    if (e->wrShut) return;
    e->wrShut = true;
    Conn *c = e->conn;
    Pipe &p = c->pipe[e->side];
    Time t = std::max(p.lastAt, now + latency(c));
    Seg s;
    s.at = p.lastAt = t;
    s.seq = ++seq;
    s.fin = true;
    uint64_t sq = s.seq;
    p.inflight.push_back(std::move(s));
    int side = e->side;
    if (!p.waiting) at(t, [=]() { deliver(c, side, sq); });
}

// e aborts: what is still in its send buffer is lost, what is on the wire may be
void Sim::sendRst(Endpoint *e)
{
    Conn *c = e->conn;
    Pipe &p = c->pipe[e->side];
    e->wrShut = true;
    e->reset = true;
    if (p.rstSent) return;
    p.rstSent = true;
    if (net.rstLosesInflight && !p.inflight.empty()) {
        size_t keep = p.waiting ? 0 : (size_t)rNet.below(p.inflight.size() + 1);
        while (p.inflight.size() > keep) {
            p.inflightBytes -= p.inflight.back().data.size();
            p.inflight.pop_back();
        }
        p.lastAt = p.inflight.empty() ? now : p.inflight.back().at;
    }
    Endpoint *o = &c->ep[1 - e->side];
    Time t = std::max(p.lastAt, now + latency(c));
    p.lastAt = t;
    at(t, [=]() {
        if (pathBlocked(c)) { count("net.rst_lost"); return; }
        arriveRst(o, ECONNRESET);
    });
}

// a segment hit a dead endpoint: its host answers with RST to o
void Sim::rstTo(Endpoint *o, Time delay)
{
    Conn *c = o->conn;
    Pipe &p = c->pipe[1 - o->side];
    Time t = std::max(p.lastAt, now + delay);
    p.lastAt = t;
    at(t, [=]() {
        if (pathBlocked(c)) { count("net.rst_lost"); return; }
        arriveRst(o, ECONNRESET);
    });
}

void Sim::deliver(Conn *c, int side, uint64_t sq)
{
    Pipe &p = c->pipe[side];
    if (p.inflight.empty() || p.inflight.front().seq != sq || p.waiting) return;
    if (pathBlocked(c)) {
        p.waiting = true;
        p.waitingSince = now;
        count("net.segment_held_by_partition");
        Time since = now;
        Endpoint *me = &c->ep[side];
        after(924 * SEC, [=]() {
            Pipe &pp = c->pipe[side];
            if (pp.waiting && pp.waitingSince == since) {
                count("net.user_timeout");
                pp.inflight.clear();
                pp.inflightBytes = 0;
                arriveRst(me, ETIMEDOUT);
            }
        });
        return;
    }
    Seg s = std::move(p.inflight.front());
    p.inflight.pop_front();
    p.inflightBytes -= s.data.size();
    Endpoint *o = &c->ep[1 - side];
    note('d', c->id, side, s.data.size());
    if (o->closed) {
        if (!c->unixdom && !(s.fin && s.data.empty())) { count("net.data_to_closed_peer"); rstTo(&c->ep[side], latency(c)); }
        else if (c->unixdom && !s.fin) { c->ep[side].reset = true; }
        if (c->ep[side].native) pumpNative(c->ep[side].native);
        return;
    }
    if (!s.data.empty()) arrive(o, std::move(s.data));
    if (s.fin) arriveFin(o);
}

void Sim::arrive(Endpoint *e, std::string &&d)
{
    if (e->reset) return;
    e->rx.append(d);
    if (e->conn->lastArrive[e->side] >= 0 && now - e->conn->lastArrive[e->side] >= 55 * SEC) e->conn->silenceEnd[e->side] = now;
    e->conn->lastArrive[e->side] = now;
    if (onArrive) onArrive(e);
    if (e->native) feedNative(e);
}

void Sim::arriveFin(Endpoint *e)
{
    if (e->closed || e->reset) return;
    e->rxFin = true;
    if (e->conn->endSeenAt[e->side] < 0) e->conn->endSeenAt[e->side] = now;
    if (e->native) feedNative(e);
}

void Sim::arriveRst(Endpoint *e, int err)
{
    if (e->closed || e->reset) return;
    note('R', e->conn->id, e->side, err);
    e->reset = true;
    e->err = err;
    if (e->conn->endSeenAt[e->side] < 0) e->conn->endSeenAt[e->side] = now;
    Pipe &p = e->conn->pipe[e->side];
    p.inflight.clear();
    p.inflightBytes = 0;
    p.waiting = false;
    if (e->native) {
        NativeSock *ns = e->native;
        markClosed(e);
        ns->dropOutbox();
        ns->onReset(err);
    }
}

void Sim::feedNative(Endpoint *e)
{
    NativeSock *ns = e->native;
    while (e->native && !ns->paused && !e->closed && e->avail() > 0) {
        std::string d = e->rx.substr(e->rxOff);
        e->rx.clear();
        moved = step;
        e->rxOff = 0;
        ns->onData(d.data(), d.size());
    }
    if (e->native && !ns->paused && !e->closed && e->rxFin && !e->finReported) {
        e->finReported = true;
        ns->onFin();
    }
}

void Sim::windowOpened(Endpoint *reader)
{
    Endpoint *o = &reader->conn->ep[1 - reader->side];
    if (o->native && o->native->pending()) {
        NativeSock *ns = o->native;
        Endpoint *oe = o;
        after(0, [=]() { if (oe->native == ns) pumpNative(ns); });
    }
}

// ---------------------------------------------------------------- native peers

Conn *Sim::connectNative(Node *from, uint32_t ip, uint16_t port, NativeSock *ns)
{
    Conn *c = newConn(false, from);
    c->ep[0].native = ns;
    ns->ep = &c->ep[0];
    c->ep[1].ip = ip;
    c->ep[1].port = port;
    note('c', 0, c->id, port);
    after(latency(c), [=]() { synArrived(c, ip, port, 0); });
    return c;
}

Conn *Sim::connectNativeUnix(Node *from, const std::string &path, NativeSock *ns)
{
    Listener *l = findUnix(path);
    Conn *c = newConn(true, from);
    c->ep[0].native = ns;
    ns->ep = &c->ep[0];
    note('c', 0, c->id, 1);
    if (!l || (int)l->queue.size() >= l->backlog) {
        count("net.unix_refused");
        after(0, [=]() { connectDone(c, ECONNREFUSED); });
        return c;
    }
    c->state = 1;
    c->establishedAt = now;
    c->ep[1].node = l->file->node;
    l->queue.push_back(c);
    after(0, [=]() { connectDone(c, 0); });
    return c;
}

void Sim::pumpNative(NativeSock *ns)
{
    Endpoint *e = ns->ep;
    Conn *c = e->conn;
    if (c->state != 1 || e->reset || e->closed) return;
    if (ns->pending()) {
        if (c->unixdom && c->ep[1 - e->side].closed) {
            ns->dropOutbox();
            arriveRst(e, EPIPE);
            return;
        }
        size_t u = used(c, e->side), cap = c->cap[e->side];
        size_t space = u < cap ? cap - u : 0;
        size_t k = std::min(space, ns->pending());
        if (k) {
            std::string d = ns->outbox.substr(ns->outOff, k);
            ns->outOff += k;
            if (!ns->pending()) ns->dropOutbox();
            else if (ns->outOff > 65536 && ns->outOff > ns->pending()) { ns->outbox.erase(0, ns->outOff); ns->outOff = 0; }
            mixBytes(d.data(), d.size());
            sendBytes(e, d.data(), d.size());
        }
        if (ns->pending()) {
            count("net.native_backpressure");
            // in flight data will be read some day; look again then
            return;
        }
    }
    if (ns->finQueued) {
        ns->finQueued = false;
        endpointGone(e);
    }
}

void Sim::nativeSend(NativeSock *ns, const std::string &data)
{
    Endpoint *e = ns->ep;
    if (!e || e->closed || e->reset || ns->finQueued) return;
    ns->outbox += data;
    pumpNative(ns);
}

void Sim::nativeClose(NativeSock *ns)
{
    Endpoint *e = ns->ep;
    if (!e || e->closed) return;
    if (e->conn->state == 0) { markClosed(e); e->conn->state = 2; return; }
    ns->finQueued = true;
    pumpNative(ns);
}

void Sim::nativeAbort(NativeSock *ns)
{
    Endpoint *e = ns->ep;
    if (!e || e->closed) return;
    markClosed(e);
    ns->dropOutbox();
    if (e->conn->state == 0) { e->conn->state = 2; return; }
    sendRst(e);
    std::string().swap(e->rx);
    e->rxOff = 0;
}

void Sim::nativeVanish(NativeSock *ns)
{
    Endpoint *e = ns->ep;
    if (!e || e->closed) return;
    markClosed(e);
    ns->dropOutbox();
    Pipe &p = e->conn->pipe[e->side];
    // what is already on the wire still arrives
    p.rstSent = true;
    e->wrShut = true;
    if (e->conn->state == 0) e->conn->state = 2;
    std::string().swap(e->rx);
    e->rxOff = 0;
}

void Sim::nativeResume(NativeSock *ns)
{
    ns->paused = false;
    if (ns->ep && !ns->ep->closed) {
        feedNative(ns->ep);
        if (ns->ep) windowOpened(ns->ep);
    }
}

size_t Sim::nativeUnsent(NativeSock *ns)
{
    if (!ns->ep) return 0;
    return ns->pending() + used(ns->ep->conn, ns->ep->side);
}

// ---------------------------------------------------------------- faults

void Sim::crashNode(Node *n, bool silent)
{
    trace("crash of node %s (%s)", n->name.c_str(), silent ? "power loss" : "process");
    for (size_t i = 0; i < files.size(); i++) {
        File *f = files[i];
        if (!f || f->node != n || f->dead) continue;
        if (f->listener) {
            Listener *l = f->listener;
            listeners.erase(std::find(listeners.begin(), listeners.end(), l));
            for (Conn *c : l->queue) {
                markClosed(&c->ep[1]);
                if (!silent) sendRst(&c->ep[1]);
            }
            delete l;
            f->listener = nullptr;
        }
        if (f->ep) {
            Endpoint *e = f->ep;
            e->file = nullptr;
            if (silent) {
                markClosed(e);
                e->wrShut = true;
                Pipe &p = e->conn->pipe[e->side];
                p.rstSent = true;
                if (e->conn->state == 0) e->conn->state = 2;
            } else {
                endpointGone(e);
            }
            f->ep = nullptr;
        }
        f->dead = true;
    }
}

void Sim::healPipes(std::function<bool(const Conn *)> affected)
{
    for (Conn &cc : conns) {
        Conn *c = &cc;
        if (c->unixdom || !affected(c) || pathBlocked(c)) continue;
        for (int side = 0; side < 2; side++) {
            Pipe &p = c->pipe[side];
            if (!p.waiting) continue;
            p.waiting = false;
            Time rto = std::min<Time>(std::max<Time>(now - p.waitingSince, 200 * MS), 60 * SEC);
            Time t = now + (Time)(rNet.unit() * rto);
            for (Seg &s : p.inflight) {
                s.seq = ++seq;
                s.at = t;
                uint64_t sq = s.seq;
                at(t, [=]() { deliver(c, side, sq); });
                t += rNet.range(0, MS);
            }
            p.lastAt = t;
        }
    }
}

void Sim::hurry()
{
    for (Conn &cc : conns) {
        Conn *c = &cc;
        for (int side = 0; side < 2; side++) {
            Pipe &p = c->pipe[side];
            if (p.waiting || p.rstSent || p.inflight.empty() || p.lastAt < now + 60 * SEC) continue;
            Time t = now + MS;
            Time span = p.lastAt - now, from = now;
            for (Seg &s : p.inflight) {
                s.seq = ++seq;
                t = std::max(t, from + (Time)((double)(s.at - from) / span * (20 * SEC)));
                s.at = t;
                uint64_t sq = s.seq;
                at(t, [=]() { deliver(c, side, sq); });
            }
            p.lastAt = t;
        }
    }
}

void Sim::setBlocked(Node *n, bool blocked)
{
    if (n->blocked == blocked) return;
    n->blocked = blocked;
    trace("%s %s", blocked ? "partition of" : "heal of", n->name.c_str());
    if (!blocked)
        healPipes([=](const Conn *c) { return c->ep[0].node == n || c->ep[1].node == n; });
}

void Sim::setConnBlocked(Conn *c, bool blocked)
{
    if (c->blocked == blocked) return;
    c->blocked = blocked;
    if (!blocked)
        healPipes([=](const Conn *x) { return x == c; });
}

} // namespace sim
