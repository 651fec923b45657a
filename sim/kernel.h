// Simulated kernel: virtual clock, PRNG streams, sockets, network, fault points.
// Everything the code under test asks libc for (sockets, clocks, entropy) is
// answered here; see interpose.cpp for the libc entry points.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <cerrno>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <queue>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace sim {

typedef int64_t Time; // nanoseconds
static const Time US = 1000, MS = 1000 * US, SEC = 1000 * MS;

struct Rng {
    uint64_t s = 1;
    void seed(uint64_t a, uint64_t b = 0)
    {
        s = a * 0x9E3779B97F4A7C15ull + b * 0xD1B54A32D192ED03ull + 0x2545F4914F6CDD1Dull;
        next(); next();
    }
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); } // inclusive
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    bool chance(double p) { return p > 0 && unit() < p; }
    Time logTime(Time a, Time b); // log-uniform
    template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};

// >0 while code of the simulator runs on behalf of a node
extern int inSim;
struct InSim { InSim() { inSim++; } ~InSim() { inSim--; } };

struct Conn;
struct Endpoint;
struct File;

struct Node {
    int id = 0;
    std::string name;
    uint32_t ip = 0;           // host order
    Time stalledUntil = 0;     // no event of this node's process runs before
    int fdLimit = 1 << 20;
    int fdCount = 0;
    bool netDown = false;      // connect() fails at once with ENETUNREACH
    bool blocked = false;      // partition: no packet in or out
    bool failSocket = false;   // socket() fails with EMFILE
    Time wallOffset = 0;
    Conn *lastConn = nullptr;
    int connects = 0;
};

struct NativeSock {
    Endpoint *ep = nullptr;
    std::string outbox;       // accepted from the peer, not yet in the pipe
    size_t outOff = 0;        // of that already in the pipe
    size_t pending() const { return outbox.size() - outOff; }
    void dropOutbox() { std::string().swap(outbox); outOff = 0; }
    bool finQueued = false;
    bool paused = false;      // do not read (zero window towards the sender)
    virtual ~NativeSock() {}
    virtual void onConnected() = 0;
    virtual void onConnectFailed(int err) = 0;
    virtual void onData(const char *d, size_t n) = 0;
    virtual void onFin() = 0;
    virtual void onReset(int err) = 0;
};

struct Seg {
    Time at = 0;
    uint64_t seq = 0;
    std::string data;
    bool fin = false;
};

struct Pipe { // one direction
    std::deque<Seg> inflight;
    size_t inflightBytes = 0;
    Time lastAt = 0;
    bool waiting = false;      // head segment could not be delivered (partition)
    Time waitingSince = 0;
    bool rstSent = false;
    uint64_t total = 0;        // bytes ever accepted
};

struct Endpoint {
    Conn *conn = nullptr;
    int side = 0;
    Node *node = nullptr;
    File *file = nullptr;
    NativeSock *native = nullptr;
    std::string rx;
    size_t rxOff = 0;
    bool rxFin = false, finReported = false;
    int err = 0;
    bool reset = false;
    bool closed = false; // this side is gone: nothing is read any more
    bool wrShut = false;
    bool accepted = false;
    uint32_t ip = 0;
    uint16_t port = 0;
    size_t avail() const { return rx.size() - rxOff; }
};

struct Conn {
    int id = 0;
    bool unixdom = false;
    Endpoint ep[2];   // 0 = connecting side, 1 = accepting side
    Pipe pipe[2];     // pipe[s]: from ep[s] to ep[1-s]
    size_t cap[2] = {65536, 65536};
    Time lat = MS;
    int state = 0;    // 0 connecting, 1 established, 2 failed
    bool blocked = false; // this connection only
    Time openedAt = 0;            // connect() called
    Time establishedAt = -1;      // in the listener's queue
    Time acceptedAt = -1;         // accept() returned it
    Time closedAt[2] = {-1, -1};  // that side's process gave the socket up
    Time lastArrive[2] = {-1, -1}; // last bytes that reached that side
    Time silenceEnd[2] = {-1, -1}; // last end of 55 s without any
    Time lastAll = -1;             // ... and nothing waited to be said
    Time upWhole = -1;             // the first time after the opening handshake
    Time lastWhole = -1;           // everything said so far had reached the accepting side
    void *owner = nullptr;
    Time endSeenAt[2] = {-1, -1}; // FIN or RST reached that side
    Time blockedSince = -1;
};

struct Listener {
    File *file = nullptr;
    bool unixdom = false;
    uint32_t ip = 0;
    uint16_t port = 0;
    uint64_t inode = 0;
    std::deque<Conn *> queue;
    int backlog = 50;
};

struct File {
    int fd = -1;
    Node *node = nullptr;
    bool unixdom = false;
    bool dead = false;          // its process has crashed: no operation has an effect
    Listener *listener = nullptr;
    Endpoint *ep = nullptr;
    int connState = 0;          // 0 none, 1 connecting, 2 connected, 3 failed
    bool connReported = false;
    int soError = 0;
    uint32_t bindIp = 0;
    uint16_t bindPort = 0;
    uint64_t inode = 0;
    std::string path;           // local name for unix listeners
    bool v6 = false;
    std::shared_ptr<std::string> in, out; // pipes and socket pairs of one process
    bool counter = false;       // an eventfd
    bool local() const { return in || out; }
};

struct NetKnobs {
    Time latMin = 100 * US, latMax = 5 * MS;
    double jitter = 0.3;         // probability of extra delay for a segment
    Time jitterMax = 20 * MS;
    int chunkMode = 0;           // 0 whole, 1 mss, 2 random cuts, 3 tiny, 4 mixed per write
    double gapProb = 0.5;        // probability that a cut becomes its own arrival
    double coalesce = 0.0;       // delay arrivals so that they meet (Nagle-like)
    size_t capMin = 65536, capMax = 65536;
    double shortWrite = 0;       // write() takes fewer bytes than it could
    double spuriousAgain = 0;    // write() says EAGAIN although writable
    double shortRead = 0;
    double eintr = 0;
    double acceptAbort = 0;      // accept() fails with ECONNABORTED
    bool rstLosesInflight = true;
};

struct SchedKnobs {
    double posted = 0.9;    // run posted events before the next activation
    Time costMin = US, costMax = 30 * US;
    double slowProb = 0;    // an activation is followed by a pause of up to slowMax
    Time slowMax = 0;
    double coarse = 0;      // relative jitter of coarse timers (0.05 is Qt's)
    int pickMode = 0;       // 0 uniform, 1 fifo-ish (lowest fd first), 2 lifo-ish, 3 timers last
};

struct Violation { std::string cls, detail; Time at = 0; uint64_t step = 0; };

struct Sim {
    uint64_t seed = 0;
    bool active = false;
    Time now = 0;
    uint64_t seq = 0, step = 0, trapStep = 0;
    uint64_t maxSteps = 2000000;
    uint64_t moved = 0;                     // step of the last byte read by anybody
    int cpuTicks = 6;                       // periods of CPU time before a run is given up
    volatile bool abandon = false;          // too long a run for a verdict
    bool livelock() const { return step > maxSteps && step - moved > 200000; }
    bool exhausted() const { return abandon || livelock(); }
    Rng rSched, rNet, rFault, rEntropy;
    NetKnobs net;
    SchedKnobs sched;
    Node *cur = nullptr;      // node whose code is running
    Node *harness = nullptr;
    Node *proxy = nullptr;
    std::vector<std::unique_ptr<Node>> nodes;
    std::vector<File *> files;              // by fd
    std::vector<Listener *> listeners;
    std::deque<Conn> conns;
    uint64_t hash = 1469598103934665603ull;
    int verbose = 0;
    FILE *traceFile = nullptr;
    bool faultsOn = true;
    bool finished = false;
    std::vector<Violation> violations;
    std::map<std::string, uint64_t> counters;      // faults fired and probes reached
    std::unordered_set<uint64_t> states;           // distinct abstract states
    uint16_t nextPort = 40000;
    std::function<void(Endpoint *)> onMarkClosed; // one side of a connection is gone
    std::function<void(Endpoint *)> onArrive;
    std::function<void(Endpoint *, const char *, size_t)> onSend; // bytes enter a connection
    std::function<void()> afterStep;               // invariant hook
    std::function<void(const char *call)> syscallHook; // crash / signal points
    bool simPipes = false;

    // files of the proxy: system paths live below vroot, every call can fail
    struct VFile { std::string path; uint64_t off = 0; };
    std::string vroot;                             // empty: real paths
    std::vector<std::string> vkeep;                // prefixes that stay real
    std::map<int, VFile> vfds;
    std::function<int(const std::string &path, int flags)> onOpen;              // errno, or 0
    std::function<long(const VFile &, bool write, size_t n)> onIo;             // bytes it may take, or -errno
    std::string vpath(const std::string &p) const;
    uint64_t listens = 0;                          // listeners ever opened by the proxy
    uint64_t syscalls = 0;
    Time slowTotal = 0;

    struct Ev { Time at; uint64_t seq; std::function<void()> fn; };
    struct EvCmp { bool operator()(const Ev *a, const Ev *b) const { return a->at != b->at ? a->at > b->at : a->seq > b->seq; } };
    std::priority_queue<Ev *, std::vector<Ev *>, EvCmp> q;

    Node *addNode(const std::string &name, uint32_t ip);
    void at(Time t, std::function<void()> fn);
    void after(Time d, std::function<void()> fn) { at(now + d, std::move(fn)); }
    bool runDue();                       // runs the events that are due; false if there was none
    Time nextEvent() const { return q.empty() ? INT64_MAX : q.top()->at; }

    void count(const char *what, uint64_t n = 1) { counters[what] += n; }
    void mix(uint64_t v) { hash = (hash ^ v) * 1099511628211ull; hash ^= hash >> 29; }
    void mixBytes(const char *d, size_t n);
    void trace(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
    void note(char tag, uint64_t a, uint64_t b = 0, uint64_t c = 0);
    void violation(const std::string &cls, const std::string &detail);

    // readiness
    bool readable(const File *f) const;
    bool writable(const File *f) const;

    // kernel side of the socket calls (errno set on failure)
    int k_socket(int domain, int type);
    int k_bind(File *f, const void *addr, unsigned len);
    int k_listen(File *f, int backlog);
    int k_connect(File *f, const void *addr, unsigned len);
    int k_accept(File *f);
    int k_pipe(int fds[2], bool both);
    int k_eventfd(unsigned init);
    long k_read(File *f, char *buf, size_t n, bool peek = false);
    long k_write(File *f, const char *buf, size_t n);
    void k_close(File *f);
    int k_shutdown(File *f, int how);

    // native (harness) side
    Conn *connectNative(Node *from, uint32_t ip, uint16_t port, NativeSock *ns);
    Conn *connectNativeUnix(Node *from, const std::string &path, NativeSock *ns);
    // a harness process that listens: a NativeSock for every connection, or none to refuse it
    struct NativeListener { Node *node; uint32_t ip; uint16_t port; std::function<NativeSock *(Conn *)> accept; };
    std::vector<NativeListener> nativeListeners;
    void nativeSend(NativeSock *ns, const std::string &data);
    void nativeClose(NativeSock *ns);     // graceful: FIN after the outbox
    void nativeAbort(NativeSock *ns);     // RST
    void nativeVanish(NativeSock *ns);    // host lost power: nothing is sent, ever
    void nativeResume(NativeSock *ns);    // after paused = false
    size_t nativeUnsent(NativeSock *ns);  // outbox + in flight + unread by the peer

    void crashNode(Node *n, bool silent); // process (or host, if silent) dies
    void setBlocked(Node *n, bool blocked);
    void setConnBlocked(Conn *c, bool blocked);
    void hurry();                         // what is under way for more than a minute arrives soon
    int openFds(const Node *n) const;
    Listener *findListener(uint32_t ip, uint16_t port);
    Listener *findUnix(const std::string &path);

    // internals
    Conn *newConn(bool unixdom, Node *from);
    bool pathBlocked(const Conn *c) const;
    size_t used(const Conn *c, int side) const;
    void sendBytes(Endpoint *e, const char *d, size_t n);
    void sendFin(Endpoint *e);
    void sendRst(Endpoint *e);
    void rstTo(Endpoint *e, Time delay);
    void schedHead(Conn *c, int side);
    void deliver(Conn *c, int side, uint64_t seq);
    void arrive(Endpoint *e, std::string &&d);
    void arriveFin(Endpoint *e);
    void arriveRst(Endpoint *e, int err);
    void pumpNative(NativeSock *ns);
    void feedNative(Endpoint *e);
    void windowOpened(Endpoint *reader);
    void synArrived(Conn *c, uint32_t ip, uint16_t port, int attempt);
    void connectDone(Conn *c, int err);
    void endpointGone(Endpoint *e);
    void healPipes(std::function<bool(const Conn *)> affected);
    Time latency(const Conn *c);
    void markClosed(Endpoint *e) { e->closed = true; if (e->conn->closedAt[e->side] < 0) { e->conn->closedAt[e->side] = now; if (onMarkClosed) onMarkClosed(e); } }
    File *newFile(Node *n);
    void freeFile(File *f);
};

extern Sim *S;

struct NodeScope {
    Node *old;
    explicit NodeScope(Node *n) { old = S->cur; if (n) S->cur = n; }
    ~NodeScope() { S->cur = old; }
};

inline uint32_t ipv4(int a, int b, int c, int d) { return (uint32_t)a << 24 | b << 16 | c << 8 | d; }
std::string ipStr(uint32_t ip);

} // namespace sim
