// Runs simulations. One process = one parent that has everything loaded; every
// run happens in a forked child, so that runs cannot influence each other.
#include "world.h"
#include <QLoggingCategory>
#include <QSslConfiguration>
#include <QSslKey>
#include <QSslCertificate>
#include <QHash>
#include <dirent.h>
#include <dlfcn.h>
#include <execinfo.h>
#include <fcntl.h>
#include <openssl/rand.h>
#include <signal.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include "servermain.h"

extern "C" void sim_entropy(void *buf, size_t n);
extern "C" void __gcov_dump(void) __attribute__((weak));

using namespace sim;

QUuid QUuid::createUuid()
{
    QUuid u;
    uint64_t a, b;
    sim_entropy(&a, 8);
    sim_entropy(&b, 8);
    u.data1 = (uint)a;
    u.data2 = (ushort)(a >> 32);
    u.data3 = (ushort)(((a >> 48) & 0x0fff) | 0x4000);
    for (int i = 0; i < 8; i++) u.data4[i] = (uchar)(b >> (8 * i));
    u.data4[0] = (u.data4[0] & 0x3f) | 0x80;
    return u;
}

static int rndBytes(unsigned char *b, int n) { sim_entropy(b, (size_t)n); return 1; }
static int rndStatus() { return 1; }
static int rndSeed(const void *, int) { return 1; }
static int rndAdd(const void *, int, double) { return 1; }
static RAND_METHOD g_rand = {rndSeed, rndBytes, nullptr, rndAdd, rndBytes, rndStatus};

static double realNow()
{
    timespec ts;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec / 1e9;
}

static std::string esc(const std::string &s)
{
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o.push_back('\\'); o.push_back((char)c); }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o.push_back((char)c);
    }
    return o;
}

struct Args {
    std::string mode, profile, trace;
    std::vector<std::pair<std::string, int>> profiles;
    uint64_t seed = 1, start = 0, stride = 1, count = UINT64_MAX;
    double until = 0;
    std::set<int> drop;
    std::map<std::string, double> over;
    int verbose = 1;
    bool log = false, qtlog = false;
};

static int g_out = 1;
static double g_t0;
static std::string g_scratch;
static const char *g_profile = "";
static uint64_t g_seed;

static void emitLine(const std::string &s)
{
    std::string l = s + "\n";
    size_t off = 0;
    while (off < l.size()) {
        ssize_t k = syscall(SYS_write, g_out, l.data() + off, l.size() - off);
        if (k <= 0) break;
        off += (size_t)k;
    }
}

static std::string result(const Args &a, bool aborted)
{
    std::string o = "{\"profile\":\"" + std::string(g_profile) + "\",\"seed\":" + std::to_string(g_seed);
    char b[64];
    snprintf(b, sizeof b, "%016llx", (unsigned long long)S->hash);
    o += ",\"steps\":" + std::to_string(S->step) + ",\"sim_s\":" + std::to_string(S->now / 1e9) + ",\"hash\":\"" + b + "\"";
    o += ",\"wall_ms\":" + std::to_string((realNow() - g_t0) * 1000);
    o += ",\"ops\":" + std::to_string(W ? W->ops.size() : 0);
    o += ",\"finished\":" + std::string(S->finished && !aborted ? "true" : "false");
    o += ",\"violations\":[";
    for (size_t i = 0; i < S->violations.size(); i++) {
        const Violation &v = S->violations[i];
        o += std::string(i ? "," : "") + "{\"cls\":\"" + esc(v.cls) + "\",\"at\":" + std::to_string(v.at / 1e9) + ",\"step\":" + std::to_string(v.step) + ",\"detail\":\"" + esc(v.detail) + "\"}";
    }
    o += "],\"counters\":{";
    bool first = true;
    for (auto &c : S->counters) { o += std::string(first ? "" : ",") + "\"" + esc(c.first) + "\":" + std::to_string(c.second); first = false; }
    o += "},\"states\":[";
    first = true;
    for (uint64_t h : S->states) { o += std::string(first ? "" : ",") + std::to_string(h); first = false; }
    o += "]";
    if (a.log && W) {
        o += ",\"knobs\":{";
        first = true;
        for (auto &k : W->drawn) { snprintf(b, sizeof b, "%.9g", k.second); o += std::string(first ? "" : ",") + "\"" + esc(k.first) + "\":" + b; first = false; }
        o += "},\"log\":[";
        for (size_t i = 0; i < W->log.size(); i++) o += std::string(i ? "," : "") + "\"" + esc(W->log[i]) + "\"";
        o += "]";
    }
    return o + "}";
}

static const Args *g_args;

static void crashed(int sig);

// CPU time goes by: a step without an end is a hang, a run without an end is just too long.
// What a run that was given up had found so far is not believed, for it depends on the machine.
static void cpuTick(int sig)
{
    static uint64_t last = UINT64_MAX;
    static int ticks = 0;
    if (S->step == last) crashed(sig);
    last = S->step;
    if (++ticks >= S->cpuTicks) S->abandon = true;
}

static void crashed(int sig)
{
    // the process is broken; say where, as well as still possible
    static volatile int busy = 0;
    if (busy++) _exit(99);
    S->active = false;
    void *bt[40];
    int n = backtrace(bt, 40);
    std::string where;
    char **sym = backtrace_symbols(bt, n);
    for (int i = 1; i < n && sym && where.size() < 900; i++) {
        std::string s = sym[i];
        size_t p = s.find('('), q = s.find('+', p == std::string::npos ? 0 : p);
        if (p != std::string::npos && q != std::string::npos && q > p + 1) where += s.substr(p + 1, q - p - 1) + " < ";
    }
    if (sig == SIGXCPU || sig == SIGVTALRM || sig == SIGPROF) S->violation("hang", "no end of step " + std::to_string(S->step) + " in sight: " + where);
    else S->violation("crash", std::string(strsignal(sig)) + " in step " + std::to_string(S->step) + ": " + where);
    S->hash = 0; // where exactly a wild run dies is not part of the comparison
    emitLine(result(*g_args, true));
    _exit(98);
}

static bool wholeProgram(const Args &a)
{
    auto is = [](const std::string &p) { return p == "signal" || p == "config"; };
    if (is(a.profile)) return true;
    for (auto &p : a.profiles) if (is(p.first)) return true;
    return false;
}

static void quiet(QtMsgType, const QMessageLogContext &, const QString &m)
{
    if (S->traceFile && S->verbose > 2) S->trace("qt: %s", m.toUtf8().constData());
}

static void finish() __attribute__((noreturn));
static bool g_inChild;

// A program that calls exit() comes here after all of its own exit handlers and
// static destructors: this one is registered before any of them.
static void lateEnd(int status, void *)
{
    if (!g_inChild) return;
    inSim++;
    if (W->afterExit) W->afterExit(status);
    finish();
}
__attribute__((constructor(101))) static void registerLateEnd() { on_exit(lateEnd, nullptr); }

static void runChild(const Args &a, const std::string &profile, uint64_t seed)
{
    g_profile = profile.c_str();
    g_seed = seed;
    struct rlimit rl;
    getrlimit(RLIMIT_CPU, &rl);
    struct itimerval itv;
    memset(&itv, 0, sizeof itv);
    itv.it_value.tv_sec = itv.it_interval.tv_sec = atoi(getenv("SIM_CPU_LIMIT") ? getenv("SIM_CPU_LIMIT") : "10");
    setitimer(ITIMER_VIRTUAL, &itv, nullptr);
    static char stack[65536];
    stack_t ss;
    ss.ss_sp = stack;
    ss.ss_size = sizeof stack;
    ss.ss_flags = 0;
    sigaltstack(&ss, nullptr);
#ifndef __SANITIZE_ADDRESS__
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM}) {
#else
    for (int s : {SIGABRT, SIGVTALRM}) {
#endif
        struct sigaction sa;
        memset(&sa, 0, sizeof sa);
        sa.sa_handler = s == SIGVTALRM ? cpuTick : crashed;
        sa.sa_flags = SA_ONSTACK | SA_NODEFER | SA_RESTART;
        sigaction(s, &sa, nullptr);
    }
    signal(SIGPIPE, SIG_IGN);
    g_inChild = true;
    g_t0 = realNow();
    qSetGlobalQHashSeed((int)(seed & 0x7fffffff));
    S->seed = seed;
    uint64_t ph = std::hash<std::string>()(profile);
    S->rSched.seed(seed, ph + 1);
    S->rNet.seed(seed, ph + 2);
    S->rFault.seed(seed, ph + 3);
    S->rEntropy.seed(seed, ph + 4);
    W = new World;
    W->profile = profile;
    W->seed = seed;
    W->rOps.seed(seed, ph + 5);
    W->rKnob.seed(seed, ph + 6);
    W->rPay.seed(seed, ph + 7);
    W->rUuid.seed(seed, ph + 8);
    W->over = a.over;
    W->dropped = a.drop;
    W->dir = g_scratch + "/r" + std::to_string(getpid() % 100000);
    // paths enter no decision, but their length could: keep it constant
    W->dir = g_scratch + "/run";
    mkdir(W->dir.c_str(), 0700);
    W->tg.tcpPort = 2213;
    W->tg.wsPort = 2212;
    W->tg.unixPath = W->dir + "/px.sock";
    W->monitorPath = W->dir + "/mon.sock";
    S->harness = S->addNode("harness", ipv4(10, 0, 0, 250));
    S->proxy = S->addNode("proxy", ipv4(10, 0, 0, 1));
    S->cur = S->harness;
    S->active = true;
    if (!a.trace.empty()) S->traceFile = a.trace == "-" ? stderr : fopen(a.trace.c_str(), "w");
    S->verbose = a.verbose;
    S->trace("seed %llu profile %s", (unsigned long long)seed, profile.c_str());
    setupProfile(profile);
    if (wholeProgram(a)) runServerMain();
    else QCoreApplication::exec();
    finish();
}

static void finish()
{
    if (S->livelock()) S->violation("hang.steps", "more than " + std::to_string(S->maxSteps) + " steps, now " + std::to_string(S->now / 1e9) + " s");
    else if (S->abandon) { S->violations.clear(); S->finished = false; }
    if (S->traceFile) fflush(S->traceFile);
    emitLine(result(*g_args, false));
    S->active = false;
    if (__gcov_dump) __gcov_dump();
    _exit(S->violations.empty() ? 0 : 1);
}

static void emptyDir(const std::string &d)
{
    if (d.compare(0, g_scratch.size() + 5, g_scratch + "/run/")) return;
    DIR *h = opendir(d.c_str());
    if (!h) return;
    while (struct dirent *e = readdir(h)) {
        std::string n = e->d_name;
        if (n == "." || n == "..") continue;
        if (e->d_type == DT_DIR) emptyDir(d + "/" + n);
        else unlink((d + "/" + n).c_str());
    }
    closedir(h);
    rmdir(d.c_str());
}

static void cleanDir()
{
    std::string d = g_scratch + "/run";
    emptyDir(d + "/root");
    for (const char *f : {"none.pem", "bad.pem", "px.sock", "mon.sock", "proxy.conf", "proxy2.conf", "log", "mon2.sock", "px2.sock"}) unlink((d + "/" + f).c_str());
    rmdir(d.c_str());
}

// ASan writes its report to a file next to the run
static std::string asanReport(pid_t pid)
{
    std::string f = g_scratch + "/asan." + std::to_string(pid), t;
    if (FILE *h = fopen(f.c_str(), "r")) {
        char b[4096];
        size_t n;
        while ((n = fread(b, 1, sizeof b, h)) > 0 && t.size() < 20000) t.append(b, n);
        fclose(h);
        unlink(f.c_str());
    }
    return t;
}

static int spawn(const Args &a, const std::string &profile, uint64_t seed)
{
    double t = realNow();
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) runChild(a, profile, seed);
    int st = 0;
    bool lost = false;
    // wall clock guard; the CPU limit inside the child normally comes first
    for (;;) {
        struct rusage ru;
        pid_t r = wait4(pid, &st, WNOHANG, &ru);
        if (r == pid) break;
        if (realNow() - t > 300) {
            kill(pid, SIGKILL);
            wait4(pid, &st, 0, &ru);
            // blocked, or just too slow a machine?
            if (ru.ru_utime.tv_sec + ru.ru_stime.tv_sec > 5) lost = true;
            break;
        }
        struct timespec ts = {0, realNow() - t < 0.05 ? 500000 : 3000000};
        syscall(SYS_nanosleep, &ts, nullptr);
    }
    cleanDir();
    int code = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
    if (lost) {
        emitLine("{\"profile\":\"" + profile + "\",\"seed\":" + std::to_string(seed) + ",\"steps\":0,\"sim_s\":0,\"hash\":\"0\",\"wall_ms\":0,\"ops\":0,\"finished\":false,\"counters\":{},\"states\":[],\"violations\":[]}");
    } else if (code != 0 && code != 1 && code != 98) {
        std::string rep = asanReport(pid), where;
        for (size_t p = 0; (p = rep.find(" in ", p)) != std::string::npos && where.size() < 700; p += 4) {
            size_t e = rep.find('\n', p);
            where += rep.substr(p + 4, std::min<size_t>(e - p - 4, 110)) + " < ";
        }
        std::string head;
        size_t e = rep.find("ERROR: ");
        if (e != std::string::npos) head = rep.substr(e + 7, rep.find('\n', e) - e - 7);
        size_t onAddr = head.find(" on ");
        if (onAddr != std::string::npos) head = head.substr(0, onAddr);
        emitLine("{\"profile\":\"" + profile + "\",\"seed\":" + std::to_string(seed) + ",\"steps\":0,\"sim_s\":0,\"hash\":\"0\",\"wall_ms\":0,\"ops\":0,\"finished\":false,\"counters\":{},\"states\":[],\"violations\":[{\"cls\":\"" +
                 (code == 3 ? "harness" : "crash") + "\",\"at\":0,\"step\":0,\"detail\":\"" + esc(head + " exit " + std::to_string(code) + ": " + where) + "\"}]}");
    }
    return code;
}

int main(int argc, char **argv)
{
    if (!getenv("SIM_CHILD")) {
        // no address space randomisation, no dependence on the machine
        personality(ADDR_NO_RANDOMIZE);
        setenv("SIM_CHILD", "1", 1);
        setenv("QT_NO_CPU_FEATURE", "avx avx2 rdrnd rdseed sha avx512f", 1);
        setenv("QT_HASH_SEED", "0", 1);
        setenv("OPENSSL_ia32cap", "~0x5000000000000000:~0x20000000", 0);
        setenv("LC_ALL", "C", 1);
        setenv("TZ", "UTC", 1);
        setenv("OPENSSL_CONF", "/dev/null", 1);
        unsetenv("QT_LOGGING_RULES");
        if (!getenv("SIM_CERTS")) {
            char exe[4096];
            ssize_t k = readlink("/proc/self/exe", exe, sizeof exe - 32);
            std::string d(exe, k > 0 ? (size_t)k : 0);
            d = d.substr(0, d.rfind('/'));
            setenv("SIM_CERTS", (d.substr(0, d.rfind('/')) + "/sim/certs").c_str(), 1);
        }
        execv("/proc/self/exe", argv);
        return 4;
    }
    Args a;
    std::vector<std::string> v(argv + 1, argv + argc);
    if (v.empty()) { fprintf(stderr, "usage: sim run|batch ...\n"); return 2; }
    a.mode = v[0];
    for (size_t i = 1; i + 1 < v.size(); i += 2) {
        const std::string &k = v[i], &x = v[i + 1];
        if (k == "--profile") a.profile = x;
        else if (k == "--profiles") {
            size_t p = 0;
            while (p < x.size()) {
                size_t q = x.find(',', p);
                if (q == std::string::npos) q = x.size();
                std::string e = x.substr(p, q - p);
                size_t c = e.find(':');
                a.profiles.push_back({e.substr(0, c), c == std::string::npos ? 1 : atoi(e.c_str() + c + 1)});
                p = q + 1;
            }
        }
        else if (k == "--seed") a.seed = strtoull(x.c_str(), nullptr, 10);
        else if (k == "--start") a.start = strtoull(x.c_str(), nullptr, 10);
        else if (k == "--stride") a.stride = strtoull(x.c_str(), nullptr, 10);
        else if (k == "--count") a.count = strtoull(x.c_str(), nullptr, 10);
        else if (k == "--until") a.until = atof(x.c_str());
        else if (k == "--trace") a.trace = x;
        else if (k == "--verbose") a.verbose = atoi(x.c_str());
        else if (k == "--log") a.log = x != "0";
        else if (k == "--drop") { for (size_t p = 0; p < x.size();) { a.drop.insert(atoi(x.c_str() + p)); p = x.find(',', p); if (p == std::string::npos) break; p++; } }
        else if (k == "--knob") { size_t e = x.find('='); a.over[x.substr(0, e)] = atof(x.c_str() + e + 1); }
        else { fprintf(stderr, "unknown option %s\n", k.c_str()); return 2; }
    }
    g_args = &a;
    // what the simulated programs print is not ours
    g_out = dup(1);
    fcntl(g_out, F_SETFD, FD_CLOEXEC);
    int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 1);

    char tmpl[64];
    const char *base = getenv("SIM_SCRATCH");
    snprintf(tmpl, sizeof tmpl, "%s/nysXXXXXX", base ? base : "/tmp");
    // names of equal length everywhere; mkdtemp draws from the (fixed) entropy, so pick by pid
    // (processes which were killed leave theirs behind)
    bool made = false;
    for (int k = 0; k < 1000 && !made; k++) {
        snprintf(tmpl, sizeof tmpl, "%s/nys%07d", base ? base : "/tmp", (int)((getpid() + k * 7919LL) % 10000000));
        made = mkdir(tmpl, 0700) == 0;
        if (!made && errno != EEXIST) break;
    }
    if (!made) { fprintf(stderr, "no scratch directory %s\n", tmpl); return 4; }
    g_scratch = tmpl;
#ifdef __SANITIZE_ADDRESS__
    // nothing: options come from the environment
#endif

    S = new Sim;
    if (getenv("SIM_TRAP")) S->trapStep = strtoull(getenv("SIM_TRAP"), nullptr, 10);
    RAND_set_rand_method(&g_rand);
    qInstallMessageHandler(quiet);
    QCoreApplication::setEventDispatcher(new Dispatcher);
    int ac = 1;
    QCoreApplication *app = nullptr;
    // the signal profile runs the main() of the server, which has an application of its own
    if (!wholeProgram(a)) app = new SimApp<QCoreApplication>(ac, argv);
    (void)app;
    if (!(a.verbose > 2)) QLoggingCategory::setFilterRules("*=false\nqt.*=false");
    else QLoggingCategory::setFilterRules("*.debug=true");
    QSslSocket::supportsSsl();
    QSslConfiguration dc = QSslConfiguration::defaultConfiguration();
    dc.setCaCertificates(QList<QSslCertificate>());
    QSslConfiguration::setDefaultConfiguration(dc);
    preloadProfiles();

    int worst = 0;
    if (a.mode == "run") {
        worst = spawn(a, a.profile, a.seed);
    } else {
        double t = realNow();
        int total = 0;
        for (auto &p : a.profiles) total += p.second;
        for (uint64_t i = 0; i < a.count; i++) {
            if (a.until > 0 && realNow() - t > a.until) break;
            uint64_t idx = a.start + i * a.stride;
            int k = (int)(idx % (uint64_t)total);
            std::string prof;
            for (auto &p : a.profiles) { if (k < p.second) { prof = p.first; break; } k -= p.second; }
            int c = spawn(a, prof, a.seed * 1000000007ull + idx);
            if (c > worst) worst = c;
            if (c == 3) break;
        }
    }
    rmdir(g_scratch.c_str());
    return worst > 1 && worst != 98 ? 1 : worst ? 1 : 0;
}
