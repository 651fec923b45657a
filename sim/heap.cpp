// Follows the heap blocks, QObjects and such that the simulated proxy owns, for
// the checks that everything is released. Off unless a profile asks for it.
#include "heap.h"
#include "kernel.h"
#include <QObject>
#include <QMetaObject>
#include <execinfo.h>
#include <string.h>
#include <unordered_map>

extern quintptr Q_CORE_EXPORT qtHookData[];

namespace sim {

static bool g_on = false;
static const size_t N = 1 << 21;
struct Block { void *p; uint32_t size; uint32_t gen; };
static Block *g_tab;
static size_t g_live, g_bytes;
static uint32_t g_gen;
static bool g_bt;
struct Bt { void *f[16]; };
static Bt *g_bts;

static inline size_t slot(void *p) { return (size_t)(((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 43) & (N - 1); }

static void add(void *p, size_t n)
{
    if (!p || g_live > N / 2) return;
    size_t i = slot(p);
    while (g_tab[i].p && g_tab[i].p != (void *)1) i = (i + 1) & (N - 1);
    g_tab[i].p = p;
    g_tab[i].size = (uint32_t)n;
    g_tab[i].gen = g_gen;
    g_live++;
    g_bytes += n;
    if (g_bt) { bool o = g_on; g_on = false; memset(&g_bts[i], 0, sizeof(Bt)); backtrace(g_bts[i].f, 16); g_on = o; }
}

static void del(void *p)
{
    if (!p) return;
    size_t i = slot(p);
    while (g_tab[i].p) {
        if (g_tab[i].p == p) { g_tab[i].p = (void *)1; g_live--; g_bytes -= g_tab[i].size; return; }
        i = (i + 1) & (N - 1);
    }
}

void (*g_allocHook)();
static inline void point() { if (g_allocHook && !inSim && S && S->active && S->cur == S->proxy) g_allocHook(); }
static inline bool ours() { return g_on && !inSim && S && S->active && S->cur == S->proxy; }

} // namespace sim

#ifndef __SANITIZE_ADDRESS__
extern "C" {
void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void __libc_free(void *);
void *malloc(size_t n)
{
    sim::point();
    void *p = __libc_malloc(n);
    if (sim::ours()) sim::add(p, n);
    return p;
}
void *calloc(size_t a, size_t b)
{
    void *p = __libc_calloc(a, b);
    if (sim::ours()) sim::add(p, a * b);
    return p;
}
void *realloc(void *o, size_t n)
{
    if (sim::g_on) sim::del(o);
    void *p = __libc_realloc(o, n);
    if (sim::ours()) sim::add(p, n);
    return p;
}
void free(void *p)
{
    sim::point();
    if (sim::g_on) sim::del(p);
    __libc_free(p);
}
}
#endif

namespace sim {

static std::unordered_map<QObject *, uint32_t> *g_objs;

static void objAdd(QObject *o)
{
    if (!ours()) return;
    bool on = g_on;
    g_on = false;
    (*g_objs)[o] = g_gen;
    g_on = on;
}
static void objDel(QObject *o)
{
    if (!g_objs) return;
    bool on = g_on;
    g_on = false;
    g_objs->erase(o);
    g_on = on;
}

void heapStart()
{
#ifndef __SANITIZE_ADDRESS__
    g_tab = (Block *)__libc_calloc(N, sizeof(Block));
    g_bt = getenv("SIM_HEAPTRACE") != nullptr;
    if (g_bt) { g_bts = (Bt *)__libc_calloc(N, sizeof(Bt)); void *x[4]; backtrace(x, 4); }
#endif
    g_objs = new std::unordered_map<QObject *, uint32_t>;
    qtHookData[3] = (quintptr)&objAdd;
    qtHookData[4] = (quintptr)&objDel;
#ifndef __SANITIZE_ADDRESS__
    g_on = true;
#endif
}

void heapGeneration(int g) { g_gen = (uint32_t)g; }
size_t heapBlocks() { return g_live; }
size_t heapBytes() { return g_bytes; }
size_t heapBlocksOf(int g)
{
    size_t n = 0;
    if (g_tab) for (size_t i = 0; i < N; i++) if (g_tab[i].p > (void *)1 && g_tab[i].gen == (uint32_t)g) n++;
    return n;
}

// Qt's QWebSocketServer never deletes a connection whose TLS handshake fails:
// a matter of Qt, not of the code under test
static bool inQt(QObject *o)
{
    for (; o; o = o->parent())
        if (!strcmp(o->metaObject()->className(), "QSslServer")) return true;
    return false;
}

int objectCount()
{
    int n = 0;
    if (g_objs) for (auto &o : *g_objs) if (!inQt(o.first)) n++;
    return n;
}

int objectsOfQt()
{
    int n = 0;
    if (g_objs) for (auto &o : *g_objs) if (inQt(o.first)) n++;
    return n;
}

std::string objectsOf(int g)
{
    std::map<std::string, int> m;
    for (auto &o : *g_objs) if (o.second == (uint32_t)g && !inQt(o.first)) m[o.first->metaObject()->className()]++;
    std::string s;
    for (auto &x : m) s += (s.empty() ? "" : ", ") + std::to_string(x.second) + " " + x.first;
    return s;
}

void heapReport(int g)
{
    if (!g_bt) return;
    bool on = g_on;
    g_on = false;
    std::map<std::string, std::pair<int, size_t>> m;
    for (size_t i = 0; i < N; i++)
        if (g_tab[i].p > (void *)1 && g_tab[i].gen == (uint32_t)g) {
            char **sy = backtrace_symbols(g_bts[i].f, 16);
            std::string s;
            for (int k = 2; k < 12 && g_bts[i].f[k]; k++) {
                std::string x = sy[k];
                size_t a = x.find('('), b = x.find('+');
                if (a != std::string::npos && b > a + 1) s += x.substr(a + 1, b - a - 1).substr(0, 50) + " < ";
            }
            free(sy);
            m[s].first++;
            m[s].second += g_tab[i].size;
        }
    for (auto &x : m) fprintf(stderr, "%d blocks %zu bytes: %s\n", x.second.first, x.second.second, x.first.c_str());
    g_on = on;
}

} // namespace sim
