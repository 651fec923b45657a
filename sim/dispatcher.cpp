#include <signal.h>
#include "dispatcher.h"
#include <algorithm>

namespace sim {

static std::unordered_map<QObject *, Node *> g_roots;

void App::setRoot(QObject *o, Node *n) { g_roots[o] = n; }
void App::dropRoot(QObject *o) { g_roots.erase(o); }
Node *App::defaultNode;
Node *App::nodeOf(QObject *o)
{
    if (defaultNode) return defaultNode;
    if (g_roots.empty()) return nullptr;
    while (o) {
        auto it = g_roots.find(o);
        if (it != g_roots.end()) return it->second;
        o = o->parent();
    }
    return nullptr;
}

bool App::notify(QObject *receiver, QEvent *ev)
{
    if (!S || !S->active) return QCoreApplication::notify(receiver, ev);
    NodeScope sc(nodeOf(receiver));
    return QCoreApplication::notify(receiver, ev);
}

Dispatcher::Dispatcher(QObject *parent) : QAbstractEventDispatcher(parent) {}

bool Dispatcher::hasPendingEvents() { return m_posted; }

void Dispatcher::registerSocketNotifier(QSocketNotifier *n)
{
    InSim in;
    if (n->type() == QSocketNotifier::Exception) return;
    m_notifiers.push_back(Notifier{n, (int)n->socket(), n->type() == QSocketNotifier::Write});
}

void Dispatcher::unregisterSocketNotifier(QSocketNotifier *n)
{
    InSim in;
    for (size_t i = 0; i < m_notifiers.size(); i++)
        if (m_notifiers[i].n == n) { m_notifiers.erase(m_notifiers.begin() + i); return; }
}

Time Dispatcher::delay(const Timer &t)
{
    Time d = t.interval * MS;
    if (t.type == Qt::CoarseTimer && S->sched.coarse > 0 && t.interval > 20)
        d += (Time)(d * S->sched.coarse * (2 * S->rSched.unit() - 1));
    else if (t.type == Qt::VeryCoarseTimer)
        d = (d + SEC / 2) / SEC * SEC;
    return d;
}

void Dispatcher::registerTimer(int id, int interval, Qt::TimerType type, QObject *obj)
{
    InSim in;
    Timer t;
    t.id = id;
    t.interval = interval;
    t.type = type;
    t.obj = obj;
    t.node = S->cur;
    t.order = ++m_order;
    t.running = false;
    t.due = S->now + delay(t);
    m_timers.push_back(t);
}

bool Dispatcher::unregisterTimer(int id)
{
    InSim in;
    for (size_t i = 0; i < m_timers.size(); i++)
        if (m_timers[i].id == id) { m_timers.erase(m_timers.begin() + i); return true; }
    return false;
}

bool Dispatcher::unregisterTimers(QObject *obj)
{
    InSim in;
    bool any = false;
    for (size_t i = 0; i < m_timers.size();)
        if (m_timers[i].obj == obj) { m_timers.erase(m_timers.begin() + i); any = true; }
        else i++;
    return any;
}

QList<QAbstractEventDispatcher::TimerInfo> Dispatcher::registeredTimers(QObject *obj) const
{
    InSim in;
    QList<TimerInfo> l;
    for (const Timer &t : m_timers)
        if (t.obj == obj) l << TimerInfo(t.id, t.interval, t.type);
    return l;
}

int Dispatcher::remainingTime(int id)
{
    for (const Timer &t : m_timers)
        if (t.id == id) return t.due <= S->now ? 0 : (int)((t.due - S->now + MS - 1) / MS);
    return -1;
}

int Dispatcher::dueTimer() const
{
    int best = -1;
    for (size_t i = 0; i < m_timers.size(); i++) {
        const Timer &t = m_timers[i];
        if (t.running || t.due > S->now || (m_posted && m_firedTimers.count(t.id)) || (t.node && t.node->stalledUntil > S->now)) continue;
        if (best < 0 || t.due < m_timers[best].due || (t.due == m_timers[best].due && t.order < m_timers[best].order)) best = (int)i;
    }
    return best;
}

Time Dispatcher::nextTimer() const
{
    Time b = INT64_MAX;
    for (const Timer &t : m_timers) {
        if (t.running) continue;
        Time d = t.due;
        if (t.node && t.node->stalledUntil > d) d = t.node->stalledUntil;
        b = std::min(b, d);
    }
    return b;
}

bool Dispatcher::processEvents(QEventLoop::ProcessEventsFlags flags)
{
    m_interrupt = false;
    emit awake();
    if (!S->active) {
        QCoreApplication::sendPostedEvents();
        return false;
    }
    if (S->finished || S->exhausted()) {
        QCoreApplication::exit(0);
        return false;
    }

    NodeScope outside(S->harness);
    // network arrivals, faults and operations of the scenario that are due
    S->runDue();
    if (m_interrupt || S->finished) { if (S->finished) QCoreApplication::exit(0); return true; }

    // what could run now
    std::vector<int> ready;
    for (size_t i = 0; i < m_notifiers.size(); i++) {
        int fd = m_notifiers[i].fd;
        if (fd < 0 || (size_t)fd >= S->files.size()) continue;
        File *f = S->files[fd];
        if (!f || f->node->stalledUntil > S->now) continue;
        // An event loop sends posted events between two rounds of polling: nothing
        // is activated twice while an event is waiting.
        if (m_posted && m_fired.count(m_notifiers[i].n)) continue;
        if (m_notifiers[i].write ? S->writable(f) : S->readable(f)) ready.push_back((int)i);
    }
    int due = dueTimer();

    if (m_posted && ((ready.empty() && due < 0) || S->rSched.chance(S->sched.posted))) {
        m_posted = false;
        m_fired.clear();
        m_firedTimers.clear();
        S->step++;
        QCoreApplication::sendPostedEvents();
        if (S->afterStep) S->afterStep();
        return true;
    }

    if (ready.empty() && due < 0) {
        if (m_posted) return true;
        Time t = std::min(S->nextEvent(), nextTimer());
        for (const Notifier &n : m_notifiers) { // a stalled process with something to do
            File *f = n.fd >= 0 && (size_t)n.fd < S->files.size() ? S->files[n.fd] : nullptr;
            if (f && f->node->stalledUntil > S->now && (n.write ? S->writable(f) : S->readable(f)))
                t = std::min(t, f->node->stalledUntil);
        }
        if (t == INT64_MAX) {
            S->finished = true;
            QCoreApplication::exit(0);
            return false;
        }
        if (!(flags & QEventLoop::WaitForMoreEvents)) return false;
        emit aboutToBlock();
        if (t > S->now) S->now = t;
        return true;
    }

    S->step++;
    if (S->step == S->trapStep) raise(SIGTRAP); // for a debugger
    size_t total = ready.size() + (due >= 0 ? 1 : 0);
    size_t k = 0;
    if (total > 1) {
        S->count("sched.choice_points");
        switch (S->sched.pickMode) {
        case 1: k = 0; for (size_t i = 1; i < ready.size(); i++) if (m_notifiers[ready[i]].fd < m_notifiers[ready[k]].fd) k = i; if (S->rSched.chance(0.1)) k = S->rSched.below(total); break;
        case 2: k = S->rSched.chance(0.1) ? S->rSched.below(total) : (ready.empty() ? 0 : ready.size() - 1); break;
        case 3: k = ready.empty() ? 0 : S->rSched.below(ready.size()); break;
        default: k = S->rSched.below(total);
        }
    }
    Node *node = nullptr;
    if (!m_posted) { m_fired.clear(); m_firedTimers.clear(); }
    if (k < ready.size()) {
        Notifier n = m_notifiers[ready[k]];
        m_fired.insert(n.n);
        node = S->files[n.fd]->node;
        S->note('n', n.fd, n.write, total);
        NodeScope sc(node);
        QEvent ev(QEvent::SockAct);
        QCoreApplication::sendEvent(n.n, &ev);
    } else {
        Timer &t = m_timers[due];
        int id = t.id;
        QObject *obj = t.obj;
        node = t.node;
        Time d = delay(t);
        t.due += d;
        if (t.due < S->now) t.due = S->now + d;
        t.order = ++m_order;
        t.running = true;
        m_firedTimers.insert(id);
        S->note('t', (uint64_t)t.interval, total);
        {
            NodeScope sc(node);
            QTimerEvent ev(id);
            QCoreApplication::sendEvent(obj, &ev);
        }
        for (Timer &x : m_timers) if (x.id == id) x.running = false;
    }
    S->now += S->rSched.range(S->sched.costMin, S->sched.costMax);
    if (S->sched.slowMax && S->faultsOn && S->rSched.chance(S->sched.slowProb)) {
        S->count("fault.slow_activation");
        Time d = S->rSched.range(0, S->sched.slowMax);
        S->now += d;
        S->slowTotal += d;
    }
    if (S->afterStep) S->afterStep();
    return true;
}

int Dispatcher::notifiersOf(const Node *n) const
{
    int c = 0;
    for (const Notifier &x : m_notifiers) c += x.fd >= 0 && (size_t)x.fd < S->files.size() && S->files[x.fd] && S->files[x.fd]->node == n && !S->files[x.fd]->dead;
    return c;
}

} // namespace sim
