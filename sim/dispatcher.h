#pragma once
#include "kernel.h"
#include <QAbstractEventDispatcher>
#include <QCoreApplication>
#include <QSocketNotifier>
#include <QHash>
#include <set>
#include <vector>

namespace sim {

// Owns everything that can run: posted events, socket notifiers, timers and the
// simulator's own events. One activation at a time, picked by the seeded PRNG.
class Dispatcher : public QAbstractEventDispatcher
{
public:
    explicit Dispatcher(QObject *parent = nullptr);
    bool processEvents(QEventLoop::ProcessEventsFlags flags) override;
    bool hasPendingEvents() override;
    void registerSocketNotifier(QSocketNotifier *n) override;
    void unregisterSocketNotifier(QSocketNotifier *n) override;
    void registerTimer(int id, int interval, Qt::TimerType type, QObject *obj) override;
    bool unregisterTimer(int id) override;
    bool unregisterTimers(QObject *obj) override;
    QList<TimerInfo> registeredTimers(QObject *obj) const override;
    int remainingTime(int id) override;
    void wakeUp() override { m_posted = true; }
    void interrupt() override { m_interrupt = true; }
    void flush() override {}
#ifdef Q_OS_WIN
    bool registerEventNotifier(QWinEventNotifier *) override { return false; }
    void unregisterEventNotifier(QWinEventNotifier *) override {}
#endif
    int timerCount() const { return (int)m_timers.size(); }
    int timersOf(const Node *n) const { int c = 0; for (const Timer &t : m_timers) c += t.node == n; return c; }
    int notifiersOf(const Node *n) const;
    int notifierCount() const { return (int)m_notifiers.size(); }

private:
    friend class App;
    struct Notifier { QSocketNotifier *n; int fd; bool write; };
    struct Timer { int id; int interval; Qt::TimerType type; QObject *obj; Time due; Node *node; uint64_t order; bool running; };
    std::vector<Notifier> m_notifiers;
    std::vector<Timer> m_timers;
    std::set<const void *> m_fired;
    std::set<int> m_firedTimers;
    bool m_posted = false, m_interrupt = false;
    uint64_t m_order = 0;
    Time delay(const Timer &t);
    int dueTimer() const;
    Time nextTimer() const;
};

// node attribution for any application class
template <class B> class SimApp : public B
{
public:
    SimApp(int &argc, char **argv);
    bool notify(QObject *receiver, QEvent *ev) override;
};

class App : public QCoreApplication
{
public:
    App(int &argc, char **argv) : QCoreApplication(argc, argv) {}
    bool notify(QObject *receiver, QEvent *ev) override;
    static void setRoot(QObject *o, Node *n);
    static void dropRoot(QObject *o);
    static Node *nodeOf(QObject *o);
    static Node *defaultNode;  // everything that runs in this event loop belongs to one node
};

template <class B> SimApp<B>::SimApp(int &argc, char **argv) : B(argc, argv) {}
template <class B> bool SimApp<B>::notify(QObject *receiver, QEvent *ev)
{
    if (!S || !S->active) return B::notify(receiver, ev);
    NodeScope sc(App::nodeOf(receiver));
    return B::notify(receiver, ev);
}

} // namespace sim
