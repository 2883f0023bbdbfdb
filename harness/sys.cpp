// Tasks, timers, connections, queues and loggers under the workload of several cooperating and real threads.
// modes: tasks, net (T01), queues, mqueue (T02)
#include "vh.h"
#include <thread>
#include <atomic>
#include <chrono>
#include <deque>
#include <list>
#include <memory>
#include <condition_variable>
#include <csignal>
#include <fstream>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <System/Dispatcher.h>
#include <System/Event.h>
#include <System/EventLock.h>
#include <System/ContextGroup.h>
#include <System/ContextGroupTimeout.h>
#include <System/InterruptedException.h>
#include <System/Timer.h>
#include <System/RemoteContext.h>
#include <System/RemoteEventLock.h>
#include <System/TcpListener.h>
#include <System/TcpConnector.h>
#include <System/TcpConnection.h>
#include <System/TcpStream.h>
#include <System/Ipv4Address.h>
#include <Common/BlockingQueue.h>
#include <Common/ObserverManager.h>
#include <Common/JsonValue.h>
#include <CryptoNoteCore/MessageQueue.h>
#include <Logging/LoggerManager.h>
#include <Logging/LoggerRef.h>
#include <Logging/FileLogger.h>
#include <Logging/LoggerGroup.h>
using namespace platform_system;
typedef std::chrono::steady_clock Clk;
static uint64_t usNow() { return std::chrono::duration_cast<std::chrono::microseconds>(Clk::now().time_since_epoch()).count(); }
static const char* doing = "start";
static void onAlarm(int) {
  char b[300]; int n = snprintf(b, sizeof b, "VIOL hang | case %ld: nothing happened for a long time while %s\n", vh::st().cur, doing);
  if (write(1, b, n)) {} _exit(0);
}
static bool slow() { return vh::opt.mode.empty() ? false : true; }
struct Watch { explicit Watch(unsigned s) { alarm(s); } ~Watch() { alarm(0); } };

// ---------------------------------------------------------------- tasks
namespace tasks {
enum St { READY, EVENT, IO, GROUP };
struct Ev; struct Grp;
struct Task { int id = 0; Grp* g = nullptr; int due = 0; bool started = false, done = false; St st = READY; Ev* ev = nullptr; bool expectThrow = false; int nInt = 0; int runs = 0; };
struct Ev { Event ev; bool state = false; std::list<Task*> waiters; std::deque<Task*> woken; explicit Ev(Dispatcher& d) : ev(d) {} };
struct Grp { ContextGroup g; std::list<Task*> live; std::deque<Task*> toStart; bool isLocal; int level; explicit Grp(Dispatcher& d, int lv) : g(d), isLocal(lv < 0), level(lv) {} };

struct Case {
  vh::Rng& R; Dispatcher d; std::vector<std::unique_ptr<Ev>> evs; std::vector<std::unique_ptr<Grp>> grps; std::deque<Task> all;
  Event lock; int inside = 0; bool finishing = false; std::atomic<int> remoteLeft{0}; bool failed = false; std::string what; int locksWanted = 0;
  std::vector<std::vector<int>> remoteSeq; uint64_t ops = 0; std::string trail;
  explicit Case(vh::Rng& r) : R(r), lock(d) {}

  // violations inside a task cannot unwind the dispatcher: note the first one and let the case run out
  void bad(const char* key, const char* f, ...) {
    va_list ap; va_start(ap, f); std::string s = vh::vfmt(f, ap); va_end(ap);
    if (!failed) { failed = true; vh::report("T01", key, s); }
  }
  void op(const char* n) { ++ops; vh::stat(std::string("op.") + n); trail += n; trail += ' '; if (trail.size() > 60) trail.erase(0, trail.size() - 60); }

  void mark(Task& t) {   // what an interrupt means for this task
    if (t.done) return;
    if (t.due == 1) return;
    if (t.st == EVENT) { t.expectThrow = true; t.ev->waiters.remove(&t); t.st = READY; vh::stat("int.event"); }
    else if (t.st == IO) { ++t.nInt; vh::stat("int.io"); }
    else { t.due = 1; vh::stat(t.started ? (t.st == GROUP ? "int.group" : "int.ready") : "int.unstarted"); }
  }
  void interruptGroup(Grp& g) { for (Task* t : g.live) mark(*t); g.g.interrupt(); }

  void evSet(Ev& e) {
    if (!e.state) { e.state = true; for (Task* w : e.waiters) { w->st = READY; e.woken.push_back(w); } e.waiters.clear(); }
    e.ev.set();
    if (!e.ev.get()) bad("event-state", "an event is not set right after set()");
  }
  void evClear(Ev& e) { e.state = false; e.ev.clear(); if (e.ev.get()) bad("event-state", "an event is set right after clear()"); }
  bool evWait(Task& t, Ev& e) {
    bool mustThrow = t.due == 1, mustPass = !mustThrow && e.state, waits = !mustThrow && !e.state;
    t.expectThrow = false;
    if (waits) { t.st = EVENT; t.ev = &e; e.waiters.push_back(&t); }
    bool threw = false;
    try { e.ev.wait(); } catch (InterruptedException&) { threw = true; } catch (std::exception& x) { bad("event-exception", "waiting for an event threw %s", x.what()); }
    if (waits && t.st == EVENT) { bad("event-woke", "a task came back from waiting (%s) though its event was neither set nor was it interrupted; last: %s", threw ? "interrupted" : "normally", trail.c_str()); e.waiters.remove(&t); }
    if (mustThrow) { if (!threw) bad("interrupt-lost", "an interrupt which was due before waiting did not end the wait; last: %s", trail.c_str()); t.due = 0; vh::stat("thrown.due"); }
    else if (mustPass) { if (threw) bad("interrupt-invented", "waiting for a set event was interrupted without cause; last: %s", trail.c_str()); }
    else if (t.expectThrow) { if (!threw) bad("interrupt-lost", "an interrupted wait returned normally; last: %s", trail.c_str()); vh::stat("thrown.event"); }
    else {
      if (threw) bad("interrupt-invented", "a wait ended as interrupted though its event was set first; last: %s", trail.c_str());
      if (e.woken.empty() || e.woken.front() != &t) bad("wake-order", "waiters of an event resumed out of order; last: %s", trail.c_str());
      e.woken.erase(std::remove(e.woken.begin(), e.woken.end(), &t), e.woken.end());
      vh::stat("event.woken");
    }
    t.st = READY;
    return threw;
  }
  // an operation which waits once, and which several interrupts may reach
  bool ioWait(Task& t, const std::function<void()>& f, bool immediate = false) {
    bool mustThrow = t.due == 1; t.nInt = 0; if (!mustThrow) t.st = IO;
    bool threw = false;
    try { f(); } catch (InterruptedException&) { threw = true; } catch (std::exception& x) { bad("io-exception", "an operation threw %s", x.what()); }
    t.st = READY;
    if (mustThrow) { if (!threw) bad("interrupt-lost", "an interrupt which was due before an operation did not end it; last: %s", trail.c_str()); t.due = 0; vh::stat("thrown.due"); return true; }
    if (t.nInt == 0) { if (threw) bad("interrupt-invented", "an operation ended as interrupted though nobody interrupted it; last: %s", trail.c_str()); }
    else if (t.nInt == 1) { t.due = threw ? 0 : 1; if (threw) vh::stat("thrown.io"); else vh::stat("late.io"); }
    else t.due = 1;
    t.nInt = 0;
    return threw;
  }
  Task* spawn(Grp& g, const std::function<void(Task&)>& body) {
    all.emplace_back(); Task* t = &all.back(); t->id = (int)all.size(); t->g = &g; g.live.push_back(t); g.toStart.push_back(t);
    g.g.spawn([this, t, body] {
      ++t->runs; if (t->runs > 1) bad("ran-twice", "a task ran twice");
      t->started = true; if (t->g->toStart.empty() || t->g->toStart.front() != t) bad("start-order", "tasks of a group started out of order; last: %s", trail.c_str());
      t->g->toStart.erase(std::remove(t->g->toStart.begin(), t->g->toStart.end(), t), t->g->toStart.end());
      body(*t); finish(*t);
    });
    vh::stat("tasks"); return t;
  }
  void finish(Task& t) { if (t.done) return; t.done = true; t.g->live.remove(&t); }
  void gWait(Task& t, Grp& g) {
    std::vector<Task*> before(g.live.begin(), g.live.end());
    t.st = GROUP;
    try { g.g.wait(); } catch (std::exception& x) { bad("group-exception", "waiting for a group threw %s", x.what()); }
    t.st = READY;
    for (Task* x : before) if (!x->done) bad("group-early", "waiting for a group returned while a task of it was %s; last: %s", x->started ? "still running" : "not even started", trail.c_str());
  }
  void gDrain(Task& t, Grp& g) {
    for (int i = 0; !g.live.empty() && !failed; ++i) {
      gWait(t, g);
      if (i > 2000) bad("task-lost", "a spawned task never ran although its group is done; last: %s", trail.c_str());
    }
    if (failed) g.live.clear();
  }
  void sleep(Task& t, uint64_t us) {
    Timer tm(d); uint64_t a = usNow(); bool th = false;
    if (us == 0) {   // a yield which still honours a due interrupt
      bool must = t.due == 1;
      try { tm.sleep(std::chrono::nanoseconds(0)); } catch (InterruptedException&) { th = true; }
      if (th != must) bad(must ? "interrupt-lost" : "interrupt-invented", "an empty sleep was %s; last: %s", th ? "interrupted without cause" : "not interrupted though it was due", trail.c_str());
      if (must) t.due = 0;
      return;
    }
    th = ioWait(t, [&] { tm.sleep(std::chrono::microseconds(us)); });
    uint64_t el = usNow() - a; if (!th && el + 1 < us) bad("sleep-early", "a sleep of %llu us ended after %llu us", (unsigned long long)us, (unsigned long long)el);
    if (!th) vh::stat("sleeps");
  }
  void busy(uint64_t us) { uint64_t e = usNow() + us; while (usNow() < e) {} }

  void script(Task& t, uint64_t seed, int depth, int len) {
    vh::Rng r(seed);
    for (int i = 0; i < len && !failed; ++i) {
      switch (finishing ? 100 : r.below(19)) {
        case 0: case 1: case 2: op("wait"); evWait(t, *r.pick(evsP)); break;
        case 3: case 4: op("set"); evSet(*r.pick(evsP)); break;
        case 5: op("clear"); evClear(*r.pick(evsP)); break;
        case 6: op("pulse"); { Ev* e = r.pick(evsP); evSet(*e); evClear(*e); } break;
        case 7: case 8: op("sleep"); sleep(t, r.chance(20) ? 0 : r.range(50, 2500)); break;
        case 9: op("yield"); d.yield(); break;
        case 10: op("interrupt"); interruptGroup(*r.pick(grpsP)); break;
        case 11: op("busy-interrupt"); busy(r.range(300, 2500)); interruptGroup(*r.pick(grpsP)); break;
        case 12: if (depth < 3 && all.size() < 150) { op("spawn"); Grp* g = r.pick(grpsP); uint64_t s = r.next(); int l = (int)r.range(0, 5); spawn(*g, [this, s, depth, l](Task& n) { script(n, s, depth + 1, l); }); } break;
        case 13: if (depth < 3 && all.size() < 150) { op("local-group"); local(t, r, depth); } break;
        case 14: op("lock"); locked(t, r); break;
        case 15: op("timeout"); timeout(t, r); break;
        case 16: op("remote-context"); remote(t, r); break;
        case 17: op("flag"); { bool f = d.interrupted(); if (f != (t.due == 1)) bad("flag", "interrupted() says %d, but an interrupt is %sdue; last: %s", (int)f, t.due ? "" : "not ", trail.c_str()); t.due = 0; } break;
        case 18: if (!t.g->isLocal) { std::vector<Grp*> up; for (auto* g : grpsP) if (g->level > t.g->level) up.push_back(g); if (!up.empty()) { op("group-wait"); gWait(t, *r.pick(up)); } } break;
        default: return;
      }
    }
  }
  std::vector<Ev*> evsP; std::vector<Grp*> grpsP;
  void local(Task& t, vh::Rng& r, int depth) {
    Grp g(d, -1);
    int n = (int)r.range(1, 4);
    bool late = r.chance(35); Task* first = nullptr;
    for (int i = 0; i < n; ++i) { uint64_t s = r.next(); int l = (int)r.range(0, 4); Task* x = spawn(g, [this, s, depth, l](Task& m) { script(m, s, depth + 1, l); }); if (!first) first = x; }
    bool hdone = true; std::unique_ptr<Grp> hg;
    if (late) {   // somebody adds to the group just when its last task ended
      hdone = false; hg.reset(new Grp(d, -1)); Grp* gp = &g;
      spawn(*hg, [this, gp, &hdone](Task&) { int k = 0; while (!gp->live.empty() && k++ < 4000 && !failed) d.yield(); spawn(*gp, [this](Task&) { vh::stat("late.spawned"); }); hdone = true; });
    }
    switch (r.below(4)) {
      case 0: interruptGroup(g); break;
      case 1: d.yield(); interruptGroup(g); break;
      case 2: busy(r.range(100, 1500)); interruptGroup(g); break;
    }
    gWait(t, g);
    if (late) { gDrain(t, *hg); }
    // whatever waits for an event in there is released by the janitor
    gDrain(t, g);
    vh::stat("local.groups");
  }
  void locked(Task& t, vh::Rng& r) {
    int before = t.due; t.nInt = 0; t.st = IO; bool threw = false;
    // an interrupt due beforehand may end the acquisition (if it has to wait) or stay due
    bool free0 = lock.get();
    ++locksWanted;
    try {
      EventLock lk(lock);
      t.st = READY; int n = t.nInt + before; t.due = n > 0;
      if (before && !free0) bad("interrupt-lost", "an interrupt due beforehand did not end the wait for a lock; last: %s", trail.c_str());
      if (++inside != 1) bad("lock-shared", "%d tasks hold the same lock", inside);
      if (r.coin()) d.yield();
      if (r.coin()) sleep(t, r.range(20, 500));
      if (inside != 1) bad("lock-shared", "%d tasks hold the same lock", inside);
      --inside; vh::stat("locks");
    } catch (InterruptedException&) { threw = true; }
    --locksWanted;
    if (threw) {
      int n = t.nInt + before; t.st = READY;
      if (n == 0) bad("interrupt-invented", "waiting for a lock was interrupted without cause");
      if (n <= 1) t.due = 0; else { d.interrupted(); t.due = 0; }
    }
  }
  void timeout(Task& t, vh::Rng& r) {
    Grp g(d, -1); bool expire = r.coin(); uint64_t lim = expire ? r.range(300, 2000) : 2000000, a = usNow(); int n = (int)r.range(1, 3), ended = 0, interrupted = 0;
    {
      ContextGroupTimeout to(d, g.g, std::chrono::microseconds(lim));
      for (int i = 0; i < n; ++i) { uint64_t us = expire ? 60000000 : r.range(20, 400); spawn(g, [&, us](Task&) { Timer tm(d); try { tm.sleep(std::chrono::microseconds(us)); ++ended; } catch (InterruptedException&) { ++interrupted; if (usNow() - a + 1 < lim) bad("timeout-early", "a timeout of %llu us struck after %llu us", (unsigned long long)lim, (unsigned long long)(usNow() - a)); } }); }
      gWait(t, g);
    }
    if (expire && interrupted != n) bad("timeout-missed", "a timeout interrupted %d of %d sleeping tasks", interrupted, n);
    if (!expire && ended != n) bad("timeout-invented", "%d of %d tasks ended normally before a far timeout", ended, n);
    vh::stat(expire ? "timeouts.expired" : "timeouts.unused");
  }
  void remote(Task& t, vh::Rng& r) {
    uint64_t us = r.range(0, 1500), val = r.next(); bool thr = r.chance(30); std::atomic<int> ran{0}; std::thread::id other; int before = t.due;
    t.nInt = 0; t.st = IO;
    bool threw = false; uint64_t got = 0; std::string msg;
    try {
      RemoteContext<uint64_t> rc(d, [&]() -> uint64_t { ++ran; other = std::this_thread::get_id(); std::this_thread::sleep_for(std::chrono::microseconds(us)); if (thr) throw std::logic_error("remote"); return val; });
      if (r.chance(30)) d.yield();
      got = rc.get();
    } catch (std::logic_error& e) { threw = true; msg = e.what(); } catch (std::exception& e) { bad("remote-exception", "a remote operation ended with %s", e.what()); }
    t.st = READY; t.due = (before || t.nInt) ? 1 : 0; t.nInt = 0;
    if (ran != 1) bad("remote-runs", "a remote operation ran %d times", (int)ran);
    if (other == std::this_thread::get_id()) bad("remote-thread", "a remote operation ran on the dispatching thread");
    if (thr != threw || (!thr && got != val) || (thr && msg != "remote")) bad("remote-result", "the result of a remote operation was not delivered");
    vh::stat("remotes");
  }

  void run() {
    int nev = (int)R.range(1, 3), ng = (int)R.range(1, 4), nt = (int)R.range(2, 12);
    for (int i = 0; i < nev; ++i) { evs.emplace_back(new Ev(d)); evsP.push_back(evs.back().get()); }
    for (int i = 0; i < ng; ++i) { grps.emplace_back(new Grp(d, i)); grpsP.push_back(grps.back().get()); }
    lock.set();
    Task mainT; Grp jan(d, -1);
    // posted from other threads: each thread's procedures run in its order, each once
    int nthr = (int)R.below(4), per = (int)R.range(1, 25);
    remoteSeq.resize(nthr + 1); remoteLeft = nthr * per; int here = (int)R.below(6); remoteLeft += here;
    std::vector<std::thread> ths; std::thread::id me = std::this_thread::get_id();
    auto proc = [this, me](int th, int k, uint64_t s) {
      if (std::this_thread::get_id() != me) bad("remote-thread", "a posted procedure ran on a foreign thread");
      remoteSeq[th].push_back(k); --remoteLeft; vh::stat("posted.ran");
      vh::Rng r(s); if (r.chance(30)) { Timer tm(d); try { tm.sleep(std::chrono::microseconds(r.range(1, 900))); } catch (InterruptedException&) { bad("interrupt-invented", "a posted procedure was interrupted without cause"); } }
      if (r.chance(30)) evSet(*r.pick(evsP));
    };
    for (int i = 0; i < nt; ++i) { uint64_t s = R.next(); int l = (int)R.range(2, 14); spawn(*R.pick(grpsP), [this, s, l](Task& t) { script(t, s, 0, l); }); }
    for (int i = 0; i < here; ++i) { uint64_t s = R.next(); d.remoteSpawn([=] { proc(nthr, i, s); }); }
    for (int i = 0; i < nthr; ++i) { uint64_t s = R.next(); ths.emplace_back([=] { vh::Rng r(s); for (int k = 0; k < per; ++k) { uint64_t s2 = r.next(); if (r.chance(40)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(400))); d.remoteSpawn([=] { proc(i, k, s2); }); } }); }
    bool stop = false;
    uint64_t js = R.next();
    spawn(jan, [&, js](Task& t) {
      vh::Rng r(js); int rounds = 0;
      while (!stop && !failed) {
        Timer tm(d); tm.sleep(std::chrono::microseconds(700));
        if (++rounds > 25) finishing = true;
        if (finishing) { for (auto* e : evsP) evSet(*e); } else evSet(*r.pick(evsP));
      }
      (void)t;
    });
    doing = "waiting for tasks";
    for (auto* g : grpsP) gDrain(mainT, *g);
    for (auto* g : grpsP) gDrain(mainT, *g);   // tasks of one group may have spawned into another
    for (int i = 0; i < 4; ++i) for (auto* g : grpsP) gDrain(mainT, *g);
    doing = "joining posting threads";
    for (auto& t : ths) t.join();
    doing = "waiting for posted procedures";
    for (int i = 0; remoteLeft > 0 && !failed; ++i) { Timer tm(d); tm.sleep(std::chrono::microseconds(300)); if (i > 30000) bad("posted-lost", "%d procedures posted from other threads never ran", (int)remoteLeft); }
    for (size_t i = 0; i < remoteSeq.size(); ++i) { int n = (int)i == nthr ? here : per; if ((int)remoteSeq[i].size() != n && !failed) bad("posted-count", "a thread posted %d procedures, %zu ran", n, remoteSeq[i].size()); for (size_t k = 0; k < remoteSeq[i].size(); ++k) if (remoteSeq[i][k] != (int)k && !failed) bad("posted-order", "procedures posted by one thread ran out of order"); }
    stop = true; gDrain(mainT, jan);
    for (auto& t : all) if (!failed && t.runs != 1) bad("task-lost", "a task ran %d times", t.runs);
    if (inside != 0 && !failed) bad("lock-shared", "a lock count of %d is left", inside);
    for (auto* e : evsP) evSet(*e);
    { Timer tm(d); tm.sleep(std::chrono::microseconds(1200)); }
    // tasks nobody waits for: the dispatcher ends them when it goes away
    int left = (int)R.below(3); endless = left; static int ended; ended = 0;
    for (int i = 0; i < left; ++i) d.remoteSpawn([this] { Event e(d); try { e.wait(); bad("event-woke", "an unset event let a task pass"); } catch (InterruptedException&) { ++ended; } });
    d.yield(); endedP = &ended;
    vh::stat("ops", ops); vh::cover(vh::fmt("tasks %d %d %d %d %zu", nev, ng, nt, nthr, std::min<size_t>(all.size(), 40)));
  }
  int endless = 0; int* endedP = nullptr;
};
static void run(long, vh::Rng& r) {
  Watch w(90); int endless, *ended; bool failed;
  { std::unique_ptr<Case> c(new Case(r)); c->run(); endless = c->endless; ended = c->endedP; failed = c->failed;
    c->grps.clear(); c->evs.clear(); doing = "destroying the dispatcher"; }
  if (!failed && endless != *ended) vh::fail("T01", "left-behind", "%d tasks were waiting when the dispatcher was destroyed, %d of them were interrupted", endless, *ended);
  if (failed) throw vh::CaseAbort();
}
}

// ---------------------------------------------------------------- net
namespace net {
static uint16_t anyPort() { static std::atomic<unsigned> n{0}; return (uint16_t)(20000 + (getpid() * 131u + n++ * 7u + (unsigned)usNow()) % 40000); }
static uint8_t pat(uint64_t seed, uint64_t pos) { uint64_t x = seed + pos / 8; x = vh::Rng::mix(x); return (uint8_t)(x >> (8 * (pos & 7))); }
struct Ctx {
  Dispatcher d; std::unique_ptr<TcpListener> l; uint16_t port = 0; bool failed = false;
  void bad(const char* key, const char* f, ...) { va_list ap; va_start(ap, f); std::string s = vh::vfmt(f, ap); va_end(ap); if (!failed) { failed = true; vh::report("T01", key, s); } }
  void listen() { for (int i = 0; i < 200; ++i) { port = anyPort(); try { l.reset(new TcpListener(d, Ipv4Address("127.0.0.1"), port)); return; } catch (std::exception&) {} } throw std::runtime_error("no port"); }
  std::pair<TcpConnection, TcpConnection> pair() {
    TcpConnection a, b; bool ok = true; ContextGroup g(d);
    g.spawn([&] { try { b = l->accept(); } catch (std::exception&) { ok = false; } });
    g.spawn([&] { try { TcpConnector c(d); a = c.connect(Ipv4Address("127.0.0.1"), port); } catch (std::exception&) { ok = false; g.interrupt(); } });
    g.wait(); if (!ok) throw std::runtime_error("no connection"); return std::make_pair(std::move(a), std::move(b));
  }
};
// one direction of a connection: bytes arrive exactly, however it is cut and interrupted
static void writer(Ctx& c, TcpConnection& k, uint64_t seed, uint64_t total, uint64_t rs, bool interruptible) {
  vh::Rng r(rs); uint64_t pos = 0; std::vector<uint8_t> b;
  while (pos < total && !c.failed) {
    size_t n = (size_t)std::min<uint64_t>(total - pos, r.chance(30) ? r.range(1, 300) : r.range(1, 400000)); b.resize(n); for (size_t i = 0; i < n; ++i) b[i] = pat(seed, pos + i);
    try { size_t w = k.write(b.data(), n); if (w == 0 || w > n) { c.bad("write-count", "a write of %zu bytes reports %zu", n, w); return; } pos += w; vh::stat("net.writes"); }
    catch (InterruptedException&) { if (!interruptible) c.bad("interrupt-invented", "a write was interrupted without cause"); vh::stat("net.write.interrupted"); }
    catch (std::exception& e) { c.bad("write-error", "writing to a healthy connection failed: %s", e.what()); return; }
    if (r.chance(10)) { Timer t(c.d); try { t.sleep(std::chrono::microseconds(r.range(1, 600))); } catch (InterruptedException&) {} }
    if (r.chance(20)) c.d.yield();
  }
  for (;;) { try { k.write(nullptr, 0); break; } catch (InterruptedException&) {} catch (std::exception& e) { c.bad("write-error", "closing the sending side failed: %s", e.what()); break; } }
}
static void reader(Ctx& c, TcpConnection& k, uint64_t seed, uint64_t total, uint64_t rs, bool interruptible) {
  vh::Rng r(rs); uint64_t pos = 0; std::vector<uint8_t> b;
  while (!c.failed) {
    size_t n = r.chance(30) ? r.range(1, 200) : r.range(1, 200000); b.assign(n, 0);
    try {
      size_t g = k.read(b.data(), n); vh::stat("net.reads");
      if (g > n) { c.bad("read-count", "a read of %zu bytes reports %zu", n, g); return; }
      if (g == 0) { if (pos != total) c.bad("stream-short", "a stream of %llu bytes ended after %llu", (unsigned long long)total, (unsigned long long)pos); vh::stat("net.streams"); vh::stat("net.bytes", pos); return; }
      for (size_t i = 0; i < g; ++i) if (b[i] != pat(seed, pos + i)) { c.bad("stream-bytes", "byte %llu of a stream arrived wrong", (unsigned long long)(pos + i)); return; }
      pos += g; if (pos > total) { c.bad("stream-long", "more bytes arrived than were sent"); return; }
    } catch (InterruptedException&) { if (!interruptible) c.bad("interrupt-invented", "a read was interrupted without cause"); vh::stat("net.read.interrupted"); }
    catch (std::exception& e) { c.bad("read-error", "reading from a healthy connection failed: %s", e.what()); return; }
    if (r.chance(10)) { Timer t(c.d); try { t.sleep(std::chrono::microseconds(r.range(1, 900))); } catch (InterruptedException&) {} }
    if (r.chance(20)) c.d.yield();
  }
}
static int rawConnect(uint16_t port) { int s = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(0x7f000001); if (connect(s, (sockaddr*)&a, sizeof a) != 0) { close(s); return -1; } return s; }

static void run(long, vh::Rng& R) {
  Watch w(120); doing = "moving bytes over connections";
  Ctx c; c.listen();
  int np = (int)R.range(1, 3); bool ints = R.chance(60); bool resets = R.chance(60);
  struct P { TcpConnection a, b; ContextGroup g[4]; P(Dispatcher& d, std::pair<TcpConnection, TcpConnection>&& x) : a(std::move(x.first)), b(std::move(x.second)), g{ContextGroup(d), ContextGroup(d), ContextGroup(d), ContextGroup(d)} {} };
  std::vector<std::unique_ptr<P>> ps; int left = 0; bool stop = false; ContextGroup bg(c.d);
  for (int i = 0; i < np; ++i) {
    ps.emplace_back(new P(c.d, c.pair())); P& p = *ps.back();
    uint64_t s1 = R.next(), s2 = R.next(), t1 = R.below(3) ? R.range(0, 3000000) : R.below(5), t2 = R.below(3) ? R.range(0, 3000000) : R.below(5), r1 = R.next(), r2 = R.next(), r3 = R.next(), r4 = R.next();
    left += 4;
    p.g[0].spawn([&c, &p, &left, s1, t1, r1, ints] { writer(c, p.a, s1, t1, r1, ints); --left; });
    p.g[1].spawn([&c, &p, &left, s1, t1, r2, ints] { reader(c, p.b, s1, t1, r2, ints); --left; });
    p.g[2].spawn([&c, &p, &left, s2, t2, r3, ints] { writer(c, p.b, s2, t2, r3, ints); --left; });
    p.g[3].spawn([&c, &p, &left, s2, t2, r4, ints] { reader(c, p.a, s2, t2, r4, ints); --left; });
  }
  if (ints) { uint64_t s = R.next(); bg.spawn([&, s] { vh::Rng r(s); for (int k = 0; k < 60 && !stop; ++k) { Timer t(c.d); try { t.sleep(std::chrono::microseconds(r.range(50, 700))); } catch (InterruptedException&) { return; } P& p = *ps[r.below(ps.size())]; if (r.chance(25)) { int i = (int)r.below(4); p.g[i].interrupt(); p.g[(i + 2) % 4].interrupt(); } else p.g[r.below(4)].interrupt(); if (r.chance(30)) c.d.yield(); } }); }
  // peers that vanish: their connection fails, everything else goes on
  int nr = resets ? (int)R.range(1, 6) : 0; std::vector<std::thread> ths; int accepted = 0; ContextGroup ag(c.d), rg(c.d);
  if (nr) {
    ag.spawn([&] { while (accepted < nr && !c.failed) { try {
        auto k = std::make_shared<TcpConnection>(c.l->accept()); ++accepted; uint64_t s = (uint64_t)accepted * 77; bool idle = accepted % 2 == 0;
        rg.spawn([&c, k, s, idle] { vh::Rng r(s); uint8_t b[3000]; uint64_t pos = 0;
          if (idle) { for (int i = 0; i < 12; ++i) { Timer t(c.d); t.sleep(std::chrono::microseconds(250)); c.d.yield(); } }
          try { for (;;) { size_t g = k->read(b, sizeof b); if (g == 0) break; for (size_t i = 0; i < g; ++i) if (b[i] != pat(4711, pos + i)) { c.bad("stream-bytes", "a byte from a vanishing peer arrived wrong"); return; } pos += g; } vh::stat("net.peer.closed"); }
          catch (InterruptedException&) { c.bad("interrupt-invented", "reading from a vanished peer counts as an interrupt"); } catch (std::exception&) { vh::stat("net.peer.reset"); }
          if (idle) { try { std::vector<uint8_t> z(200000); for (int i = 0; i < 50; ++i) k->write(z.data(), z.size()); c.bad("write-void", "writing to a vanished peer never fails"); } catch (InterruptedException&) { c.bad("interrupt-invented", "writing to a vanished peer counts as an interrupt"); } catch (std::exception&) { vh::stat("net.peer.write-failed"); } }
        });
      } catch (InterruptedException&) { return; } catch (std::exception& e) { vh::stat("net.accept.failed"); ++accepted; } } });
    for (int i = 0; i < nr; ++i) { uint64_t s = R.next(); uint16_t port = c.port; ths.emplace_back([s, port] { vh::Rng r(s); int k = rawConnect(port); if (k < 0) return; size_t n = r.below(20000); std::string d; for (size_t j = 0; j < n; ++j) d += (char)pat(4711, j); size_t o = 0; while (o < d.size()) { ssize_t x = send(k, d.data() + o, d.size() - o, MSG_NOSIGNAL); if (x <= 0) break; o += x; } std::this_thread::sleep_for(std::chrono::microseconds(r.below(2500))); linger lg = {1, 0}; if (r.chance(75)) setsockopt(k, SOL_SOCKET, SO_LINGER, &lg, sizeof lg); close(k); }); }
  }
  // a refused connection and an interrupted accept do no harm
  if (R.coin()) { uint16_t closed = 1; bool threw = false; ContextGroup g(c.d); g.spawn([&] { try { TcpConnector k(c.d); TcpConnection x = k.connect(Ipv4Address("127.0.0.1"), closed); } catch (InterruptedException&) { c.bad("interrupt-invented", "connecting to a closed port counts as an interrupt"); threw = true; } catch (std::exception&) { threw = true; } }); g.wait(); if (!threw) c.bad("connect-void", "connecting to a closed port succeeded"); vh::stat("net.refused"); }
  if (!nr && R.coin()) { for (int i = 0; i < 3; ++i) { ContextGroup g(c.d); bool th = false; g.spawn([&] { try { TcpConnection x = c.l->accept(); } catch (InterruptedException&) { th = true; } catch (std::exception&) {} }); c.d.yield(); if (i != 1) { Timer t(c.d); t.sleep(std::chrono::microseconds(150)); } g.interrupt(); g.wait(); if (!th) c.bad("interrupt-lost", "an interrupted accept did not end as interrupted"); vh::stat("net.accept.interrupted"); } c.pair(); }
  doing = "waiting for streams to end";
  for (auto& p : ps) for (auto& g : p->g) g.wait();
  stop = true; bg.wait();
  if (left != 0) c.bad("task-lost", "%d stream tasks never ended", left);
  doing = "waiting for vanished peers";
  for (auto& t : ths) t.join();
  if (nr) { Timer t(c.d); for (int i = 0; i < 40 && accepted < nr; ++i) t.sleep(std::chrono::milliseconds(1)); ag.interrupt(); ag.wait(); rg.wait(); }
  // one direction of a connection is given up while the other one waits: the other one still goes on
  if (R.chance(50)) {
    auto x = c.pair(); bool giveUpRead = R.coin(); uint64_t pause = R.range(0, 900), tot = R.range(6000000, 9000000), sd = R.next(); ContextGroup gr(c.d), gw(c.d), gp(c.d); bool rInt = false, wInt = false; int got = -1; uint64_t sent = 0;
    gw.spawn([&] { std::vector<uint8_t> b(300000); try { while (sent < tot) { size_t n = (size_t)std::min<uint64_t>(b.size(), tot - sent); for (size_t i = 0; i < n; ++i) b[i] = (uint8_t)(sent + i); sent += x.first.write(b.data(), n); } } catch (InterruptedException&) { wInt = true; } catch (std::exception& e) { c.bad("write-error", "a write failed: %s", e.what()); } });
    gr.spawn([&] { uint8_t b[16]; try { got = (int)x.first.read(b, sizeof b); if (got != 3 || memcmp(b, "yes", 3)) c.bad("stream-bytes", "the answer arrived wrong"); } catch (InterruptedException&) { rInt = true; } catch (std::exception& e) { c.bad("read-error", "a read failed: %s", e.what()); } });
    doing = "giving up one direction of a connection";
    { Timer t(c.d); t.sleep(std::chrono::microseconds(500 + pause)); }
    if (giveUpRead) { gr.interrupt(); gr.wait(); if (!rInt) c.bad("interrupt-lost", "an interrupted read did not end as interrupted"); } else { gw.interrupt(); gw.wait(); if (!wInt) c.bad("interrupt-lost", "an interrupted write did not end as interrupted"); }
    uint64_t seen = 0; bool late = false; gp.spawn([&] { std::vector<uint8_t> b(500000); try { if (!giveUpRead) { x.second.write((const uint8_t*)"yes", 3); return; } while (seen < tot) { size_t n = x.second.read(b.data(), b.size()); if (n == 0) break; for (size_t i = 0; i < n; ++i) if (b[i] != (uint8_t)(seen + i)) { c.bad("stream-bytes", "byte %llu of a stream arrived wrong", (unsigned long long)(seen + i)); return; } seen += n; } } catch (InterruptedException&) {} catch (std::exception& e) { c.bad("read-error", "a peer failed: %s", e.what()); } });
    { ContextGroup g(c.d); g.spawn([&] { Timer t(c.d); try { t.sleep(std::chrono::seconds(15)); late = true; gw.interrupt(); gr.interrupt(); gp.interrupt(); } catch (InterruptedException&) {} }); gw.wait(); gr.wait(); gp.wait(); g.interrupt(); g.wait(); }
    if (late) c.bad("other-direction", giveUpRead ? "after a read was given up, the write waiting on the same connection was never woken" : "after a write was given up, the read waiting on the same connection was never woken");
    vh::stat("net.gave-up");
  }
  // text over a stream buffer
  { auto x = c.pair(); uint64_t s = R.next(); std::string sent; int n = (int)R.range(1, 60); for (int i = 0; i < n; ++i) sent += vh::fmt("%llx ", (unsigned long long)R.next() >> R.below(60)); sent += "end"; if (R.chance(30)) { sent.insert(0, std::string(R.range(1, 9000), 'x') + " "); }
    ContextGroup g(c.d); std::string got; (void)s;
    g.spawn([&] { TcpStreambuf b(x.first); std::ostream o(&b); size_t p = 0; vh::Rng r(s); while (p < sent.size()) { size_t k = std::min<size_t>(sent.size() - p, r.range(1, 3000)); o.write(sent.data() + p, k); p += k; if (r.coin()) o.flush(); } o << " "; o.flush(); });
    g.spawn([&] { TcpStreambuf b(x.second); std::istream in(&b); std::string wd; while (in >> wd) { got += got.empty() ? wd : " " + wd; if (wd == "end") break; } });
    doing = "moving text"; g.wait(); if (got != sent && !c.failed) c.bad("text", "text of %zu bytes arrived as %zu bytes", sent.size(), got.size()); vh::stat("net.texts"); }
  vh::cover(vh::fmt("net %d %d %d", np, (int)ints, nr));
  if (c.failed) throw vh::CaseAbort();
}
}

// ---------------------------------------------------------------- queues, observers, loggers (real threads)
namespace queues {
struct Item { int p; int k; };
static void blocking(vh::Rng& R) {
  size_t cap = R.range(1, 6); int np = (int)R.range(1, 4), nc = (int)R.range(1, 4), per = (int)R.range(1, 150); int how = (int)R.below(4);
  BlockingQueue<Item> q(cap); GroupClose<BlockingQueue<Item>> gc(q, np);
  std::vector<std::vector<Item>> got(nc); std::vector<int> acc(np, 0); std::vector<std::thread> ths; std::atomic<bool> closed{false}; std::atomic<int> bad{0}; std::atomic<long> popped{0}, pushed{0};
  for (int p = 0; p < np; ++p) { uint64_t s = R.next(); ths.emplace_back([&, p, s] { vh::Rng r(s); for (int k = 0; k < per; ++k) { bool was = closed; if (r.chance(15)) std::this_thread::yield(); if (r.chance(3)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(200))); Item it = {p, k}; bool ok = q.push(it); if (ok) { ++pushed; acc[p] = k + 1; if (was) bad |= 1; } else { if (how == 0) bad |= 2; break; } } if (how == 0) gc.close(); }); }
  for (int c = 0; c < nc; ++c) { uint64_t s = R.next(); ths.emplace_back([&, c, s] { vh::Rng r(s); Item it; while (q.pop(it)) { ++popped; got[c].push_back(it); if (r.chance(15)) std::this_thread::yield(); if (r.chance(3)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(200))); } Item z; if (q.pop(z)) bad |= 4; }); }
  std::thread watch([&] { for (int i = 0; i < 60; ++i) { if (q.size() > cap) bad |= 8; std::this_thread::yield(); } });
  if (how == 1 || how == 2) { std::this_thread::sleep_for(std::chrono::microseconds(R.below(1500))); q.close(how == 2); closed = true; if (how == 2 && q.size() != 0) bad |= 16; }
  if (how == 3) { uint64_t s = R.next(); std::thread a([&] { vh::Rng r(s); std::this_thread::sleep_for(std::chrono::microseconds(r.below(900))); q.close(true); }), b([&] { std::this_thread::sleep_for(std::chrono::microseconds(300)); q.close(true); }); a.join(); b.join(); closed = true; if (q.size() != 0) bad |= 16; }
  doing = "waiting for producers and consumers";
  for (auto& t : ths) t.join();
  watch.join();
  if (bad & 1) vh::viol("T02", "push-after-close", "a queue accepted an item after it was closed");
  if (bad & 2) vh::viol("T02", "push-refused", "an open queue refused an item");
  if (bad & 4) vh::viol("T02", "pop-after-end", "a finished queue delivered an item");
  if (bad & 8) vh::viol("T02", "capacity", "a queue of capacity %zu held more", cap);
  if (bad & 16) vh::viol("T02", "close-wait", "closing with waiting returned while items were left");
  std::set<std::pair<int, int>> seen; long total = 0; for (int a : acc) total += a;
  for (auto& g : got) { std::vector<int> last(np, -1); for (auto& it : g) { if (it.k <= last[it.p]) vh::fail("T02", "order", "a consumer saw item %d of a producer after item %d", it.k, last[it.p]); last[it.p] = it.k; if (!seen.insert({it.p, it.k}).second) vh::fail("T02", "twice", "an item was delivered twice"); } }
  if ((long)seen.size() != total) vh::fail("T02", "lost", "%ld items were accepted, %zu delivered", total, seen.size());
  for (auto& x : seen) if (x.second >= acc[x.first]) vh::fail("T02", "refused-delivered", "a refused item was delivered");
  if (how == 0 && total != (long)np * per) vh::fail("T02", "lost", "not every item got through an open queue");
  vh::stat("queue.items", seen.size()); vh::stat("queues"); if (nc == 1) for (int p = 0; p < np; ++p) for (size_t i = 1; i < got[0].size(); ++i) (void)i;
  vh::cover(vh::fmt("queue %zu %d %d %d %ld", cap, np, nc, how, total / 50));
}
struct Obs { std::atomic<int> calls{0}; std::atomic<uint64_t> sum{0}; std::atomic<bool> in{false}; void ping(uint64_t v, std::string s) { if (s == "x") { ++calls; sum += v; } } };
static void observers(vh::Rng& R) {
  tools::ObserverManager<Obs> m; int ns = (int)R.range(1, 4), nm = (int)R.range(1, 3), nn = (int)R.range(1, 3), rounds = (int)R.range(20, 200);
  std::vector<Obs> stable(ns), moving(nm); for (auto& o : stable) if (!m.add(&o)) vh::fail("T02", "observer-add", "adding a new observer was refused");
  std::vector<std::thread> ths; std::atomic<int> bad{0}; std::atomic<uint64_t> sent{0}, sum{0};
  for (int i = 0; i < nm; ++i) ths.emplace_back([&, i] { for (int k = 0; k < rounds; ++k) { if (!m.add(&moving[i])) bad |= 1; if (m.add(&moving[i])) bad |= 2; if (!m.remove(&moving[i])) bad |= 4; if (m.remove(&moving[i])) bad |= 8; } });
  for (int i = 0; i < nn; ++i) ths.emplace_back([&, i] { for (int k = 0; k < rounds; ++k) { uint64_t v = i * 100000 + k; m.notify(&Obs::ping, v, std::string("x")); ++sent; sum += v; } });
  doing = "waiting for observers"; for (auto& t : ths) t.join();
  if (bad) vh::fail("T02", "observer-set", "adding and removing observers gave wrong answers (%d)", (int)bad);
  for (auto& o : stable) if ((uint64_t)o.calls != sent || o.sum != sum) vh::fail("T02", "observer-missed", "%llu notifications were sent, an observer saw %d", (unsigned long long)sent, (int)o.calls);
  for (auto& o : moving) { if ((uint64_t)o.calls > sent) vh::fail("T02", "observer-twice", "an observer saw more notifications than were sent"); int a = o.calls; m.notify(&Obs::ping, (uint64_t)1, std::string("x")); if (o.calls != a) vh::fail("T02", "observer-removed", "a removed observer is still notified"); }
  vh::stat("observer.notified", sent); vh::cover(vh::fmt("obs %d %d %d", ns, nm, nn));
}
static void loggers(vh::Rng& R) {
  std::string dir = vh::newDir("log"); int nt = (int)R.range(2, 5), per = (int)R.range(5, 60); bool group = R.chance(30); int maxLevel = (int)R.range(2, 5);
  logging::LoggerManager lm; logging::LoggerGroup lg((logging::Level)maxLevel); std::ostringstream so; logging::StreamLogger sl(so, (logging::Level)maxLevel); std::string file = dir + "/a.log", file2 = dir + "/b.log";
  std::string pattern = R.coin() ? "%L [%C] " : ""; bool two = R.coin(); std::unique_ptr<logging::FileLogger> fl;
  if (group) { sl.setPattern(pattern); lg.addLogger(sl); fl.reset(new logging::FileLogger((logging::Level)maxLevel)); fl->init(file); fl->setPattern(pattern); lg.addLogger(*fl); lg.disableCategory("off"); }
  else { common::JsonValue cfg(common::JsonValue::OBJECT); cfg.insert("globalLevel", (int64_t)maxLevel); common::JsonValue& dc = cfg.insert("globalDisabledCategories", common::JsonValue::ARRAY); dc.pushBack(common::JsonValue("off")); common::JsonValue& ls = cfg.insert("loggers", common::JsonValue::ARRAY); for (int i = 0; i < 1 + two; ++i) { common::JsonValue& f = ls.pushBack(common::JsonValue::OBJECT); f.insert("type", "file"); f.insert("filename", i ? file2 : file); f.insert("level", (int64_t)5); f.insert("pattern", pattern); } lm.configure(cfg); }
  logging::ILogger& log = group ? static_cast<logging::ILogger&>(lg) : static_cast<logging::ILogger&>(lm);
  std::vector<std::vector<std::string>> want(nt); std::vector<std::thread> ths;
  for (int t = 0; t < nt; ++t) { uint64_t s = R.next(); ths.emplace_back([&, t, s] { vh::Rng r(s); for (int k = 0; k < per; ++k) {
      bool off = r.chance(15); std::string cat = off ? "off" : vh::fmt("cat%d", (int)r.below(3)); int lv = (int)r.below(6); logging::LoggerRef ref(log, cat); std::string body = vh::fmt("t%d.%d ", t, k), rest; int n = (int)r.below(6); for (int i = 0; i < n; ++i) rest += vh::fmt("%llx-", (unsigned long long)r.next());
      std::string nm = logging::ILogger::LEVEL_NAMES[lv]; std::string line = (pattern.empty() ? "" : nm + " [" + cat + "] ") + body + rest + "!";
      if (r.coin()) ref((logging::Level)lv, r.coin() ? logging::BRIGHT_RED : logging::DEFAULT) << body << rest << '!'; else ref((logging::Level)lv) << body << rest << '!' << std::endl;
      if (lv <= maxLevel && !off) want[t].push_back(line); } }); }
  doing = "waiting for logging threads"; for (auto& t : ths) t.join();
  { std::unique_ptr<logging::FileLogger> x = std::move(fl); }
  auto judge = [&](const std::string& text, const char* where) {
    std::vector<size_t> at(nt, 0); std::istringstream in(text); std::string l; size_t n = 0;
    while (std::getline(in, l)) { ++n; bool ok = false; for (int t = 0; t < nt; ++t) if (at[t] < want[t].size() && want[t][at[t]] == l) { ++at[t]; ok = true; break; } if (!ok) vh::fail("T02", "log-line", "a line in the %s log is torn, doubled, misplaced or should not be there: %s", where, l.substr(0, 200).c_str()); }
    for (int t = 0; t < nt; ++t) if (at[t] != want[t].size()) vh::fail("T02", "log-lost", "%zu of %zu lines of a thread are in the %s log", at[t], want[t].size(), where);
    vh::stat("log.lines", n);
  };
  if (!group) { logging::LoggerManager* p = &lm; common::JsonValue cfg(common::JsonValue::OBJECT); cfg.insert("loggers", common::JsonValue::ARRAY); p->configure(cfg); }
  judge(vh::readFile(file), "file"); if (group) judge(so.str(), "stream"); else if (two) judge(vh::readFile(file2), "second file");
  vh::rmTree(dir); vh::cover(vh::fmt("log %d %d %d %d %d", nt, (int)group, maxLevel, (int)pattern.empty(), (int)two));
}
static void run(long, vh::Rng& R) { Watch w(120); int n = 3; for (int i = 0; i < n; ++i) { switch (R.below(4)) { case 0: case 1: blocking(R); break; case 2: observers(R); break; default: loggers(R); } } }
}

// ---------------------------------------------------------------- message queues of tasks
namespace mqueue {
static void run(long, vh::Rng& R) {
  Watch w(60); doing = "passing messages between tasks"; Dispatcher d; bool failed = false;
  auto bad = [&](const char* key, const std::string& s) { if (!failed) { failed = true; vh::report("T02", key, s); } };
  int nq = (int)R.range(1, 3);
  struct Q { cn::MessageQueue<int> q; std::vector<int> sent, got; bool stopped = false, ended = false, front = false; explicit Q(Dispatcher& d) : q(d) {} };
  std::vector<std::unique_ptr<Q>> qs; std::vector<std::unique_ptr<ContextGroup>> gs; ContextGroup pg(d);
  for (int i = 0; i < nq; ++i) {
    qs.emplace_back(new Q(d)); gs.emplace_back(new ContextGroup(d)); Q* q = qs.back().get(); uint64_t s = R.next(); bool byInterrupt = R.chance(30); int n = (int)R.range(0, 40); bool remote = R.chance(30);
    gs.back()->spawn([&, q, s] { vh::Rng r(s); try { for (;;) { int v = q->q.front(); if (q->got.size() >= q->sent.size() || v != q->sent[q->got.size()]) { bad("front", vh::fmt("looking at the first message showed %d, but %zu of %zu messages were already taken", v, q->got.size(), q->sent.size())); } if (r.chance(20)) d.yield(); if (r.chance(15)) { int v2 = q->q.front(); if (v2 != v) bad("front-moved", "looking twice at the first message showed two different ones"); } q->q.pop(); q->got.push_back(v); vh::stat("messages"); if (r.chance(10)) { Timer t(d); t.sleep(std::chrono::microseconds(r.range(1, 300))); } } } catch (InterruptedException&) { q->ended = true; } });
    pg.spawn([&, q, s, n, byInterrupt, remote, i] { vh::Rng r(s ^ 5); for (int k = 0; k < n; ++k) { if (r.chance(30)) d.yield(); if (r.chance(10)) { Timer t(d); t.sleep(std::chrono::microseconds(r.range(1, 300))); } q->sent.push_back(k); if (remote) d.remoteSpawn([q, k] { q->q.push(k); }); else q->q.push(k); }
      if (byInterrupt) { for (int z = 0; z < 4000 && q->got.size() < q->sent.size(); ++z) { Timer t(d); t.sleep(std::chrono::microseconds(200)); } gs[i]->interrupt(); }
      else { if (r.coin()) d.yield(); if (remote) { for (int z = 0; z < 4000 && q->got.size() < q->sent.size(); ++z) { Timer t(d); t.sleep(std::chrono::microseconds(200)); } } q->q.stop(); q->stopped = true; vh::stat("stops"); } });
  }
  pg.wait(); for (auto& g : gs) g->wait();
  for (auto& q : qs) { if (!q->ended) bad("stop", "a reader did not end when its queue was stopped"); if (q->got != q->sent) bad("messages", vh::fmt("%zu messages were queued, %zu were received", q->sent.size(), q->got.size())); }
  vh::stat("mqueues", nq); vh::cover(vh::fmt("mq %d", nq));
  if (failed) throw vh::CaseAbort();
}
}

int main(int argc, char** argv) {
  signal(SIGPIPE, SIG_IGN); signal(SIGALRM, onAlarm);
  return vh::run(argc, argv, [](long k, vh::Rng& r) {
    const std::string& m = vh::opt.mode;
    if (m == "tasks") tasks::run(k, r); else if (m == "net") net::run(k, r); else if (m == "queues") queues::run(k, r); else if (m == "mqueue") mqueue::run(k, r); else { fprintf(stderr, "mode?\n"); exit(2); }
  });
}
