// A deterministic cooperative scheduler for real threads.
//
// The executable is linked with -Wl,--wrap for the pthread mutex and rwlock functions, so the locks the code under test
// takes through std::mutex / std::shared_mutex are simulated here: exactly one managed thread runs at any time, and every
// lock operation, every callback and every user-defined hash, comparison, copy, move or destruction is a point at which
// the scheduler may switch to another thread.  A schedule is the list of choices made at those points.
#pragma once
#include "trace.hpp"
#include <functional>
#include <map>
#include <pthread.h>
#include <set>
#include <vector>
#include <cerrno>

extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*);
int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
int __real_pthread_rwlock_tryrdlock(pthread_rwlock_t*);
int __real_pthread_rwlock_trywrlock(pthread_rwlock_t*);
int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
}

namespace vt::sched {
constexpr int kMax = 4;
inline thread_local int self = -1;                 // index of the managed thread, or -1

struct Lk { int writer = -1; std::multiset<int> readers; bool free() const { return writer < 0 && readers.empty(); } };
struct S {
    pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
    pthread_cond_t cv[kMax + 1];
    int n = 0, running = -1;                       // -1: main
    enum St { READY, BLOCKED, DONE } st[kMax];
    void* want[kMax];
    bool want_excl[kMax];
    std::map<void*, Lk> locks;
    std::function<int(int, int)> choose;           // (number of candidates, index of the running thread or -1) -> choice
    long steps = 0;
    bool quiet = false;                            // no switching (set while a thread records)
    bool fair = false;                             // a waiting writer keeps new readers out (shared mutexes may or may not do so)
};
inline S& s() { static S x; return x; }

inline bool can(void* m, bool excl, int me) {
    auto it = s().locks.find(m);
    if (it == s().locks.end()) return true;
    if (s().fair && !excl)
        for (int i = 0; i < s().n; ++i) if (i != me && s().st[i] == S::BLOCKED && s().want[i] == m && s().want_excl[i]) return false;
    return excl ? it->second.free() : it->second.writer < 0;
}
inline bool runnable(int i) { return s().st[i] == S::READY || (s().st[i] == S::BLOCKED && can(s().want[i], s().want_excl[i], i)); }

inline void transfer(int from, int to) {           // called by `from` (kMax for main) holding the baton
    S& x = s();
    if (from == to) return;
    __real_pthread_mutex_lock(&x.mu);
    x.running = to;
    pthread_cond_signal(&x.cv[to]);
    while (from >= 0 && x.running != from) pthread_cond_wait(&x.cv[from], &x.mu);
    __real_pthread_mutex_unlock(&x.mu);
}
inline void give(int to) {                          // hand over without waiting (thread ends)
    S& x = s();
    __real_pthread_mutex_lock(&x.mu);
    x.running = to;
    pthread_cond_signal(&x.cv[to]);
    __real_pthread_mutex_unlock(&x.mu);
}
// candidates in a canonical order: the running thread first (choice 0 = no preemption)
inline int pick(int me) {
    S& x = s();
    int c[kMax], k = 0, cur = -1;
    if (me >= 0 && runnable(me)) { c[k++] = me; cur = 0; }
    for (int i = 0; i < x.n; ++i) if (i != me && x.st[i] != S::DONE && runnable(i)) c[k++] = i;
    if (!k) return -1;
    if (k == 1) return c[0];
    return c[x.choose(k, cur)];
}
inline void point() {
    if (self < 0 || s().quiet) return;
    S& x = s();
    if (++x.steps > 200000) bad("livelock");
    int to = pick(self);
    if (to != self) transfer(self, to);
}
inline void acquire(void* m, bool excl) {
    S& x = s();
    point();
    while (!can(m, excl, self)) {
        x.st[self] = S::BLOCKED;
        x.want[self] = m;
        x.want_excl[self] = excl;
        int to = pick(self);
        if (to < 0) bad("deadlock");
        if (++x.steps > 200000) bad("livelock");
        if (to != self) transfer(self, to);
        x.st[self] = S::READY;
    }
    Lk& l = x.locks[m];
    if (excl) l.writer = self; else l.readers.insert(self);
}
inline bool try_acquire(void* m, bool excl) {
    point();
    if (!can(m, excl, self)) return false;
    Lk& l = s().locks[m];
    if (excl) l.writer = self; else l.readers.insert(self);
    return true;
}
inline void release(void* m) {
    auto it = s().locks.find(m);
    if (it == s().locks.end()) bad("unlock_of_a_free_lock");
    Lk& l = it->second;
    if (l.writer == self) l.writer = -1;
    else {
        auto r = l.readers.find(self);
        if (r == l.readers.end()) bad("unlock_of_a_lock_of_another_thread");
        l.readers.erase(r);
    }
    if (l.free()) s().locks.erase(it);
    point();
}

// ------------------------------------------------------------------ free-running threads (for the data-race build)
inline thread_local int free_id = -1;              // index of a free-running thread
inline int id() { return self >= 0 ? self : free_id; }
inline void run_free(std::vector<std::function<void()>> fs) {
    struct B { int i; std::function<void()>* f; Trace::Own* o; std::atomic<int>* gate; };
    std::vector<Trace::Own> own(fs.size());
    std::atomic<int> gate { (int)fs.size() };
    std::vector<B> b(fs.size());
    std::vector<pthread_t> th(fs.size());
    for (size_t i = 0; i < fs.size(); ++i) {
        b[i] = { (int)i, &fs[i], &own[i], &gate };
        pthread_create(&th[i], nullptr, +[](void* p) -> void* {
            B* x = (B*)p;
            free_id = x->i;
            Trace::own() = x->o;
            x->gate->fetch_sub(1, std::memory_order_relaxed);
            while (x->gate->load(std::memory_order_relaxed) > 0) {}
            (*x->f)();
            Trace::own() = nullptr;
            return nullptr;
        }, &b[i]);
    }
    for (auto& t : th) pthread_join(t, nullptr);
    T().merge(own);
}

struct Body { int i; std::function<void()> f; };
inline void* entry(void* p) {
    Body* b = (Body*)p;
    S& x = s();
    self = b->i;
    __real_pthread_mutex_lock(&x.mu);
    while (x.running != b->i) pthread_cond_wait(&x.cv[b->i], &x.mu);
    __real_pthread_mutex_unlock(&x.mu);
    b->f();
    x.st[b->i] = S::DONE;
    int to = pick(-1);
    if (to < 0) {
        for (int i = 0; i < x.n; ++i) if (x.st[i] != S::DONE) bad("deadlock");
        to = kMax;
    }
    self = -1;
    give(to);
    return nullptr;
}
// runs the bodies to completion under the scheduler; returns the number of locks still held
inline int run(std::vector<std::function<void()>> fs, std::function<int(int, int)> choose) {
    S& x = s();
    static bool init = false;
    if (!init) { for (auto& c : x.cv) pthread_cond_init(&c, nullptr); init = true; }
    x.n = (int)fs.size();
    x.choose = std::move(choose);
    x.steps = 0;
    x.locks.clear();
    std::vector<Body> b(fs.size());
    std::vector<pthread_t> th(fs.size());
    for (int i = 0; i < x.n; ++i) { x.st[i] = S::READY; b[i] = { i, fs[i] }; }
    x.running = kMax;
    for (int i = 0; i < x.n; ++i) pthread_create(&th[i], nullptr, entry, &b[i]);
    int first = pick(-1);
    __real_pthread_mutex_lock(&x.mu);
    x.running = first;
    pthread_cond_signal(&x.cv[first]);
    while (x.running != kMax) pthread_cond_wait(&x.cv[kMax], &x.mu);
    __real_pthread_mutex_unlock(&x.mu);
    for (auto& t : th) pthread_join(t, nullptr);
    return (int)x.locks.size();
}

// ------------------------------------------------------------------ choosers
struct RandomChooser {                              // random preemption with probability pct
    Rng r;
    int pct;
    int operator()(int k, int cur) { if (cur >= 0 && !r.chance(pct)) return 0; return r.below(k); }
};
// depth-first enumeration of schedules with a bound on preemptions
struct Dfs {
    struct Choice { int k, c; bool preemptable; };
    std::vector<Choice> path;
    size_t pos = 0;
    int bound = 2, used = 0;
    void start() { pos = 0; used = 0; }
    int operator()(int k, int cur) {
        if (pos == path.size()) path.push_back({ k, 0, cur >= 0 });
        Choice& ch = path[pos++];
        if (ch.k != k) { ch.k = k; if (ch.c >= k) ch.c = 0; }
        if (cur >= 0 && ch.c > 0) ++used;
        if (used > bound) { if (cur >= 0 && ch.c > 0) { ch.c = 0; } }
        return ch.c;
    }
    bool next() {                                   // advance to the next schedule
        path.resize(pos);
        while (!path.empty()) {
            Choice& ch = path.back();
            // preemptions spent before this choice
            int u = 0;
            for (size_t i = 0; i + 1 < path.size(); ++i) if (path[i].preemptable && path[i].c > 0) ++u;
            if (ch.c + 1 < ch.k && !(ch.preemptable && u >= bound)) { ++ch.c; return true; }
            path.pop_back();
        }
        return false;
    }
};
} // namespace vt::sched

extern "C" {
inline int vt_unused_sched;
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { if (vt::sched::self < 0) return __real_pthread_mutex_lock(m); vt::sched::acquire(m, true); return 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { if (vt::sched::self < 0) return __real_pthread_mutex_trylock(m); return vt::sched::try_acquire(m, true) ? 0 : EBUSY; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { if (vt::sched::self < 0) return __real_pthread_mutex_unlock(m); vt::sched::release(m); return 0; }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) { if (vt::sched::self < 0) return __real_pthread_rwlock_rdlock(m); vt::sched::acquire(m, false); return 0; }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (vt::sched::self < 0) return __real_pthread_rwlock_wrlock(m); vt::sched::acquire(m, true); return 0; }
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { if (vt::sched::self < 0) return __real_pthread_rwlock_tryrdlock(m); return vt::sched::try_acquire(m, false) ? 0 : EBUSY; }
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t* m) { if (vt::sched::self < 0) return __real_pthread_rwlock_trywrlock(m); return vt::sched::try_acquire(m, true) ? 0 : EBUSY; }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) { if (vt::sched::self < 0) return __real_pthread_rwlock_unlock(m); vt::sched::release(m); return 0; }
}
