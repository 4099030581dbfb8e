// intrusive_ptr / intrusive_ref_counter.  Specification: spec/RefcountTrace.tla.
#include "trace.hpp"
#include "sched.hpp"
#include <array>
#include <atomic>
#include <cassert>
#include <cstddef>
#include <functional>
#include <iostream>
#include <memory>
#include <sstream>
#include <unordered_set>
#if !defined(__SANITIZE_THREAD__)
// an atomic whose every operation is a scheduling point, used for the counters only
namespace std {
template<class T>
struct vt_atomic {
    T v;
    static void p() { vt::sched::point(); }
    vt_atomic() noexcept = default;
    constexpr vt_atomic(T x) noexcept : v(x) {}
    vt_atomic(const vt_atomic&) = delete;
    vt_atomic& operator=(const vt_atomic&) = delete;
    T operator=(T x) noexcept { p(); return v = x; }
    T load(memory_order = memory_order_seq_cst) const noexcept { p(); return v; }
    void store(T x, memory_order = memory_order_seq_cst) noexcept { p(); v = x; }
    operator T() const noexcept { return load(); }
    T exchange(T x, memory_order = memory_order_seq_cst) noexcept { p(); T o = v; v = x; return o; }
    T fetch_add(T x, memory_order = memory_order_seq_cst) noexcept { p(); T o = v; v = o + x; return o; }
    T fetch_sub(T x, memory_order = memory_order_seq_cst) noexcept { p(); T o = v; v = o - x; return o; }
    T operator++() noexcept { return fetch_add(1) + 1; }
    T operator--() noexcept { return fetch_sub(1) - 1; }
    T operator++(int) noexcept { return fetch_add(1); }
    T operator--(int) noexcept { return fetch_sub(1); }
    T operator+=(T x) noexcept { return fetch_add(x) + x; }
    T operator-=(T x) noexcept { return fetch_sub(x) - x; }
    bool compare_exchange_strong(T& e, T d, memory_order = memory_order_seq_cst, memory_order = memory_order_seq_cst) noexcept { p(); if (v == e) { v = d; return true; } e = v; return false; }
    bool compare_exchange_weak(T& e, T d, memory_order = memory_order_seq_cst, memory_order = memory_order_seq_cst) noexcept { return compare_exchange_strong(e, d); }
};
}
#define atomic vt_atomic
#include <gtl/intrusive.hpp>
#undef atomic
#else
#include <gtl/intrusive.hpp>
#endif
using namespace vt;

constexpr int kObjs = 7;
struct Reg { void* base = nullptr; bool der = false; };
static Reg g_reg[kObjs + 1];
static int g_live = 0;
static bool g_log_dtor = false;

struct Other { long pad[3] = { 1, 2, 3 }; virtual ~Other() {} };
template<class P>
struct Bs : gtl::intrusive_ref_counter<Bs<P>, P> {
    int v, id;
    unsigned magic = 0xA11FE;
    int mark[4] = { 0, 0, 0, 0 };
    Bs(int id_, int v_) : v(v_), id(id_) { if (g_reg[id].base) bad("driver_error"); g_reg[id] = { this, false }; __atomic_fetch_add(&g_live, 1, __ATOMIC_RELAXED); }
    Bs(const Bs& o) : gtl::intrusive_ref_counter<Bs<P>, P>(o), v(o.v), id(0) { __atomic_fetch_add(&g_live, 1, __ATOMIC_RELAXED); }
    Bs& operator=(const Bs& o) { gtl::intrusive_ref_counter<Bs<P>, P>::operator=(o); v = o.v; return *this; }
    virtual ~Bs() {
        if (magic != 0xA11FE) bad("destroyed_twice");
        magic = 0xDEAD;
        int s = 0;
        for (int m : mark) s += m;
        if (s < 0) bad("mark");
        __atomic_fetch_sub(&g_live, 1, __ATOMIC_RELAXED);
        if (id) { g_reg[id].base = nullptr; if (g_log_dtor) T().ev("dtor", id); }
    }
};
template<class P>
struct Dr : Other, Bs<P> { Dr(int id_, int v_) : Bs<P>(id_, v_) { g_reg[id_].der = true; } };

template<class P>
class IntrDriver {
    using B = Bs<P>;
    using D = Dr<P>;
    template<class X> using ptr = gtl::intrusive_ptr<X>;
    static constexpr int NB = 4, ND = 3, NC = 2;
public:
    static constexpr int kSlots = NB + ND + NC;
    Rng r;
    ptr<B> b[NB];
    ptr<D> d[ND];
    ptr<const B> c[NC];
    std::array<int, kObjs + 1> raw {};
    int vseq = 0;
    explicit IntrDriver(uint64_t seed) : r(seed) { for (auto& x : g_reg) x = Reg(); g_live = 0; g_log_dtor = false; }

    template<class F> auto at(int i, F f) { if (i <= NB) return f(b[i - 1]); if (i <= NB + ND) return f(d[i - NB - 1]); return f(c[i - NB - ND - 1]); }
    static char ty(int i) { return i <= NB ? 'B' : i <= NB + ND ? 'D' : 'C'; }
    static int idof(const B* p) { if (!p) return 0; if (p->magic != 0xA11FE) bad("dangling_pointer"); return p->id; }
    template<class X> static int idof(const ptr<X>& p) { return idof(static_cast<const B*>(p.get())); }
    std::vector<int> slots() { std::vector<int> v; for (int i = 1; i <= kSlots; ++i) v.push_back(at(i, [](auto& p) { return idof(p); })); return v; }
    std::vector<int> counts() { std::vector<int> v; for (int o = 1; o <= kObjs; ++o) v.push_back(g_reg[o].base ? (int)((B*)g_reg[o].base)->use_count() : -1); return v; }
    std::vector<int> vals() { std::vector<int> v; for (int o = 1; o <= kObjs; ++o) v.push_back(g_reg[o].base ? ((B*)g_reg[o].base)->v : -1); return v; }
    template<class... A> void ev(const char* op, A... a) { T().ev(op, a..., slots(), counts(), vals()); }
    int fresh_id() { for (int o = 1; o <= kObjs; ++o) if (!g_reg[o].base) return o; return 0; }
    int live_obj(bool der) { std::vector<int> v; for (int o = 1; o <= kObjs; ++o) if (g_reg[o].base && (!der || g_reg[o].der)) v.push_back(o); return v.empty() ? 0 : v[r.below((int)v.size())]; }
    int obj_in(int i) { return at(i, [](auto& p) { return idof(p); }); }
    static B* basep(int o) { return (B*)g_reg[o].base; }

    // copies or moves slot j to slot i, by whichever conversion the types need; false if there is none
    bool xfer(int i, int j, bool mv, int var) {
        bool ok = true;
        at(i, [&](auto& x) { at(j, [&](auto& y) {
            using X = std::remove_reference_t<decltype(*x)>;
            using Y = std::remove_reference_t<decltype(*y)>;
            if constexpr (std::is_same_v<X, Y>) {
                if (mv) switch (var % 3) {
                    case 0: x = std::move(y); break;
                    case 1: { if (&x == &y) { x = std::move(y); break; } ptr<X> t(std::move(y)); x = std::move(t); break; }
                    case 2: { if (&x == &y) { x = std::move(y); break; } x.reset(y.detach(), false); break; }
                } else switch (var % 5) {
                    case 0: x = y; break;
                    case 1: { ptr<X> t(y); x = std::move(t); break; }
                    case 2: x.reset(y.get()); break;
                    case 3: x = y.get(); break;
                    case 4: { ptr<X> t(y.get()); swap(t, x); break; }
                }
            } else if constexpr (std::is_convertible_v<Y*, X*>) {
                if (mv) { if (var & 1) x = std::move(y); else { ptr<X> t(std::move(y)); x.swap(t); } }
                else { if (var & 1) x = y; else { ptr<X> t(y); x = t; } }
            } else if constexpr (std::is_same_v<X, D> && std::is_same_v<Y, B>) {
                if (idof(y) && !g_reg[idof(y)].der) ok = false;
                else if (mv) x = gtl::static_pointer_cast<D>(std::move(y));
                else x = gtl::static_pointer_cast<D>(y);
            } else if constexpr (std::is_same_v<X, B>) {
                if (mv) x = gtl::const_pointer_cast<B>(std::move(y)); else x = gtl::const_pointer_cast<B>(y);
            } else ok = false;
        }); });
        return ok;
    }
    void compare(int i, int j) {
        at(i, [&](auto& x) { at(j, [&](auto& y) {
            bool e = x == y, n = x != y;
            if ((y == x) != e || (x == y.get()) != e || (x.get() == y) != e || (x != y.get()) != n || (x.get() != y) != n) e = !e;
            bool xn = x == nullptr, xs = bool(x), yn = nullptr == y;
            if ((nullptr == x) != xn || (x != nullptr) == xn || (nullptr != x) == xn) xn = !xn;
            if (gtl::get_pointer(x) != x.get()) e = !e;
            T().ev("cmp", i, j, std::vector<int> { e, n, xn, xs, yn });
            if constexpr (std::is_same_v<decltype(x), decltype(y)>) {
                using X = std::remove_reference_t<decltype(*x)>;
                T().ev("less", i, j, x < y, y < x, std::less<X*>()(x.get(), y.get()));
                std::ostringstream a1, a2;
                a1 << x; a2 << x.get();
                bool h = std::hash<ptr<X>>()(x) == std::hash<ptr<X>>()(y) && gtl::hash_value(x) == gtl::hash_value(y) && a1.str() == a2.str();
                T().ev("hash", i, j, h || x != y ? (h ? 1 : 0) : 0);
            }
        }); });
    }
    void step() {
        int i = r.range(1, kSlots), j = r.range(1, kSlots);
        switch (r.pick({ 14, 20, 16, 10, 10, 6, 6, 6, 6, 6, 5, 5 })) {
        case 0: {
            int o = fresh_id();
            if (!o) { at(i, [](auto& p) { p.reset(); }); ev("reset", i); return; }
            bool der = ty(i) == 'D' || r.chance(50);
            int v = ++vseq % 500, var = r.below(4);
            at(i, [&](auto& p) {
                using X = std::remove_reference_t<decltype(*p)>;
                X* q;
                if constexpr (std::is_same_v<X, D>) q = new D(o, v);
                else { if (der) q = new D(o, v); else q = new B(o, v); }
                switch (var) { case 0: p = ptr<X>(q); break; case 1: p.reset(q); break; case 2: p = q; break; case 3: p.reset(q, true); break; }
            });
            ev("make", i, o, (int)der, v);
            return;
        }
        case 1: if (xfer(i, j, false, r.below(16))) ev("copy", i, j); return;
        case 2: if (xfer(i, j, true, r.below(16))) ev("move", i, j); return;
        case 3:
            if (ty(i) != ty(j)) return;
            at(i, [&](auto& x) { at(j, [&](auto& y) { if constexpr (std::is_same_v<decltype(x), decltype(y)>) { if (r.chance(50)) x.swap(y); else swap(x, y); } }); });
            ev("swap", i, j);
            return;
        case 4: {
            int var = r.below(3);
            at(i, [&](auto& p) {
                using X = std::remove_reference_t<decltype(*p)>;
                if (var == 0) p.reset(); else if (var == 1) p = ptr<X>(); else { std::destroy_at(&p); std::construct_at(&p); }
            });
            ev("reset", i);
            return;
        }
        case 5: {                                          // from a raw pointer to a live object
            int o = live_obj(ty(i) == 'D');
            if (!o) return;
            int var = r.below(3);
            at(i, [&](auto& p) {
                using X = std::remove_reference_t<decltype(*p)>;
                X* q;
                if constexpr (std::is_same_v<X, D>) q = static_cast<D*>(basep(o)); else q = basep(o);
                if (var == 0) p = q; else if (var == 1) p.reset(q); else { ptr<X> t(q, true); p = t; }
            });
            ev("point", i, o);
            return;
        }
        case 6: {
            int got = at(i, [&](auto& p) { auto* q = p.detach(); int o = idof(static_cast<const B*>(q)); raw[o]++; return o; });
            ev("det", i, got);
            return;
        }
        case 7: {
            std::vector<int> v;
            for (int o = 1; o <= kObjs; ++o) if (raw[o] > 0 && (ty(i) != 'D' || g_reg[o].der)) v.push_back(o);
            if (v.empty()) return;
            int o = v[r.below((int)v.size())];
            raw[o]--;
            at(i, [&](auto& p) {
                using X = std::remove_reference_t<decltype(*p)>;
                X* q;
                if constexpr (std::is_same_v<X, D>) q = static_cast<D*>(basep(o)); else q = basep(o);
                if (r.chance(50)) p = ptr<X>(q, false); else p.reset(q, false);
            });
            ev("adopt", i, o);
            return;
        }
        case 8: {                                          // dynamic casts
            int x = r.below(ND), y = r.below(NB);
            bool mv = r.chance(50);
            if (mv) d[x] = gtl::dynamic_pointer_cast<D>(std::move(b[y])); else d[x] = gtl::dynamic_pointer_cast<D>(b[y]);
            ev(mv ? "dynm" : "dync", NB + x + 1, y + 1);
            return;
        }
        case 9: compare(i, r.chance(20) ? i : j); return;
        case 10: {
            int y = r.below(NB), v = ++vseq % 500;
            if (!b[y]) return;
            if (r.chance(50)) b[y]->v = v; else (*b[y]).v = v;
            ev("write", y + 1, v);
            return;
        }
        case 11: {
            int x = r.below(NB), y = r.below(NB);
            if (!b[x] || !b[y]) return;
            if (r.chance(30)) {                            // a copy of the object has its own count
                ptr<B> t(new B(*b[y]));
                if (t->use_count() != 1) bad("copied_object_has_a_foreign_count");
            }
            *b[x] = *b[y];
            ev("assign", x + 1, y + 1);
            return;
        }
        }
    }
    void finish() {
        for (int o = 1; o <= kObjs; ++o) while (raw[o] > 0) { raw[o]--; b[0] = ptr<B>(basep(o), false); ev("adopt", 1, o); }
        for (int i = 1; i <= kSlots; ++i) { at(i, [](auto& p) { p.reset(); }); ev("reset", i); }
        T().ev("fin", g_live);
    }
    void run_seq(int events) { while ((int)T().count() < events) step(); finish(); }
};

// ------------------------------------------------------------------ several threads
class IntrMt {
    using P = gtl::thread_safe_counter;
    using B = Bs<P>;
    using ptr = gtl::intrusive_ptr<B>;
public:
    static constexpr int kOwn = 3, kThreads = 3, kShared = 2, kSlots = kOwn * kThreads + kShared;
    Rng r;
    ptr s[kSlots];                                          // slot index 0.. : thread-owned ones first, then shared read-only ones
    int vseq = 0;
    explicit IntrMt(uint64_t seed) : r(seed) { for (auto& x : g_reg) x = Reg(); g_live = 0; g_log_dtor = true; }
    std::vector<int> slots() { std::vector<int> v; for (auto& p : s) v.push_back(p ? p->id : 0); return v; }
    std::vector<int> counts() { std::vector<int> v; for (int o = 1; o <= kObjs; ++o) v.push_back(g_reg[o].base ? (int)((B*)g_reg[o].base)->use_count() : -1); return v; }
    std::vector<int> vals() { std::vector<int> v; for (int o = 1; o <= kObjs; ++o) v.push_back(g_reg[o].base ? ((B*)g_reg[o].base)->v : -1); return v; }

    struct Cmd { int op, i, j, var; };                      // 0 share i<-j, 1 release i, 2 use i
    void release(int i, int var) {
        T().ev("relb", i + 1);
        switch (var % 4) {
        case 0: s[i].reset(); break;
        case 1: s[i] = ptr(); break;
        case 2: { ptr t(std::move(s[i])); break; }
        case 3: s[i] = (B*)nullptr; break;
        }
        T().ev("rele", i + 1);
    }
    void doit(const Cmd& x) {
        switch (x.op) {
        case 0:
            if (s[x.i] || !s[x.j]) return;
            T().ev("share", x.i + 1, x.j + 1);
            if (x.var & 1) s[x.i] = s[x.j]; else { ptr t(s[x.j]); s[x.i] = std::move(t); }
            break;
        case 1:
            if (!s[x.i]) return;
            s[x.i]->mark[sched::id()] = 1;
            release(x.i, x.var);
            break;
        case 2:
            if (!s[x.i]) return;
            T().ev("use", x.i + 1, s[x.i]->v);
            s[x.i]->mark[sched::id()] = 2;
            if (s[x.i]->use_count() == 0) bad("count_zero_while_held");
            break;
        }
        sched::point();
    }
    void setup() {
        g_log_dtor = false;
        for (int i = 0; i < kSlots; ++i) {
            if (r.chance(35)) { if (s[i]) { s[i].reset(); T().ev("reset", i + 1, slots(), counts(), vals()); } continue; }
            int o = 0;
            if (r.chance(30)) for (int k = 1; k <= kObjs; ++k) if (!g_reg[k].base) o = k;
            if (o) { int v = ++vseq % 500; s[i] = ptr(new B(o, v)); T().ev("make", i + 1, o, 0, v, slots(), counts(), vals()); }
            else { int j = r.below(kSlots); s[i] = s[j]; T().ev("copy", i + 1, j + 1, slots(), counts(), vals()); }
        }
        g_log_dtor = true;
    }
    std::vector<std::vector<Cmd>> program(int nt, int len) {
        std::vector<std::vector<Cmd>> prog(nt);
        for (int t = 0; t < nt; ++t)
            for (int k = r.range(1, len); k > 0; --k) {
                Cmd x;
                x.op = r.pick({ 30, 50, 15 });
                x.i = t * kOwn + r.below(kOwn);
                x.j = r.chance(60) ? t * kOwn + r.below(kOwn) : kOwn * kThreads + r.below(kShared);
                x.var = r.below(8);
                prog[t].push_back(x);
            }
        return prog;
    }
    std::vector<std::function<void()>> bodies(std::vector<std::vector<Cmd>>& prog) {
        std::vector<std::function<void()>> fs;
        for (auto& p : prog) fs.push_back([this, &p] { for (auto& x : p) doit(x); });
        return fs;
    }
    void run(int events, int mode) {                        // 0 random schedules, 1 all schedules up to a bound, 2 free-running
        int pct = r.range(5, 60);
        sched::RandomChooser ch { Rng(r.next()), pct };
        while ((int)T().count() < events) {
            setup();
            auto prog = program(r.chance(50) ? 2 : 3, mode == 1 ? 2 : 4);
            if (mode == 0) { sched::run(bodies(prog), [&ch](int k, int cur) { return ch(k, cur); }); T().ev("quiet", counts()); }
            else if (mode == 2) { sched::run_free(bodies(prog)); T().ev("quiet", counts()); }
            else {
                sched::Dfs dfs;
                dfs.bound = prog.size() == 2 ? 4 : 2;
                std::unordered_set<std::string> seen;
                int n = 0;
                Rng keep = r;
                do {
                    auto mk = T().mark();
                    dfs.start();
                    // every schedule starts from the same contents
                    g_log_dtor = false;
                    for (int i = 0; i < kSlots; ++i) if (s[i]) { s[i].reset(); T().ev("reset", i + 1, slots(), counts(), vals()); }
                    r = keep;
                    vseq = 0;
                    setup();
                    sched::run(bodies(prog), [&dfs](int k, int cur) { return dfs(k, cur); });
                    T().ev("quiet", counts());
                    if (!seen.insert(T().since(mk)).second) { /* keep the state, drop nothing: the slots changed */ }
                } while (++n < 60 && (int)T().count() < events && dfs.next());
            }
        }
        g_log_dtor = false;
        for (int i = 0; i < kSlots; ++i) { s[i].reset(); T().ev("reset", i + 1, slots(), counts(), vals()); }
        T().ev("fin", g_live);
    }
};

template<class D>
void go(const char* name, const Args& a, int idx, int slots, std::function<void(D&)> f) {
    if (!a.only.empty() && a.only != name) return;
    for (int t = 0; t < a.traces; ++t) {
        if (a.only_trace >= 0 && t != a.only_trace) continue;
        D d(a.seed * 1000003u + (uint64_t)idx * 7919u + (uint64_t)a.shard * 104729u + (uint64_t)t);
        T().begin("\"cfg\":\"" + std::string(name) + "\",\"seed\":" + std::to_string(a.seed) + ",\"t\":" + std::to_string(t) + ",\"shard\":" +
                  std::to_string(a.shard) + ",\"slots\":" + std::to_string(slots) + ",\"objs\":" + std::to_string(kObjs));
        budget(60);
        f(d);
        budget(0);
        T().end();
    }
}
int main(int argc, char** argv) {
    Args a = parse(argc, argv);
    std::string m = a.profile.size() > 3 ? a.profile.substr(3) : "";
#if !defined(__SANITIZE_THREAD__)
    if (m.empty()) {
        using U = IntrDriver<gtl::thread_unsafe_counter>;
        using S = IntrDriver<gtl::thread_safe_counter>;
        go<U>("intrusive_plain", a, 401, U::kSlots, [&](U& d) { d.run_seq(a.events); });
        go<S>("intrusive_atomic", a, 402, S::kSlots, [&](S& d) { d.run_seq(a.events); });
    }
    if (m == "mt") go<IntrMt>("intrusive_mt", a, 403, IntrMt::kSlots, [&](IntrMt& d) { d.run(a.events, 0); });
    if (m == "dfs") go<IntrMt>("intrusive_dfs", a, 404, IntrMt::kSlots, [&](IntrMt& d) { d.run(a.events, 1); });
#endif
    if (m == "free") go<IntrMt>("intrusive_free", a, 405, IntrMt::kSlots, [&](IntrMt& d) { d.run(a.events, 2); });
}
