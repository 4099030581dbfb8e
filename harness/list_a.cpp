// list helpers (vec_utils.hpp; specification spec/ListsTrace.tla) and stopwatches (stopwatch.hpp; spec/StopwatchTrace.tla)
#include <gtl/vec_utils.hpp>
#include <gtl/vector.hpp>
#include <string>
#include <gtl/stopwatch.hpp>
#include "elements.hpp"
#include <cmath>
#include <functional>
#include <memory>
#include <optional>
#include <sstream>
using namespace vt;

// ------------------------------------------------------------------ lists
template<class E> struct Val : Codec<E> {};
template<> struct Val<std::string> {                    // any integer
    static std::string mk(int k) { return (k % 3 ? "" : "a string which is longer than the small buffer ") + std::to_string(k); }
    static int rd(const std::string& s) { size_t i = s.rfind(' '); return atoi(s.c_str() + (i == std::string::npos ? 0 : i + 1)); }
};
template<> struct Val<Obj> { static Obj mk(int k) { return Obj(k); } static int rd(const Obj& o) { o.chk(); return o.v; } };
template<> struct Val<int> { static int mk(int k) { return k; } static int rd(int k) { return k; } };

template<template<class, class> class V, class E>
struct Lists {
    using Vec = V<E, std::allocator<E>>;
    using VI = V<int, std::allocator<int>>;
    Rng r;
    int limit;
    Vec v[4];
    Lists(uint64_t seed, int ev) : r(seed), limit(ev) {}
    static L rd(const Vec& x) { L l; for (const auto& e : x) l.add(Val<E>::rd(e)); return l; }
    L all() { L l; for (auto& x : v) l.add(rd(x)); return l; }
    int idx(int n) { int p = r.below(n + 1); return r.chance(50) ? p : p - n - 1; }       // both ways to name a position
    Vec made(int n) { Vec x; for (int i = 0; i < n; ++i) x.push_back(Val<E>::mk(r.below(200))); return x; }
    L cat(int a, int b, int c) {
        switch (r.below(4)) {
        case 0: return rd(gtl::cat(v[a], v[b], v[c]));
        case 1: { const Vec& ca = v[a]; return rd(gtl::cat(ca, Vec(v[b]), v[c])); }
        case 2: return rd(gtl::cat(Vec(v[a]), Vec(v[b]), Vec(v[c])));
        default: return rd(gtl::cat(gtl::cat(v[a], v[b]), v[c]));
        }
    }
    void run() {
        int most = r.chance(40) ? 150 : r.chance(50) ? 40 : 9;     // longest vector of this run
        for (int i = 0; i < 4; ++i) { v[i] = made(r.below(most)); T().ev("put", i + 1, rd(v[i])); }
        while ((int)T().count() < limit) {
            int a = r.below(4), b = r.below(4), c = r.below(4);
            switch (r.pick({ 3, 9, 4, 4, 3, 1 })) {
            case 0: v[a] = made(r.chance(60) ? r.below(most + 1) : r.below(9)); T().ev("put", a + 1, rd(v[a])); break;
            case 1: {
                int n = (int)v[a].size(), f = idx(n), t = idx(n), s = r.chance(40) ? 1 : r.range(1, 5);
                L res;
                const Vec& cv = v[a];
                switch (r.below(3)) {
                case 0: res = rd(gtl::slice(v[a], f, t, s)); break;
                case 1: res = rd(gtl::slice(cv, f, t, s)); break;
                default: res = rd(gtl::slice(Vec(v[a]), f, t, s)); break;
                }
                if (r.chance(10)) { f = 0; t = -1; s = 1; res = rd(gtl::slice(v[a])); }
                else if (r.chance(10)) { t = -1; s = 1; res = rd(gtl::slice(v[a], f)); }
                T().ev("sli", a + 1, f, t, s, res);
                break;
            }
            case 2:
                switch (r.below(3)) {
                case 0: T().ev("cat", L().add(a + 1), rd(gtl::cat(v[a]))); break;
                case 1: T().ev("cat", L().add(a + 1).add(b + 1), rd(gtl::cat(v[a], v[b]))); break;
                default: T().ev("cat", L().add(a + 1).add(b + 1).add(c + 1), cat(a, b, c)); break;
                }
                break;
            case 3: {
                int kind = r.below(2), x = r.range(1, 7), y = r.below(20);
                L in, out;
                auto f = [&](const E& e) { int k = Val<E>::rd(e); in.add(k); return kind ? k % x : x * k + y; };
                switch (r.below(3)) {
                case 0: { VI res = gtl::map(f, v[a]); for (int k : res) out.add(k); break; }
                case 1: { auto res = gtl::map([&](const E& e) { return Val<std::string>::mk(f(e)); }, v[a]); for (auto& k : res) out.add(Val<std::string>::rd(k)); break; }
                default: { const auto& cv = v[a]; const std::function<int(const E&)> g = f; auto res = gtl::map(g, cv); for (int k : res) out.add(k); break; }
                }
                T().ev("map", a + 1, kind, x, y, in, out);
                break;
            }
            case 4: {
                int f = r.below((int)v[a].size() + 1), t = r.below((int)v[b].size() + 1);
                auto res = gtl::cat(gtl::slice(v[a], 0, f), gtl::slice(v[b], t, -1));
                if (res.size() > 200) break;
                v[a] = res;
                T().ev("csl", a + 1, b + 1, f, t, rd(v[a]));
                break;
            }
            case 5: T().ev("see", all()); break;
            }
        }
        T().ev("see", all());
    }
};
template<template<class, class> class V, class E>
void lists(const Args& a, const char* name) {
    for (int t = 0; t < a.traces; ++t) {
        if (!a.only.empty() && a.only != name) break;
        if (a.only_trace >= 0 && t != a.only_trace) continue;
        T().begin(std::string("\"cfg\":\"") + name + "\",\"seed\":" + std::to_string(a.seed) + ",\"t\":" + std::to_string(t) + ",\"shard\":" + std::to_string(a.shard));
        budget(60);
        long live = g_acct.live;
        { Lists<V, E> d(a.seed * 1000003u + (uint64_t)a.shard * 104729u + (uint64_t)t * 7 + strlen(name), a.events); d.run(); }
        T().ev("fin", g_acct.live - live);
        budget(0);
        T().end();
    }
}

// ------------------------------------------------------------------ stopwatches
// the clocks of the program read g_now: one tick is 1/64 s
static long long g_now = 1;
static constexpr long long kTick = 15625000;
namespace std::chrono {
system_clock::time_point system_clock::now() noexcept { return system_clock::time_point(nanoseconds(g_now * kTick)); }
steady_clock::time_point steady_clock::now() noexcept { return steady_clock::time_point(nanoseconds(g_now * kTick)); }
}
struct Watches {
    Rng r;
    int limit, depth = 0;
    using S = std::ratio<1>;
    std::optional<gtl::stopwatch<std::milli>> w0;
    std::optional<gtl::stopwatch<std::micro>> w1;
    std::optional<gtl::stopwatch<S>> w2;
    bool on[3] = {};
    Watches(uint64_t seed, int ev) : r(seed), limit(ev) {}
    template<class F> void with(int i, F f) { if (i == 0) f(w0); else if (i == 1) f(w1); else f(w2); }
    static long long ticks(double v, double per_tick) { return std::llround(v / per_tick); }
    double unit(int i) { return i == 0 ? 15.625 : i == 1 ? 15625 : 1 / 64.; }
    void tick() { int d = r.chance(20) ? 0 : r.chance(70) ? r.range(1, 9) : r.range(10, 400); g_now += d; T().ev("tick", d); }
    void construct(int i) {
        bool go = r.chance(70);
        with(i, [&](auto& w) { w.reset(); if (go && r.chance(50)) w.emplace(); else w.emplace(go); });
        on[i] = go;
        T().ev("new", i + 1, go);
    }
    void basic() {
        std::ostringstream os;
        auto* old = std::cout.rdbuf(os.rdbuf());
        std::string msg = r.chance(70) ? "elapsed: " : "";
        {
            gtl::basic_stopwatch b(msg);
            T().ev("go", 4);
            int n = r.below(5);
            for (int k = 0; k < n; ++k) {
                tick();
                if (r.chance(30)) { b.start(); T().ev("go", 4); }
                if (r.chance(50)) T().ev("us", 4, ticks(b.get_time_us(), 15625));
            }
        }
        std::cout.rdbuf(old);
        std::string s = os.str();
        bool said = s.rfind("elapsed: ", 0) == 0 && s.size() > 10 && s.substr(s.size() - 2) == "s\n";
        if (!said && !s.empty()) said = msg.empty();
        T().ev("say", 4, (int)said, (int)!msg.empty(), said ? ticks(atof(s.c_str() + 9), 1 / 64.) : 0);
    }
    void step() {
        int i = r.below(3);
        switch (r.pick({ 8, 1, 3, 5, 8, 3, 1 })) {
        case 0: tick(); break;
        case 1: construct(i); break;
        case 2: with(i, [&](auto& w) { w->start(); }); on[i] = true; T().ev("go", i + 1); break;
        case 3: if (on[i]) { with(i, [&](auto& w) { w->snap(); }); T().ev("snap", i + 1); } break;
        case 4: if (on[i]) with(i, [&](auto& w) { T().ev("read", i + 1, ticks(w->since_start(), unit(i)), ticks(w->since_snap(), unit(i)), ticks(w->start_to_snap(), unit(i))); }); break;
        case 5: if (depth < 3) scope(i); break;
        case 6: basic(); break;
        }
    }
    struct End { int i; ~End() { T().ev("snap", i + 1); } };
    void scope(int i) {
        with(i, [&](auto& w) {
            End e { i };
            gtl::start_snap s(*w);
            T().ev("go", i + 1);
            on[i] = true;
            ++depth;
            int n = r.below(8);
            for (int k = 0; k < n; ++k) {
                if (r.chance(20)) with(i, [&](auto& x) { T().ev("read", i + 1, ticks(x->since_start(), unit(i)), ticks(x->since_snap(), unit(i)), ticks(x->start_to_snap(), unit(i))); });
                int j = r.below(5); if (j < 2) tick(); else step_safe();
            }
            --depth;
        });
    }
    void step_safe() { int j = r.below(3); if (j == 0 && depth < 3) scope(r.below(3)); else if (j == 1) { int i = r.below(3); if (on[i]) { with(i, [&](auto& w) { w->snap(); }); T().ev("snap", i + 1); } } else tick(); }
    void run() {
        T().ev("tick", g_now);
        for (int i = 0; i < 3; ++i) construct(i);
        while ((int)T().count() < limit) step();
    }
};

int main(int argc, char** argv) {
    Args a = parse(argc, argv);
    if (a.profile == "p23") {
        lists<std::vector, int>(a, "std_vector_int");
        lists<std::vector, std::string>(a, "std_vector_str");
        lists<std::vector, Obj>(a, "std_vector_obj");
        lists<gtl::vector, int>(a, "gtl_vector_int");
        lists<gtl::vector, std::string>(a, "gtl_vector_str");
        lists<gtl::vector, Obj>(a, "gtl_vector_obj");
    } else {
        for (int t = 0; t < a.traces; ++t) {
            if (!a.only.empty() && a.only != "stopwatch") break;
            if (a.only_trace >= 0 && t != a.only_trace) continue;
            T().begin("\"cfg\":\"stopwatch\",\"seed\":" + std::to_string(a.seed) + ",\"t\":" + std::to_string(t) + ",\"shard\":" + std::to_string(a.shard));
            budget(60);
            g_now = 1;
            { Watches w(a.seed * 1000003u + (uint64_t)a.shard * 104729u + (uint64_t)t, a.events); w.run(); }
            budget(0);
            T().end();
        }
    }
}
