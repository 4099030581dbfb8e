// Concurrent driver for the parallel hash containers, under the deterministic scheduler.
// Specification: spec/LinTrace.tla.
#pragma once
#include <execution>
#include "elements.hpp"
#include "sched.hpp"
#include <gtl/phmap.hpp>
#include <mutex>
#include <shared_mutex>
#include <unordered_set>

namespace vt {

template<class C> concept PMapped = requires { typename C::mapped_type; };

template<class C> struct IsNode : std::false_type {};
template<class K, class V, class H, class E, class A, size_t N, class M, class X>
struct IsNode<gtl::parallel_node_hash_map<K, V, H, E, A, N, M, X>> : std::true_type {};

enum Op { INS, ASG, IDX, HAS, GET, MOD, ERA, EIF, TEL, LEL, TOG, CLR, CLS, EACH, EACHM, SUB, SUBM, RSV, BKT, SWP, MRG, EQ, PUT, NOPS };
inline const char* kOpName[] = { "ins", "asg", "idx", "has", "get", "mod", "era", "eif", "tel", "lel", "tog", "clr", "cls", "each", "eachm", "sub", "subm", "rsv", "bkt", "swp", "mrg", "eq", "put" };
struct Call { Op op; int c, k, v, d, thr, var; };      // d: increment, submap, divisor or second container

struct PProfile { const char* name; int w[NOPS]; int thr; };
inline const PProfile kPProfiles[] = {
    //         ins asg idx has get mod era eif tel lel tog clr cls each eachm sub subm rsv bkt swp mrg eq
    { "p08", { 16, 8,  3,  6,  6,  8,  12, 8,  8,  8,  4,  1,  1,  1,   1,    1,  1,   2,  1,  0,  0,  0,  3 }, 0 },
    { "p09", { 5,  3,  1,  2,  8,  8,  5,  8,  8,  8,  3,  1,  2,  4,   4,    4,  4,   2,  1,  4,  4,  3,  1 }, 25 },
};

template<class C, int NS, bool Lockable2 = true>
class ParDriver {
public:
    static constexpr bool is_map = PMapped<C>;
    using key_t = typename C::key_type;
    using val_t = typename C::value_type;
    template<class X> struct mapped_of { using type = int; };
    template<PMapped X> struct mapped_of<X> { using type = typename X::mapped_type; };
    using map_t = typename mapped_of<C>::type;
    using KC = Codec<key_t>;
    using MC = Codec<map_t>;
    static constexpr bool is_node = IsNode<C>::value;
    Rng r;
    int K;
    const PProfile& P;
    C* c[2];
    std::vector<int> sub;
    int vseq = 0;
    bool racing = false;

    template<class E> static int rk(const E& e) { if constexpr (is_map) return KC::rd(e.first); else return KC::rd(e); }
    template<class E> static int rv(const E& e) { if constexpr (is_map) return MC::rd(e.second); else return 0; }
    static auto mkE(int k, int v) { if constexpr (is_map) return std::pair<key_t, map_t>(KC::mk(k), MC::mk(v)); else return KC::mk(k); }
    template<class E> static void addv(E& e, int d) { if constexpr (is_map) e.second = MC::mk(MC::rd(e.second) + d); }

    ParDriver(uint64_t seed, int K_, const PProfile& p) : r(seed), K(K_), P(p) {
        c[0] = new C(); c[1] = new C();
        sub.assign(K, 0);
        C probe;
        for (int k = 0; k < K; ++k) {
            probe.insert(mkE(k, 0));
            for (int i = 0; i < NS; ++i) const_cast<const C&>(probe).with_submap(i, [&](const auto& s) { for (auto& e : s) if (rk(e) == k) sub[k] = i; });
        }
    }
    ~ParDriver() { delete c[0]; delete c[1]; }
    L subs() { L l; for (int k : sub) l.add(k + 1); return l; }

    std::vector<int> dump(const C& m) {                   // contents, read while no thread runs
        std::vector<int> a(K, -1);
        size_t n = 0;
        for (auto it = m.begin(); it != m.end(); ++it) { int k = rk(*it); ++n; if (k < 0 || k >= K || a[k] != -1) a[0] = -5; else a[k] = rv(*it); }
        if (n != m.size()) a[0] = -6;
        for (int k = 0; k < K; ++k) if (m.contains(KC::mk(k)) != (a[k] != -1)) a[k] = -7;
        return a;
    }
    void fresh(const std::vector<int>& a, const std::vector<int>& b) {
        delete c[0]; delete c[1];
        c[0] = new C(); c[1] = new C();
        for (int k = 0; k < K; ++k) { if (a[k] >= 0) c[0]->insert(mkE(k, a[k])); if (b[k] >= 0) c[1]->insert(mkE(k, b[k])); }
        T().ev("new", a, b);
    }
    std::vector<int> random_contents() { std::vector<int> a(K, -1); int p = r.below(101); for (int& x : a) if (r.chance(p)) x = is_map ? 1 + r.below(90) : 0; return a; }

    struct Thrown {};
    struct Cb {                                            // brackets a callback in the trace
        int t;
        Cb(int cont, int sb, int mode, int n = 2) : t(sched::id() + 1) {
            T().ev("cbin", t, cont + 1, sb + 1, mode);
            for (int i = 0; i < n; ++i) sched::point();
        }
        ~Cb() { T().ev("cbout", t); }
    };

    Call gen() {
        std::vector<int> w(P.w, P.w + NOPS);
        Call x {};
        x.op = (Op)r.pick(w);
        if (!is_map && (x.op == ASG || x.op == IDX || x.op == TEL)) x.op = INS;
        if (x.op == IDX && (is_node || racing)) x.op = ASG;      // operator[] gives out a reference that no lock protects
        x.c = P.w[SWP] ? r.below(2) : 0;
        x.k = r.below(K);
        x.v = is_map ? 1 + (++vseq % 90) : 0;
        x.var = r.below(x.op == INS ? 12 : 8);
        x.thr = r.chance(P.thr) ? 1 : 0;
        switch (x.op) {
        case MOD: case TEL: case LEL: case EACHM: x.d = is_map ? 100 * r.range(1, 3) : 0; break;
        case EIF: x.d = is_map ? r.below(2) : 0; break;
        case CLS: case SUB: x.d = r.below(NS); break;
        case SUBM: x.d = r.below(NS); x.v = r.range(1, 2); break;
        case SWP: case MRG: case EQ: x.d = 1 - x.c; break;
        default: break;
        }
        return x;
    }

    // performs one call and returns its results
    std::vector<int> perform(const Call& x) {
        C& m = *c[x.c];
        const C& cm = m;
        const key_t kk = KC::mk(x.k);
        int seen = -1;
        int sb = sub[x.k];
        auto see = [&](const auto& e) { seen = rk(e) == x.k ? rv(e) : -8; };
        switch (x.op) {
        case INS: {
            bool fl = false;
            switch (x.var) {
            case 0: fl = m.insert(mkE(x.k, x.v)).second; break;
            case 1: { const auto e = mkE(x.k, x.v); fl = m.insert(e).second; break; }
            case 2: if constexpr (is_map) fl = m.emplace(KC::mk(x.k), MC::mk(x.v)).second; else fl = m.emplace(KC::mk(x.k)).second; break;
            case 3: if constexpr (is_map) fl = m.try_emplace(kk, MC::mk(x.v)).second; else fl = m.emplace(kk).second; break;
            case 4: if constexpr (is_map) fl = m.emplace(std::piecewise_construct, std::forward_as_tuple(KC::mk(x.k)), std::forward_as_tuple(MC::mk(x.v))).second; else fl = m.insert(kk).second; break;
            case 5: if constexpr (is_map) fl = m.try_emplace_p(KC::mk(x.k), MC::mk(x.v)).second; else fl = m.insert(mkE(x.k, 0)).second; break;
            case 6: { int n = 0; m.lazy_emplace(kk, [&](const typename C::constructor& ctor) { ++n; Cb cb(x.c, sb, 1); if constexpr (is_map) ctor(KC::mk(x.k), MC::mk(x.v)); else ctor(KC::mk(x.k)); }); fl = n == 1; if (n > 1) return { -4 }; break; }
            case 7: { size_t hv = m.hash(kk); if constexpr (is_map) fl = m.try_emplace_with_hash(hv, KC::mk(x.k), MC::mk(x.v)).second; else fl = m.emplace_with_hash(hv, KC::mk(x.k)).second; break; }
            case 8: { C tmp; tmp.insert(mkE(x.k, x.v)); auto n = tmp.extract(kk); auto res = m.insert(std::move(n)); fl = res.inserted; if (fl != res.node.empty()) return { -4 }; break; }
            case 9: if constexpr (ObjCount<key_t>::value > 0 && std::is_constructible_v<key_t, int, int>) {            // arguments from which the key cannot be deduced
                        if constexpr (is_map) fl = m.emplace(std::piecewise_construct, std::forward_as_tuple(x.k, 0), std::forward_as_tuple(MC::mk(x.v))).second;
                        else fl = m.emplace(x.k, 0).second;
                    } else fl = m.insert(mkE(x.k, x.v)).second;
                    break;
            case 10: { size_t hv = m.hash(kk); int n = 0; m.lazy_emplace_with_hash(kk, hv, [&](const typename C::constructor& ctor) { ++n; Cb cb(x.c, sb, 1); if constexpr (is_map) ctor(KC::mk(x.k), MC::mk(x.v)); else ctor(KC::mk(x.k)); }); fl = n == 1; if (n > 1) return { -4 }; break; }
            case 11: { size_t hv = m.hash(kk);
                    if constexpr (ObjCount<key_t>::value > 0 && std::is_constructible_v<key_t, int, int>) {
                        if constexpr (is_map) fl = m.emplace_with_hash(hv, std::piecewise_construct, std::forward_as_tuple(x.k, 0), std::forward_as_tuple(MC::mk(x.v))).second;
                        else fl = m.emplace_with_hash(hv, x.k, 0).second;
                    } else if constexpr (is_map) fl = m.emplace_with_hash(hv, KC::mk(x.k), MC::mk(x.v)).second; else fl = m.emplace_with_hash(hv, KC::mk(x.k)).second;
                    break; }
            }
            return { fl };
        }
        case PUT: {
            switch (x.var & 3) {
            case 0: { std::initializer_list<decltype(mkE(0, 0))> one = { mkE(x.k, x.v) }; m.insert(one); break; }
            case 1: { std::vector<decltype(mkE(0, 0))> one; one.push_back(mkE(x.k, x.v)); m.insert(one.begin(), one.end()); break; }
            case 2: m.insert(m.cend(), mkE(x.k, x.v)); break;
            case 3: if constexpr (is_map) m.emplace_hint(m.cend(), KC::mk(x.k), MC::mk(x.v)); else m.emplace_hint(m.cend(), KC::mk(x.k)); break;
            }
            return {};
        }
        case ASG: if constexpr (is_map) { if (x.var & 1) return { m.insert_or_assign(kk, MC::mk(x.v)).second }; return { m.insert_or_assign(KC::mk(x.k), MC::mk(x.v)).second }; } return {};
        case IDX: if constexpr (is_map) (void)m[kk]; return {};
        case HAS:
            if (x.var < 3) return { cm.contains(kk) };
            if (x.var < 5) return { (int)cm.count(kk) };
            if (x.var < 7) return { cm.find(kk) != cm.end() };
            return { m.find(kk) != m.end() };
        case GET: { bool b = cm.if_contains(kk, [&](const val_t& e) { Cb cb(x.c, sb, 0); see(e); if (x.thr) throw Thrown(); int s1 = seen; sched::point(); see(e); if (s1 != seen) seen = -8; }); return { b, seen }; }
        case MOD: { bool b = m.modify_if(kk, [&](val_t& e) { Cb cb(x.c, sb, 1); see(e); if (x.thr) throw Thrown(); addv(e, x.d); }); return { b, seen }; }
        case ERA: return { (int)m.erase(kk) };
        case EIF: { bool b = m.erase_if(kk, [&](val_t& e) { Cb cb(x.c, sb, 1); see(e); if (x.thr) throw Thrown(); sched::point(); return seen % 2 == x.d; }); return { b, seen }; }
        case TEL: if constexpr (is_map) { bool b = m.try_emplace_l(KC::mk(x.k), [&](val_t& e) { Cb cb(x.c, sb, 1); see(e); if (x.thr) throw Thrown(); addv(e, x.d); }, MC::mk(x.v)); return { b, seen }; } return {};
        case LEL: {
            bool b = m.lazy_emplace_l(kk, [&](val_t& e) { Cb cb(x.c, sb, 1); see(e); if (x.thr) throw Thrown(); addv(e, x.d); },
                [&](const typename C::constructor& ctor) { Cb cb(x.c, sb, 1); if (x.thr) throw Thrown(); if constexpr (is_map) ctor(KC::mk(x.k), MC::mk(x.v)); else ctor(KC::mk(x.k)); });
            return { b, seen };
        }
        case TOG: { int n = 0; m.emplace_single(kk, [&](const typename C::constructor& ctor) { ++n; Cb cb(x.c, sb, 1); if constexpr (is_map) ctor(KC::mk(x.k), MC::mk(x.v)); else ctor(KC::mk(x.k)); }); return { n }; }
        case CLR: m.clear(); return {};
        case CLS: m.clear((size_t)x.d); return {};
        case EACH: { std::vector<int> a(K, -1); auto f = [&](const val_t& e) { int k = rk(e); Cb cb(x.c, sub[k], 0, 1); if (x.thr) throw Thrown(); a[k] = a[k] == -1 ? rv(e) : -5; }; if (x.thr || x.var < 4) cm.for_each(f); else cm.for_each(std::execution::seq, f); return a; }
        case EACHM: { std::vector<int> a(K, -1); auto f = [&](auto& e) { int k = rk(e); Cb cb(x.c, sub[k], 1, 1); if (x.thr) throw Thrown(); a[k] = a[k] == -1 ? rv(e) : -5; addv(e, x.d); }; if (x.thr || x.var < 4) m.for_each_m(f); else m.for_each_m(std::execution::seq, f); return a; }
        case SUB: { std::vector<int> a(K, -1); cm.with_submap(x.d, [&](const auto& s) { Cb cb(x.c, x.d, 0); for (auto& e : s) { int k = rk(e); a[k] = a[k] == -1 ? rv(e) : -5; } if (x.thr) throw Thrown(); }); return a; }
        case SUBM: { std::vector<int> a(K, -1); m.with_submap_m(x.d, [&](auto& s) { Cb cb(x.c, x.d, 1); if (x.thr) throw Thrown();
                     for (auto it = s.begin(); it != s.end();) { int k = rk(*it); a[k] = a[k] == -1 ? rv(*it) : -5; if (k % x.v == 0) it = s.erase(it); else ++it; } }); return a; }
        case RSV: if (x.var < 3) m.reserve(x.k * 8); else if (x.var < 6) m.rehash(x.k * 8); else cm.prefetch(kk); return {};
        case BKT: if (cm.bucket_count() > 100000) return { -1 }; return {};
        case SWP: if constexpr (Lockable2) { m.swap(*c[x.d]); } return {};
        case MRG: if constexpr (Lockable2) m.merge(*c[x.d]); return {};
        case EQ: if constexpr (requires(val_t& a) { { a == a } -> std::convertible_to<bool>; }) return { cm == *static_cast<const C*>(c[x.d]) }; return {};
        default: return {};
        }
    }
    void doit(const Call& x) {
        int t = sched::id() + 1;
        T().ev("call", t, kOpName[x.op], x.c + 1, x.k, x.v, x.d, x.thr);
        std::vector<int> res;
        try { res = perform(x); } catch (const Thrown&) { res = { -9 }; }
        T().ev("ret", t, res);
        sched::point();
    }
    template<class Ch>
    void round(std::vector<std::vector<Call>>& prog, Ch& ch) {
        std::vector<std::function<void()>> fs;
        for (auto& p : prog) fs.push_back([this, &p] { for (auto& x : p) doit(x); });
        int held = sched::run(fs, [&ch](int k, int cur) { return ch(k, cur); });
        T().ev("quiet", dump(*c[0]), dump(*c[1]), held);
    }

    // calls that visit all submaps may overlap in any order: bounds how many of them can overlap each other
    static bool wide(Op o) { return o == CLR || o == EACH || o == EACHM || o == BKT || (o >= SWP && o <= EQ); }
    void tame(std::vector<std::vector<Call>>& prog) {
        size_t threads = 0, most = prog.size() == 2 || NS == 1 ? 2 : 1;
        for (auto& p : prog) {
            bool w = false;
            for (auto& x : p) w = w || wide(x.op);
            if (!w || threads++ < most) continue;
            for (auto& x : p) if (wide(x.op)) { x.op = x.k & 1 ? GET : ERA; x.d = 0; }
        }
    }

    // two calls on both containers, in opposite directions, and a writer on each
    std::vector<std::vector<Call>> crossing() {
        static const Op both[] = { EQ, EQ, EQ, MRG, SWP };
        std::vector<std::vector<Call>> prog(4);
        int k = r.below(K), eq = r.chance(60);
        for (int i = 0; i < 4; ++i) {
            Call x = gen();
            if (i < 2) { x.op = eq ? EQ : both[r.below(5)]; x.c = i; x.d = 1 - i; }
            else { x.op = r.chance(50) ? ERA : INS; x.var = 0; x.c = i - 2; x.k = k; x.d = 0; }
            x.v = is_map ? 1 + (++vseq % 90) : 0;
            x.thr = 0;
            prog[i].push_back(x);
        }
        return prog;
    }

    // random programs under random schedules
    void run_random(int events) {
        int pct = r.range(5, 60);
        sched::RandomChooser ch { Rng(r.next()), pct };
        while ((int)T().count() < events) {
            if (r.chance(15) || T().count() == 0) fresh(random_contents(), random_contents());
            std::vector<std::vector<Call>> prog(r.chance(60) ? 2 : 3);
            bool same = r.chance(50);
            int k = r.below(K);
            for (auto& p : prog) { int n = r.range(1, 3); for (int i = 0; i < n; ++i) { p.push_back(gen()); if (same && (p.back().op < CLR || p.back().op == PUT)) p.back().k = k; } }
            tame(prog);
            if (P.w[SWP] && r.chance(sched::s().fair ? 25 : 8)) prog = crossing();
            round(prog, ch);
        }
    }
    // real parallelism, in a build that reports data races
    void run_free(int events) {
        racing = true;
        while ((int)T().count() < events) {
            if (r.chance(15) || T().count() == 0) fresh(random_contents(), random_contents());
            std::vector<std::vector<Call>> prog(r.chance(60) ? 2 : 3);
            for (auto& p : prog) { int n = r.range(1, 3); for (int i = 0; i < n; ++i) p.push_back(gen()); }
            tame(prog);
            std::vector<std::function<void()>> fs;
            for (auto& p : prog) fs.push_back([this, &p] { for (auto& x : p) doit(x); });
            sched::run_free(fs);
            T().ev("quiet", dump(*c[0]), dump(*c[1]), 0);
        }
    }
    // crossing programs have too many schedules to enumerate: many random ones
    void run_cross(int events) {
        for (int guard = 0; (int)T().count() < events && guard < 40; ++guard) {
            std::vector<int> a = random_contents(), b = random_contents();
            auto prog = crossing();
            sched::s().fair = r.chance(85);
            std::unordered_set<std::string> had;
            for (int n = 0; n < 300 && (int)T().count() < 2 * events; ++n) {
                auto mk = T().mark();
                sched::RandomChooser ch { Rng(r.next()), 15 + n % 60 };
                fresh(a, b);
                round(prog, ch);
                if ((int)had.size() > 12 || !had.insert(T().since(mk)).second) T().rollback(mk);
            }
        }
    }
    // every schedule of a small program, up to a bound on preemptions; one recording of each distinct history
    void run_dfs(int events, int max_schedules) {
        int guard = 0;
        while ((int)T().count() < events && ++guard < 200) {
            std::vector<int> a = random_contents(), b = random_contents();
            std::vector<std::vector<Call>> prog(r.chance(85) ? 2 : 3);
            int k = r.below(K), same = r.below(4);       // same key, same container most of the time
            for (size_t i = 0; i < prog.size(); ++i) {
                prog[i].push_back(gen());
                if (i == 1 && prog.size() == 2 && r.chance(30)) prog[i].push_back(gen());
            }
            for (auto& p : prog) for (auto& x : p) { if (same && (x.op < CLR || x.op == PUT)) x.k = k; if (same > 1) { x.c = 0; if (x.op >= SWP && x.op <= EQ) x.d = 1; } }
            tame(prog);
            sched::Dfs dfs;
            dfs.bound = prog.size() == 2 ? 3 : 2;
            std::unordered_set<std::string> seen;
            int n = 0;
            do {
                auto mk = T().mark();
                dfs.start();
                fresh(a, b);
                round(prog, dfs);
                if (!seen.insert(T().since(mk)).second) T().rollback(mk);
            } while (++n < max_schedules && (int)T().count() < 4 * events && dfs.next());
        }
    }
};

template<class C, int NS>
void run_par(const char* name, const Args& a, int cfg_index) {
    if (!a.only.empty() && a.only != name) return;
    const PProfile* P = &kPProfiles[0];
    bool dfs = a.profile.size() > 3 && a.profile.substr(3) == "dfs", fre = a.profile.size() > 3 && a.profile.substr(3) == "free";
    for (auto& p : kPProfiles) if (a.profile.substr(0, 3) == p.name) P = &p;
    g_obj_hook = +[] { sched::point(); };
    for (int t = 0; t < a.traces; ++t) {
        if (a.only_trace >= 0 && t != a.only_trace) continue;
        uint64_t seed = a.seed * 1000003u + (uint64_t)cfg_index * 7919u + (uint64_t)a.shard * 104729u + (uint64_t)t;
        Rng r(seed);
        g_hmode = r.chance(50) ? 0 : r.below(kHModes);
        int K = r.range(2, 4);
        sched::s().fair = r.chance(50);
        ParDriver<C, NS> d(seed, K, *P);
        T().begin("\"cfg\":\"" + std::string(name) + "\",\"seed\":" + std::to_string(a.seed) + ",\"t\":" + std::to_string(t) + ",\"shard\":" +
                  std::to_string(a.shard) + ",\"K\":" + std::to_string(K) + ",\"S\":" + std::to_string(NS) + ",\"sub\":" + d.subs().s + "]");
        budget(60);
        if (dfs) d.run_dfs(a.events, 600); else if (a.profile == "p09x") d.run_cross(a.events); else if (fre) d.run_free(a.events); else d.run_random(a.events);
        budget(0);
        T().end();
    }
}
} // namespace vt
