// Driver for lru_cache and the memoize family, single-threaded and under the deterministic scheduler.
// Specification: spec/CacheTrace.tla.
#pragma once
#include "elements.hpp"
#include "sched.hpp"
#include <gtl/lru_cache.hpp>
#include <gtl/memoize.hpp>
#include <list>
#include <map>
#include <mutex>
#include <shared_mutex>
#include <unordered_set>

// The linked-list primitives of libstdc++ live in the shared library, out of sight of the scheduler and of the race detector:
// these replacements (linked with --wrap) do the same in steps between which other threads may run.
extern "C" {
using LNode = std::__detail::_List_node_base;
void __wrap__ZNSt8__detail15_List_node_base7_M_hookEPS0_(LNode* self, LNode* pos) {
    self->_M_next = pos;
    self->_M_prev = pos->_M_prev;
    vt::sched::point();
    pos->_M_prev->_M_next = self;
    pos->_M_prev = self;
}
void __wrap__ZNSt8__detail15_List_node_base9_M_unhookEv(LNode* self) {
    LNode *n = self->_M_next, *p = self->_M_prev;
    vt::sched::point();
    p->_M_next = n;
    n->_M_prev = p;
}
void __wrap__ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_(LNode* self, LNode* first, LNode* last) {
    if (self == last) return;
    LNode *lp = last->_M_prev, *fp = first->_M_prev, *sp = self->_M_prev;
    vt::sched::point();
    lp->_M_next = self;
    fp->_M_next = last;
    sp->_M_next = first;
    vt::sched::point();
    self->_M_prev = lp;
    last->_M_prev = fp;
    first->_M_prev = sp;
}
}

namespace vt {

inline int me() { return sched::id() < 0 ? 1 : sched::id() + 1; }

// ------------------------------------------------------------------ argument tuples <-> key ids
// a key id is a small integer, args_of turns it into the argument list
template<class Tup> struct Arg;
template<class A> struct Arg<std::tuple<A>> { static std::tuple<A> mk(int k) { return { Codec<A>::mk(k) }; } static int rd(const std::tuple<A>& t) { return Codec<A>::rd(std::get<0>(t)); } };
template<class A, class B> struct Arg<std::tuple<A, B>> {
    static std::tuple<A, B> mk(int k) { return { Codec<A>::mk(k / 3), Codec<B>::mk(k % 3) }; }
    static int rd(const std::tuple<A, B>& t) { return Codec<A>::rd(std::get<0>(t)) * 3 + Codec<B>::rd(std::get<1>(t)); }
};
template<class A, class B, class C> struct Arg<std::tuple<A, B, C>> {
    static std::tuple<A, B, C> mk(int k) { return { Codec<A>::mk(k / 6), Codec<B>::mk(k / 2 % 3), Codec<C>::mk(k % 2) }; }
    static int rd(const std::tuple<A, B, C>& t) { return Codec<A>::rd(std::get<0>(t)) * 6 + Codec<B>::rd(std::get<1>(t)) * 2 + Codec<C>::rd(std::get<2>(t)); }
};

// ------------------------------------------------------------------ the memoized function
struct Thrown { };
struct FnCtx {
    std::vector<int> keys;                 // key index -> key id
    std::map<int, int> index;              // key id -> key index
    std::vector<int> value;                // key index -> value of the function
    std::vector<std::vector<int>> deps;    // key index -> keys its computation asks for
    unsigned fail = 0;                     // bit i: computing key index i throws
    std::function<int(int)> memo;          // the memoized version
    int points = 0;
};
inline FnCtx g_fn;
inline int compute(int id) {
    auto it = g_fn.index.find(id);
    if (it == g_fn.index.end()) bad("function_called_with_foreign_arguments");
    int k = it->second, t = me();
    T().ev("fin", t, k);
    for (int i = 0; i < g_fn.points; ++i) sched::point();
    int v = 7 + k;
    try {
        for (int d : g_fn.deps[k]) v = (v * 3 + g_fn.memo(d)) % 1009;
        if (g_fn.fail >> k & 1) throw Thrown();
    } catch (...) {
        T().ev("fout", t, k, 0, 1);
        throw;
    }
    T().ev("fout", t, k, v, 0);
    return v;
}
template<class R, class... A>
struct Fn { R operator()(A... a) const { return Codec<R>::mk(compute(Arg<std::tuple<A...>>::rd(std::tuple<A...>(a...)))); } };
inline int plain_fn(int x) { return compute(x); }

// ------------------------------------------------------------------ adapters
template<class C>
struct LruAd {
    static constexpr const char* kind = "lru";
    static constexpr bool lru = true, bounded = true;
    using X = C;
    using key_type = typename C::key_type;
    using KC = Codec<key_type>;
    using VC = Codec<typename C::result_type>;
    using probe_t = typename C::map_type;
    static auto probe_key(int id) { return KC::mk(id); }
    static int probe_rd(const key_type& k) { return KC::rd(k); }
    C c;
    LruAd(int total) : c(total) {}
    std::vector<int> get(int id) { auto r = c.get(KC::mk(id)); if (!r) return { 0 }; return { 1, VC::rd(*r) }; }
    std::vector<int> has(int id) { return { c.exists(KC::mk(id)) }; }
    void ins(int id, int v, int var) {
        const key_type k = KC::mk(id);
        if (var & 1) { const auto x = VC::mk(v); c.insert(k, x); } else c.insert(k, VC::mk(v));
    }
};
template<class C, bool Once, bool Bounded>
struct MemoAd {
    static constexpr const char* kind = Bounded ? "mlru" : Once ? "once" : "memo";
    static constexpr bool lru = false, bounded = Bounded;
    using X = C;
    using key_type = typename C::key_type;
    using VC = Codec<typename C::result_type>;
    using probe_t = typename C::map_type;
    static auto probe_key(int id) { return Arg<key_type>::mk(id); }
    static int probe_rd(const key_type& k) { return Arg<key_type>::rd(k); }
    C c;
    template<class F> MemoAd(F&& f, int total) requires(Bounded) : c(std::forward<F>(f), total) {}
    template<class F> MemoAd(F&& f, int) requires(!Bounded) : c(std::forward<F>(f)) {}
    int call(int id) { return std::apply([&](auto... a) { return VC::rd(c(a...)); }, Arg<key_type>::mk(id)); }
    std::vector<int> look(int id) { return std::apply([&](auto... a) -> std::vector<int> { auto r = c.contains(a...); if (!r) return { 0 }; return { 1, VC::rd(*r) }; }, Arg<key_type>::mk(id)); }
};

struct CCall { int op, k, v, var; };     // op: 0 get/call 1 has/look 2 ins/call 3 clr

template<class Ad>
class CacheDriver {
public:
    Rng r;
    int K, S, per;                       // per: bound of each shard
    bool rec;
    Ad* a = nullptr;
    std::vector<int> sh;
    std::function<Ad*(int)> make;
    int vseq = 0;

    CacheDriver(uint64_t seed, std::function<Ad*(int)> mk, bool recursive) : r(seed), rec(recursive), make(std::move(mk)) {
        S = (int)Ad::probe_t::subcnt();
        // keys out of a pool, many of them in the same shard
        std::map<int, std::vector<int>> pool;
        {
            typename Ad::probe_t p;
            int n = S > 8 ? 400 : 60;
            for (int id = 0; id < n; ++id) p.emplace(Ad::probe_key(id), typename Ad::probe_t::mapped_type());
            for (int i = 0; i < S; ++i) p.with_submap(i, [&](const auto& m) { for (auto& e : m) pool[i].push_back(Ad::probe_rd(e.first)); });
        }
        K = r.range(4, 12);
        g_fn = FnCtx();
        std::vector<int> shards;
        for (auto& [i, v] : pool) if (!v.empty()) shards.push_back(i);
        int main1 = shards[r.below((int)shards.size())], main2 = shards[r.below((int)shards.size())], main3 = shards[r.below((int)shards.size())];
        int dry = 0;
        while ((int)g_fn.keys.size() < K) {
            int s = r.chance(65) ? main1 : r.chance(60) ? main2 : main3;
            auto& v = pool[s];
            if (v.empty()) { if (++dry > 200) { K = (int)g_fn.keys.size(); break; } continue; }
            int i = r.below((int)v.size());
            g_fn.index[v[i]] = (int)g_fn.keys.size();
            g_fn.keys.push_back(v[i]);
            sh.push_back(s);
            v.erase(v.begin() + i);
        }
        g_fn.deps.resize(K);
        g_fn.value.resize(K);
        for (int k = 0; k < K; ++k) {
            if (rec) for (int i = 0, n = r.below(3); i < n && k > 0; ++i) g_fn.deps[k].push_back(r.below(k));
        }
    }
    ~CacheDriver() { delete a; g_fn = FnCtx(); }
    L shl() { L l; for (int x : sh) l.add(x + 1); return l; }
    void fresh() {
        delete a;
        a = nullptr;
        per = r.range(3, 6);
        a = make(per * S + r.below(S));
        if constexpr (!Ad::lru) g_fn.memo = [this](int k) { return do_call(k); };
        T().ev("new", per);
    }
    int do_call(int k) {                                   // may throw Thrown
        int t = me();
        T().ev("call", t, "call", k, 0);
        try {
            if constexpr (!Ad::lru) {
                int v = a->call(g_fn.keys[k]);
                T().ev("ret", t, std::vector<int> { v });
                return v;
            }
        } catch (const Thrown&) { T().ev("ret", t, std::vector<int> { -9 }); throw; }
        return 0;
    }
    void doit(const CCall& x) {
        int t = me();
        if constexpr (Ad::lru) {
            int id = g_fn.keys[x.k];
            std::vector<int> res;
            T().ev("call", t, x.op == 0 ? "get" : x.op == 1 ? "has" : x.op == 2 ? "ins" : "clr", x.op == 3 ? -1 : x.k, x.op == 2 ? x.v : 0);
            switch (x.op) {
            case 0: res = a->get(id); break;
            case 1: res = a->has(id); break;
            case 2: a->ins(id, x.v, x.var); break;
            case 3: a->c.clear(); break;
            }
            T().ev("ret", t, res);
        } else if (x.op == 0 || x.op == 2) {
            try { do_call(x.k); } catch (const Thrown&) {}
        } else if (x.op == 1) {
            T().ev("call", t, "look", x.k, 0);
            auto res = a->look(g_fn.keys[x.k]);
            T().ev("ret", t, res);
        } else {
            T().ev("call", t, "clr", -1, 0);
            a->c.clear();
            T().ev("ret", t, std::vector<int> {});
        }
        sched::point();
    }
    void quiet(int held) {
        std::vector<int> pr;
        for (int k = 0; k < K; ++k) {
            bool h;
            if constexpr (Ad::lru) h = a->has(g_fn.keys[k])[0]; else h = a->look(g_fn.keys[k])[0];
            if (h) pr.push_back(k);
        }
        T().ev("quiet", pr, a->c.size(), held);
    }
    CCall gen() {
        CCall x;
        x.op = r.pick({ 35, 12, 45, 2 });
        x.k = r.below(K);
        x.v = 1 + (++vseq % 900);
        x.var = r.below(4);
        return x;
    }
    void between() {                                       // single-threaded configuration calls
        if (Ad::bounded && r.chance(8)) {
            if constexpr (Ad::bounded) { per = r.range(Ad::lru ? 1 : 2, 7); a->c.set_cache_size(per * S + r.below(S)); T().ev("lim", per); }
        }
        if (r.chance(5)) a->c.reserve(r.below(60));
        between_fn();
    }
    void between_fn() {
        g_fn.fail = 0;
        if (r.chance(35)) for (int k = 0; k < K; ++k) if (r.chance(30)) g_fn.fail |= 1u << k;
        g_fn.points = r.below(3);
    }
    void run_seq(int events) {
        while ((int)T().count() < events) {
            if (T().count() == 0 || r.chance(1)) fresh();
            between();
            for (int i = r.range(1, 8); i > 0; --i) doit(gen());
            quiet(0);
        }
    }
    template<class Ch>
    void round(std::vector<std::vector<CCall>>& prog, Ch& ch) {
        std::vector<std::function<void()>> fs;
        for (auto& p : prog) fs.push_back([this, &p] { for (auto& x : p) doit(x); });
        int held = sched::run(fs, [&ch](int k, int cur) { return ch(k, cur); });
        quiet(held);
    }
    void run_mt(int events) {
        int pct = r.range(5, 60);
        sched::RandomChooser ch { Rng(r.next()), pct };
        while ((int)T().count() < events) {
            if (T().count() == 0 || r.chance(10)) fresh();
            between();
            std::vector<std::vector<CCall>> prog(r.chance(60) ? 2 : 3);
            int k = r.below(K), n2 = r.range(1, 3);
            bool same = r.chance(60);
            for (auto& p : prog) for (int i = r.range(1, n2); i > 0; --i) { p.push_back(gen()); if (same) p.back().k = k; }
            round(prog, ch);
        }
    }
    // real parallelism, in a build that reports data races
    void run_free(int events) {
        while ((int)T().count() < events) {
            if (T().count() == 0 || r.chance(10)) fresh();
            between();
            std::vector<std::vector<CCall>> prog(r.chance(50) ? 2 : 3);
            for (auto& p : prog) for (int i = r.range(2, 4); i > 0; --i) p.push_back(gen());
            std::vector<std::function<void()>> fs;
            for (auto& p : prog) fs.push_back([this, &p] { for (auto& x : p) doit(x); });
            sched::run_free(fs);
            quiet(0);
        }
    }
    void run_dfs(int events) {
        int guard = 0;
        while ((int)T().count() < events && ++guard < 100) {
            std::vector<CCall> pre;
            for (int i = r.below(7); i > 0; --i) pre.push_back(gen());
            std::vector<std::vector<CCall>> prog(2);
            int k = r.below(K);
            bool same = r.chance(75);
            for (auto& p : prog) for (int i = r.chance(70) ? 1 : 2; i > 0; --i) { p.push_back(gen()); if (same) p.back().k = k; }
            between_fn();
            if (g_fn.points == 0) g_fn.points = 1;
            sched::Dfs dfs;
            dfs.bound = 3;
            std::unordered_set<std::string> seen;
            int n = 0;
            do {
                auto mk = T().mark();
                dfs.start();
                Rng keep = r;
                fresh();
                for (auto& x : pre) doit(x);
                round(prog, dfs);
                r = keep;
                if (!seen.insert(T().since(mk)).second) T().rollback(mk);
            } while (++n < 400 && (int)T().count() < 4 * events && dfs.next());
        }
    }
};

template<class Ad, class Mk>
void run_cache(const char* name, const Args& a, int cfg_index, bool threads, bool recursive, Mk mk) {
    if (!a.only.empty() && a.only != name) return;
    std::string mode = a.profile.size() > 3 ? a.profile.substr(3) : "";
    if (!mode.empty() && !threads) return;
#if defined(__SANITIZE_THREAD__)
    if (mode != "free") return;
#endif
    g_obj_hook = +[] { sched::point(); };
    for (int t = 0; t < a.traces; ++t) {
        if (a.only_trace >= 0 && t != a.only_trace) continue;
        uint64_t seed = a.seed * 1000003u + (uint64_t)cfg_index * 7919u + (uint64_t)a.shard * 104729u + (uint64_t)t;
        Rng r(seed);
        g_hmode = r.chance(50) ? 0 : r.below(kHModes);
        CacheDriver<Ad> d(seed, std::function<Ad*(int)>(mk), recursive);
        T().begin("\"cfg\":\"" + std::string(name) + "\",\"seed\":" + std::to_string(a.seed) + ",\"t\":" + std::to_string(t) + ",\"shard\":" +
                  std::to_string(a.shard) + ",\"kind\":\"" + Ad::kind + "\",\"S\":" + std::to_string(d.S) + ",\"sh\":" + d.shl().s + "]");
        budget(60);
        if (mode == "dfs") d.run_dfs(a.events); else if (mode == "free") d.run_free(a.events); else if (mode == "mt") d.run_mt(a.events); else d.run_seq(a.events);
        budget(0);
        T().end();
    }
}
} // namespace vt
