// Driver for gtl hash containers (plain and parallel).  Performs a random history of public calls
// on three containers of one type and records every call with its results.
// Specification: spec/HashTrace.tla.
#pragma once
#include "elements.hpp"
#define _GLIBCXX_USE_TBB_PAR_BACKEND 0
#include <execution>
#include <gtl/phmap.hpp>
#if defined(VT_DUMP)
#include <gtl/phmap_dump.hpp>
#endif
#include <array>
#include <map>
#include <optional>
#include <stdexcept>

namespace vt {

template<class C> concept HasMapped = requires { typename C::mapped_type; };
template<class C> concept HasSubcnt = requires { C::subcnt(); };

inline int g_throw_cb = 0;                    // countdown to a throw of a callback

struct Profile {
    const char* name;
    // weights
    int ins, asg, idx, get, erk, eri, trav, range, eif, it, clr, resv, reh, ctor, cpy, mov, swp, eq, ext, inn, mrg, batch, hold, adr, par, ilist;
};
// clang-format off
//                                ins asg idx get erk eri trv rng eif it clr res reh ctr cpy mov swp eq ext inn mrg bat hld adr par ilist
inline const Profile kProfiles[] = {
    { "p01",                       34, 8,  6, 22, 18, 4,  1,  1,  1, 3, 1,  1,  1,  1,  0,  0,  0, 0, 1,  1,  0,  3,  1,  0,  6,  3 },
    { "p02",                       34, 2,  1, 10, 22, 1,  1,  1,  1, 2, 2,  5,  5,  2,  1,  1,  1, 0, 0,  0,  0,  8,  0,  6,  2,  2 },
    { "p03",                       28, 2,  1,  4, 10, 8,  6,  5,  5, 8, 1,  1,  1,  1,  0,  1,  2, 0, 2,  2,  1,  2,  8,  8,  2,  1 },
    { "p04",                       26, 2,  1,  4, 10, 1,  1,  1,  1, 4, 2,  1,  1,  4,  6,  6,  5, 8, 7,  8,  6,  2,  0,  4,  2,  2 },
    { "tmb",                       10, 2,  1,  6,  4, 1,  1,  1,  1, 2, 1,  1,  1,  1,  1,  1,  1, 0, 0,  0,  0, 40,  2,  2,  2,  1 },
    { "p05",                       26, 6,  4,  4, 12, 2,  2,  2,  2, 1, 2,  2,  2,  4,  6,  6,  5, 1, 6,  7,  5,  3,  0,  0, 10,  4 },
    { "p06",                       20, 4,  2,  4, 10, 1,  1,  1,  1, 4, 1,  1,  1,  2,  2,  2,  2, 1, 2,  2,  2,  3,  0,  1,  4,  2 },
    { "p10",                       26, 4,  3,  8, 14, 2,  1,  1,  1, 2, 2,  2,  2,  2,  1,  1,  1, 2, 1,  1,  0,  4,  1,  1,  2,  2 },
    { "p07",                       24, 5,  4, 10, 10, 3,  3,  2,  2, 4, 1,  1,  1,  1,  1,  1,  1, 1, 2,  2,  1,  2,  1,  2, 30,  2 },
};
// clang-format on
inline const Profile& profile(const std::string& n) {
    for (auto& p : kProfiles) if (n == p.name) return p;
    return kProfiles[0];
}

template<class C> struct other_subs {};             // a container that differs in the number of submaps only

template<class C, class AllocMk = int>
class HashDriver {
public:
    static constexpr bool is_map = HasMapped<C>;
    using key_t = typename C::key_type;
    using val_t = typename C::value_type;
    template<class X> struct mapped_of { using type = int; };
    template<HasMapped X> struct mapped_of<X> { using type = typename X::mapped_type; };
    using map_t = typename mapped_of<C>::type;
    using KC = Codec<key_t>;
    using MC = Codec<map_t>;
    using Alloc = typename C::allocator_type;
    using Hasher = typename C::hasher;
    static constexpr bool copyK = std::is_copy_constructible_v<key_t>;
    static constexpr bool copyV = !is_map || std::is_copy_constructible_v<map_t>;
    static constexpr bool copyE = copyK && copyV;
    static constexpr bool has_alloc_id = requires(Alloc a) { a.id; };
    static constexpr bool salted = !std::is_constructible_v<Hasher> || requires(Hasher h) { h.salt; } || requires(Hasher h) { h.f; };
    static constexpr bool par = requires(C& c) { c.get_inner(0); };
    static constexpr int NC = 3, NH = 2;

    Rng r;
    int K;
    bool node;
    const Profile& P;
    C* c[NC] = {};
    typename C::node_type h[NH];
    std::map<const void*, int> addr;
    int vseq = 0;

    HashDriver(uint64_t seed, int K_, bool node_, const Profile& p) : r(seed), K(K_), node(node_), P(p) {
        for (int i = 0; i < NC; ++i) c[i] = fresh(i);
    }
    ~HashDriver() {
        for (auto& x : h) x = typename C::node_type();
        for (auto* p : c) delete p;
    }

    static Alloc mk_alloc(int i) {
        if constexpr (has_alloc_id) return Alloc(1 + (i & 1));
        else { (void)i; return Alloc(); }
    }
    Hasher mk_hash(int i) {
        if constexpr (salted) return Hasher(!strcmp(P.name, "p10") ? 3 : 1 + i);
        else { (void)i; return Hasher(); }
    }
    using Eq = typename C::key_equal;
    Eq mk_eq(int i) {
        if constexpr (requires(Eq e) { e.salt; }) return Eq(!strcmp(P.name, "p10") ? 3 : 1 + i);
        else { (void)i; return Eq(); }
    }
    C* fresh(int i, size_t n = 0) { return new C(n, mk_hash(i), mk_eq(i), mk_alloc(i)); }

    int force = -1;                                   // next key to use, if set
    int key() { if (force >= 0) { int k = force; force = -1; return k; } return r.below(K); }
    int nv() { return is_map ? 1 + (++vseq % 1000) : 0; }

    template<class E> static int rk(const E& e) { if constexpr (is_map) return KC::rd(e.first); else return KC::rd(e); }
    template<class E> static int rv(const E& e) { if constexpr (is_map) return MC::rd(e.second); else return 0; }
    template<class It> int itk(C& m, It it) { return it == m.end() ? -1 : rk(*it); }
    template<class It> int itv(C& m, It it) { return it == m.end() ? -1 : rv(*it); }

    L dump(C& m) {
        L l;
        size_t n = 0, lim = (size_t)K * 4 + 64;
        if (r.chance(50)) {
            for (auto it = m.begin(); it != m.end(); ++it) { l.add(rk(*it)).add(rv(*it)); if (++n > lim) break; }
        } else {
            const C& cm = m;
            for (auto it = cm.begin(); it != cm.end(); it++) { l.add(rk(*it)).add(rv(*it)); if (++n > lim) break; }
        }
        return l;
    }
    int sz(int i) { return (int)c[i]->size(); }

    val_t mkE(int k, int v) {
        if constexpr (is_map) return val_t(KC::mk(k), MC::mk(v));
        else { (void)v; return KC::mk(k); }
    }
    typename C::init_type mkI(int k, int v) {
        if constexpr (is_map) return typename C::init_type(KC::mk(k), MC::mk(v));
        else { (void)v; return KC::mk(k); }
    }

    // ------------------------------------------------------------------ non-assigning insertion
    void op_ins(int i) {
        C& m = *c[i];
        int k = key(), v = nv();
        int var = r.below(18);
        if (var == 13 || var == 14) g_throw_hash = 0;             // a range may be reserved for first: not the hash of the key
        int fl = 2, qk = -2, qv = -2;
        auto both = [&](auto pr) { fl = pr.second; qk = itk(m, pr.first); qv = itv(m, pr.first); };
        auto iter = [&](auto it) { qk = itk(m, it); qv = itv(m, it); };
        auto hint = [&] { return r.chance(50) ? m.cbegin() : m.cend(); };
        bool done = true;
        switch (var) {
        case 0: if constexpr (copyE) { const val_t e = mkE(k, v); both(m.insert(e)); } else done = false; break;
        case 1: if constexpr (copyE || !is_map) both(m.insert(mkE(k, v))); else done = false; break;
        case 2: { both(m.insert(mkI(k, v))); break; }
        case 3: if constexpr (copyE) { auto e = mkI(k, v); both(m.insert(e)); } else done = false; break;
        case 4: if constexpr (copyE) { const val_t e = mkE(k, v); iter(m.insert(hint(), e)); } else iter(m.insert(hint(), mkI(k, v))); break;
        case 5: iter(m.insert(hint(), mkI(k, v))); break;
        case 6: if constexpr (is_map) both(m.emplace(KC::mk(k), MC::mk(v))); else both(m.emplace(KC::mk(k))); break;
        case 7:
            if constexpr (is_map) {
                both(m.emplace(std::piecewise_construct, std::forward_as_tuple(KC::mk(k)), std::forward_as_tuple(MC::mk(v))));
            } else done = false;
            break;
        case 8: if constexpr (is_map) iter(m.emplace_hint(hint(), KC::mk(k), MC::mk(v))); else iter(m.emplace_hint(hint(), KC::mk(k))); break;
        case 9: if constexpr (is_map && copyK) { const key_t kk = KC::mk(k); both(m.try_emplace(kk, MC::mk(v))); } else done = false; break;
        case 10: if constexpr (is_map) both(m.try_emplace(KC::mk(k), MC::mk(v))); else done = false; break;
        case 11:
            if constexpr (is_map) {
                if constexpr (copyK) { if (r.chance(50)) { const key_t kk = KC::mk(k); iter(m.try_emplace(hint(), kk, MC::mk(v))); break; } }
                iter(m.try_emplace(hint(), KC::mk(k), MC::mk(v)));
            } else done = false;
            break;
        case 12: {
            int called = 0;
            auto it = m.lazy_emplace(KC::mk(k), [&](const typename C::constructor& ctor) {
                ++called;
                if constexpr (is_map) ctor(KC::mk(k), MC::mk(v)); else ctor(KC::mk(k));
            });
            iter(it);
            fl = called;
            break;
        }
        case 13:
            if constexpr (copyE) {
                std::vector<typename C::init_type> one;
                one.push_back(mkI(k, v));
                m.insert(one.begin(), one.end());
            } else done = false;
            break;
        case 14: if constexpr (copyE) { m.insert({ mkI(k, v) }); } else done = false; break;
        case 15:                                  // arguments from which the key cannot be deduced
            if constexpr (ObjCount<key_t>::value && std::is_constructible_v<key_t, int, int>) {
                if constexpr (is_map) both(m.emplace(std::piecewise_construct, std::forward_as_tuple(k, 0), std::forward_as_tuple(MC::mk(v))));
                else both(m.emplace(k, 0));
            } else if constexpr (std::is_same_v<key_t, std::string>) {
                std::string s = KC::mk(k);
                if constexpr (is_map) both(m.emplace(std::piecewise_construct, std::forward_as_tuple(s.begin(), s.end()), std::forward_as_tuple(MC::mk(v))));
                else both(m.emplace(s.begin(), s.end()));
            } else done = false;
            break;
        case 16: {
            key_t kk = KC::mk(k);
            size_t hv = m.hash(kk);
            if constexpr (is_map) both(m.emplace_with_hash(hv, std::move(kk), MC::mk(v))); else both(m.emplace_with_hash(hv, std::move(kk)));
            break;
        }
        case 17: {
            key_t kk = KC::mk(k);
            size_t hv = m.hash(kk);
            int called = 0;
            iter(m.lazy_emplace_with_hash(kk, hv, [&](const typename C::constructor& ctor) {
                ++called;
                if constexpr (is_map) ctor(KC::mk(k), MC::mk(v)); else ctor(KC::mk(k));
            }));
            fl = called;
            break;
        }
        }
        if (!done) {
            both(m.insert(mkI(k, v)));
            var = 2;
        }
        T().ev("ins", i + 1, k, v, var, fl, qk, qv, sz(i));
    }

    // ------------------------------------------------------------------ range / list insertion
    void op_ilist(int i) {
        if constexpr (copyE) {
            C& m = *c[i];
            int n = r.below(r.chance(20) ? 20 : 5);
            std::vector<typename C::init_type> xs;
            L l;
            for (int q = 0; q < n; ++q) { int k = key(), v = nv(); xs.push_back(mkI(k, v)); l.add(k).add(v); }
            int var = r.below(3);
            if (var == 0) m.insert(xs.begin(), xs.end());
            else if (var == 1) {
                if (xs.size() == 2) m.insert({ xs[0], xs[1] });
                else m.insert(xs.begin(), xs.end());
            } else m.insert(std::make_move_iterator(xs.begin()), std::make_move_iterator(xs.end()));
            T().ev("insl", i + 1, l, var, sz(i));
        } else op_ins(i);
    }

    // ------------------------------------------------------------------ assigning insertion
    void op_asg(int i) {
        if constexpr (is_map) {
            C& m = *c[i];
            int k = key(), v = nv(), var = r.below(6);
            int fl = 2, qk = -2, qv = -2;
            auto both = [&](auto pr) { fl = pr.second; qk = itk(m, pr.first); qv = itv(m, pr.first); };
            auto iter = [&](auto it) { qk = itk(m, it); qv = itv(m, it); };
            if constexpr (copyE) {
                const key_t kk = KC::mk(k);
                const map_t vv = MC::mk(v);
                switch (var) {
                case 0: both(m.insert_or_assign(kk, vv)); break;
                case 1: both(m.insert_or_assign(KC::mk(k), MC::mk(v))); break;
                case 2: both(m.insert_or_assign(KC::mk(k), vv)); break;
                case 3: both(m.insert_or_assign(kk, MC::mk(v))); break;
                case 4: iter(m.insert_or_assign(m.cend(), kk, vv)); break;
                case 5: iter(m.insert_or_assign(m.cend(), KC::mk(k), MC::mk(v))); break;
                }
            } else both(m.insert_or_assign(KC::mk(k), MC::mk(v)));
            T().ev("asg", i + 1, k, v, var, fl, qk, qv, sz(i));
        } else op_ins(i);
    }
    void op_idx(int i) {
        if constexpr (is_map) {
            C& m = *c[i];
            int k = key(), v = r.chance(70) ? nv() : -2;
            map_t* p;
            if constexpr (copyK) {
                if (r.chance(50)) { const key_t kk = KC::mk(k); p = &m[kk]; } else p = &m[KC::mk(k)];
            } else p = &m[KC::mk(k)];
            int old = MC::rd(*p);
            if (v != -2) *p = MC::mk(v);
            T().ev("idx", i + 1, k, old, v, sz(i));
        } else op_get(i);
    }

    // ------------------------------------------------------------------ lookups
    void op_get(int i) {
        C& m = *c[i];
        const C& cm = m;
        int k = key(), var = r.below(11), v = -1;
        key_t kk = KC::mk(k);
        switch (var) {
        case 0: { auto it = m.find(kk); v = it == m.end() ? -1 : rk(*it) == k ? rv(*it) : -9; break; }
        case 1: { auto it = cm.find(kk); v = it == cm.end() ? -1 : rk(*it) == k ? rv(*it) : -9; break; }
        case 2: { auto it = m.find(kk, m.hash(kk)); v = it == m.end() ? -1 : rk(*it) == k ? rv(*it) : -9; break; }
        case 3: v = cm.contains(kk) ? -3 : -1; break;
        case 4: v = cm.contains(kk, cm.hash(kk)) ? -3 : -1; break;
        case 5: { size_t n = cm.count(kk); v = n == 0 ? -1 : n == 1 ? -3 : -9; break; }
        case 6:
            if constexpr (is_map) { try { v = MC::rd(m.at(kk)); } catch (const std::out_of_range&) { v = -1; } }
            else v = m.contains(kk) ? -3 : -1;
            break;
        case 7:
            if constexpr (is_map) { try { v = MC::rd(cm.at(kk)); } catch (const std::out_of_range&) { v = -1; } }
            else v = cm.count(kk) ? -3 : -1;
            break;
        case 8: {
            auto pr = m.equal_range(kk);
            if (pr.first == pr.second) v = -1;
            else {
                v = rk(*pr.first) == k ? rv(*pr.first) : -9;
                auto x = pr.first; ++x;
                if (x != pr.second) v = -9;
            }
            break;
        }
        case 9: {
            auto pr = cm.equal_range(kk);
            if (pr.first == pr.second) v = -1;
            else {
                v = rk(*pr.first) == k ? rv(*pr.first) : -9;
                auto x = pr.first; ++x;
                if (x != pr.second) v = -9;
            }
            break;
        }
        case 10: { m.prefetch(kk); auto it = cm.find(kk, cm.hash(kk)); v = it == cm.end() ? -1 : rk(*it) == k ? rv(*it) : -9; break; }
        }
        T().ev("get", i + 1, k, var, v, sz(i));
    }

    // ------------------------------------------------------------------ erasures
    void op_erk(int i) {
        C& m = *c[i];
        int k = key(), n;
        if (r.chance(20)) {                               // by a key that lives in the container
            auto it = m.find(KC::mk(k));
            if (it != m.end()) {
                if constexpr (is_map) n = (int)m.erase(it->first); else n = (int)m.erase(*it);
                T().ev("erk", i + 1, k, n, sz(i));
                return;
            }
        }
        n = (int)m.erase(KC::mk(k));
        T().ev("erk", i + 1, k, n, sz(i));
    }
    void op_eri(int i) {
        C& m = *c[i];
        int k = key();
        auto it = m.find(KC::mk(k));
        if (it == m.end() && !m.empty()) {            // take some existing entry instead
            it = m.begin();
            int steps = r.below(4);
            while (steps-- > 0) { auto n = it; ++n; if (n == m.end()) break; it = n; }
        }
        if (it == m.end()) { T().ev("sz", i + 1, m.empty() ? 1 : 0, sz(i)); return; }
        k = rk(*it);
        int var = r.below(3), nk = -2;
        // what follows it in the iteration order
        auto nx = it; ++nx;
        int want = nx == m.end() ? -1 : rk(*nx);
        if (var == 0) { auto q = m.erase(it); nk = itk(m, q); }
        else if (var == 1) { auto q = m.erase(typename C::const_iterator(it)); nk = itk(m, q); }
        else { m._erase(it); nk = want; }
        T().ev("eri", i + 1, k, var, want, nk, sz(i));
    }
    void op_trav(int i) {                              // erase while traversing
        C& m = *c[i];
        int pct = r.below(101), var = r.below(3);
        L vis, ers;
        int n = 0;
        for (auto it = m.begin(); it != m.end();) {
            int k = rk(*it);
            vis.add(k).add(rv(*it));
            if (++n > K * 4 + 64) break;
            if (r.below(100) < pct) {
                ers.add(k);
                if (var == 0) it = m.erase(it);
                else if (var == 1) m._erase(it++);
                else m.erase(it++);
            } else ++it;
        }
        T().ev("trav", i + 1, vis, ers, sz(i));
    }
    void op_range(int i) {
        C& m = *c[i];
        int n = sz(i);
        L l = dump(m);
        int a = r.below(n + 1), b = r.range(a, n);
        if (r.chance(10)) { a = 0; b = n; }
        auto f = m.begin();
        for (int q = 0; q < a; ++q) ++f;
        auto g = f;
        for (int q = a; q < b; ++q) ++g;
        auto res = m.erase(typename C::const_iterator(f), typename C::const_iterator(g));
        T().ev("err", i + 1, a, b, l, itk(m, res), sz(i));
    }
    void op_eif(int i) {
        C& m = *c[i];
        int a = r.range(1, 5), b = r.below(a);
        L called;
        size_t before = m.size();
        auto pred = [&](const auto& e) { cb(); called.add(rk(e)); return rk(e) % a == b; };
        if constexpr (requires { { gtl::erase_if(m, pred) } -> std::convertible_to<size_t>; }) {
            size_t n = gtl::erase_if(m, pred);
            T().ev("eif", i + 1, a, b, (int)n, called, sz(i));
        } else {
            gtl::erase_if(m, pred);
            T().ev("eif", i + 1, a, b, (int)(before - m.size()), called, sz(i));
        }
    }
    void op_hold(int i) {                              // an iterator survives erasure of others
        C& m = *c[i];
        if (m.empty()) return op_ins(i);
        auto it = m.begin();
        int steps = r.below(std::min(sz(i), 12));
        while (steps-- > 0) ++it;
        int k = rk(*it);
        const void* p = &*it;
        for (int q = r.range(1, 6); q > 0; --q) {
            int k2 = key();
            if (k2 == k) continue;
            if (r.chance(60)) {
                int n = (int)m.erase(KC::mk(k2));
                T().ev("erk", i + 1, k2, n, sz(i));
            } else {
                auto j = m.find(KC::mk(k2));
                if (j != m.end()) { m._erase(j); T().ev("erk", i + 1, k2, 1, sz(i)); }
            }
            T().ev("held", i + 1, k, rk(*it), rv(*it), p == (const void*)&*it ? 1 : 0, sz(i));
        }
        // the remaining traversal from the held iterator is a suffix of a full traversal
        L full, rest;
        for (auto x = m.begin(); x != m.end(); ++x) full.add(rk(*x)).add(rv(*x));
        for (auto x = it; x != m.end(); ++x) rest.add(rk(*x)).add(rv(*x));
        T().ev("sufx", i + 1, full, rest, sz(i));
    }

    // ------------------------------------------------------------------ whole-container observation
    void op_it(int i) { C& m = *c[i]; L l = dump(m); T().ev("it", i + 1, l, m.empty() ? 1 : 0, (int)std::distance(m.begin(), m.end()), sz(i)); }
    void op_adr(int i) {
        C& m = *c[i];
        std::vector<int> where((size_t)K, 0);
        for (auto it = m.begin(); it != m.end(); ++it) {
            const void* p = &*it;
            auto f = addr.find(p);
            if (f == addr.end()) f = addr.emplace(p, (int)addr.size() + 1).first;
            where.at((size_t)rk(*it)) = f->second;
        }
        L l;
        for (int a : where) l.add(a);
        T().ev("adr", i + 1, l, sz(i));
    }
    int cap(C& m) { size_t x = m.capacity(); return x > 2000000000u ? 2000000000 : (int)x; }
    void ev_cap(int i) {
        C& m = *c[i];
        T().ev("cap", i + 1, cap(m), m.bucket_count() == m.capacity() ? 1 : 0,
               (int)(m.load_factor() * 10000 + 0.5), sz(i));
    }
    void op_resv(int i) {
        C& m = *c[i];
        int n = r.chance(10) ? 0 : r.chance(50) ? r.below(2 * K + 2) : sz(i) + r.range(-3, 12);
        if (n < 0) n = 0;
        m.reserve((size_t)n);
        T().ev("resv", i + 1, n, cap(m), sz(i));
        if (r.chance(60)) {                             // fill up to the reservation: no reallocation allowed
            op_adr(i);
            int todo = r.range(1, 40);
            while (todo-- > 0) {
                if (r.chance(85)) op_ins(i); else op_get(i);
                if (r.chance(25)) { op_adr(i); ev_cap(i); }
            }
            op_adr(i);
            ev_cap(i);
        }
    }
    void op_reh(int i) {
        C& m = *c[i];
        int n = r.chance(35) ? 0 : r.chance(50) ? r.below(2 * K + 2) : sz(i) + r.range(-3, 12);
        if (n < 0) n = 0;
        m.rehash((size_t)n);
        T().ev("reh", i + 1, n, cap(m), sz(i));
        // make sure lookups of absent keys terminate
        for (int q = 0; q < 3; ++q) op_get(i);
    }
    void op_clr(int i) {
        if (K > 200 && r.chance(60)) op_fill(i, r.below(K / 2), K);
        c[i]->clear();
        T().ev("clr", i + 1, sz(i));
    }
    void op_fill(int i, int lo, int hi) {
        int v0 = nv(), n = 0;
        for (int k = lo; k < hi; ++k) n += c[i]->insert(mkI(k, is_map ? v0 : 0)).second ? 1 : 0;
        T().ev("bins", i + 1, lo, hi, 1, is_map ? v0 : 0, n, sz(i));
    }

    // ------------------------------------------------------------------ batches (long histories)
    void op_batch(int i) {
        C& m = *c[i];
        if (K <= 1000 && r.chance(50)) return op_tomb(i);
        int lo = key(), hi = std::min(K, lo + r.below(K / (r.chance(30) ? 1 : 4) + 2)), st = r.range(1, 3);
        int var = r.below(4), n = 0;
        if (var == 0) {
            int v0 = nv();
            for (int k = lo; k < hi; k += st) n += m.insert(mkI(k, is_map ? v0 : 0)).second ? 1 : 0;
            T().ev("bins", i + 1, lo, hi, st, is_map ? v0 : 0, n, sz(i));
        } else if (var == 1) {
            for (int k = lo; k < hi; k += st) n += (int)m.erase(KC::mk(k));
            T().ev("ber", i + 1, lo, hi, st, n, sz(i));
        } else if (var == 2) {
            for (int k = lo; k < hi; k += st) n += m.contains(KC::mk(k)) ? 1 : 0;
            T().ev("bget", i + 1, lo, hi, st, n, sz(i));
        } else {                                        // churn: insert and erase again, many times
            int k = key(), v = nv(), reps = r.range(1, 200), a = 0, b = 0, cmax = 0;
            for (int q = 0; q < reps; ++q) {
                int kk = (k + q * st) % K;
                if (m.contains(KC::mk(kk))) continue;
                a += m.insert(mkI(kk, v)).second ? 1 : 0;
                b += (int)m.erase(KC::mk(kk));
                cmax = std::max(cmax, cap(m));
            }
            T().ev("churn", i + 1, a, b, cmax, sz(i));
        }
        ev_cap(i);
    }

    // fill to the maximum load, erase more than half, then insert other keys: the tombstones must be dropped
    void op_tomb(int i) {
        C& m = *c[i];
        if (r.chance(60)) { m.clear(); T().ev("clr", i + 1, sz(i)); }
        if (r.chance(40)) { m.rehash(0); T().ev("reh", i + 1, 0, cap(m), sz(i)); }
        int goal = r.chance(50) ? 28 : r.chance(60) ? 56 : r.chance(50) ? 112 : 14;
        while (goal > K && goal > 14) goal /= 2;
        if (r.chance(30)) { m.reserve((size_t)goal); T().ev("resv", i + 1, goal, cap(m), sz(i)); }
        int at = key(), v0 = is_map ? nv() : 0;
        while (sz(i) < goal && sz(i) < K) {
            if (at >= K) at = 0;
            int hi = std::min({ K, at + r.range(1, 9), at + goal - sz(i) }), n = 0;
            for (int k = at; k < hi; ++k) n += m.insert(mkI(k, v0)).second ? 1 : 0;
            T().ev("bins", i + 1, at, hi, 1, v0, n, sz(i));
            at = hi;
        }
        int keep = r.below(goal / 2 + 1);
        while (sz(i) > keep) {
            int lo = key(), hi = std::min(K, lo + r.range(1, 12)), st = r.range(1, 2), n = 0;
            for (int k = lo; k < hi; k += st) n += (int)m.erase(KC::mk(k));
            T().ev("ber", i + 1, lo, hi, st, n, sz(i));
        }
        for (int q = r.range(2, 24), cp0 = cap(m); q > 0 && cap(m) == cp0; --q) { if (r.chance(70)) force = at++ % K; op_ins(i); force = -1; }
        if (r.chance(50)) op_it(i);
        for (int q = 0; q < 4; ++q) op_get(i);
        ev_cap(i);
    }

    // ------------------------------------------------------------------ construction
    void op_ctor(int i) {
        if constexpr (copyE) {
            int n = r.below(12);
            std::vector<typename C::init_type> xs;
            L l;
            for (int q = 0; q < n; ++q) { int k = key(), v = nv(); xs.push_back(mkI(k, v)); l.add(k).add(v); }
            int var = r.below(5);
            delete c[i];
            c[i] = nullptr;
            switch (var) {
            case 0: c[i] = new C(xs.begin(), xs.end(), 0, mk_hash(i), mk_eq(i), mk_alloc(i)); break;
            case 1: c[i] = new C(xs.begin(), xs.end(), (size_t)r.below(40), mk_hash(i), mk_eq(i), mk_alloc(i)); break;
            case 2:
                if (xs.size() < 2) { c[i] = new C(xs.begin(), xs.end(), 0, mk_hash(i), mk_eq(i), mk_alloc(i)); }
                else { l = L(); l.add(rk(xs[0])).add(rv(xs[0])).add(rk(xs[1])).add(rv(xs[1]));
                       c[i] = new C({ xs[0], xs[1] }, 0, mk_hash(i), mk_eq(i), mk_alloc(i)); }
                break;
            case 3: c[i] = fresh(i, (size_t)r.below(60)); c[i]->insert(xs.begin(), xs.end()); break;
            case 4: c[i] = fresh(i);
                if (xs.size() == 3 && !salted) *c[i] = { xs[0], xs[1], xs[2] };
                else c[i]->insert(xs.begin(), xs.end());
                break;
            }
            T().ev("new", i + 1, l, var, sz(i));
        } else { delete c[i]; c[i] = fresh(i, (size_t)r.below(60)); T().ev("new", i + 1, L(), 9, sz(i)); }
    }

    static constexpr bool alloc_equal_needed_for_swap() {
        if constexpr (has_alloc_id) return !std::allocator_traits<Alloc>::propagate_on_container_swap::value;
        else return false;
    }
    static int aid(const C& m) { if constexpr (has_alloc_id) return m.get_allocator().id; else { (void)m; return 0; } }

    void op_cpy(int i) {
        if constexpr (copyE) {
            int j = r.below(NC), var = r.below(4);
            if (var == 0 || var == 2) {                              // copy construction
                if (i == j) j = (j + 1) % NC;
                int g = r.below(2);
                AlEv<Alloc> al(c[i], c[j]);
                C* x = var == 0 ? new C(*c[j]) : new C(*c[j], mk_alloc(g));
                delete c[i];
                c[i] = x;
                al.done(var == 0 ? "cc" : "cg", 1 + g, *c[i], *c[j]);
            } else {                                                 // copy assignment, also to itself
                AlEv<Alloc> al(c[i], c[j]);
                *c[i] = *static_cast<const C*>(c[j]);
                al.done("ca", 0, *c[i], *c[j]);
            }
            T().ev("cpy", i + 1, j + 1, var, sz(j), sz(i));
        } else op_mov(i);
    }
    void op_mov(int i) {
        int j = r.below(NC), var = r.below(4), keep = 1;
        if (i == j) j = (j + 1) % NC;
        td = j;
        AlEv<Alloc> al(c[i], c[j]);
        if (var == 0) { C* x = new C(std::move(*c[j])); delete c[i]; c[i] = x; al.done("mc", 0, *c[i], *c[j]); }
        else if (var == 2 && copyE) if constexpr (copyE) {
            Alloc a = mk_alloc(r.below(2));
            if constexpr (has_alloc_id) keep = a.id == aid(*c[j]);
            C* x = new C(std::move(*c[j]), a);
            delete c[i];
            c[i] = x;
            if constexpr (has_alloc_id) al.done("mg", a.id, *c[i], *c[j]);
        } else {}
        else {
            if constexpr (has_alloc_id)
                keep = std::allocator_traits<Alloc>::propagate_on_container_move_assignment::value || aid(*c[i]) == aid(*c[j]);
            *c[i] = std::move(*c[j]);
            al.done("ma", 0, *c[i], *c[j]);
        }
        // the moved-from container is valid: it can be queried, cleared and reused
        (void)c[j]->size();
        disarm();
        (void)c[j]->contains(KC::mk(key()));
        for (auto it = c[j]->begin(); it != c[j]->end(); ++it) (void)*it;
        if (r.chance(50)) c[j]->clear();
        else { delete c[j]; c[j] = fresh(j); }
        T().ev("mov", i + 1, j + 1, var, keep, sz(j), sz(i));
    }
    void op_swp(int i) {
        int j = r.below(NC), var = r.below(3);
        if constexpr (alloc_equal_needed_for_swap()) {
            if (aid(*c[i]) != aid(*c[j])) j = i;
        }
        if (i == j && r.chance(70)) { j = (i + 2) % NC; if (alloc_equal_needed_for_swap() && aid(*c[i]) != aid(*c[j])) j = i; }
        using std::swap;
        AlEv<Alloc> al(c[i], c[j]);
        if (var == 0) c[i]->swap(*c[j]);
        else swap(*c[i], *c[j]);
        al.done("sw", 0, *c[i], *c[j]);
        T().ev("swp", i + 1, j + 1, var, sz(j), sz(i));
    }
    void op_eq(int i) {
        if constexpr (requires(val_t& a) { { a == a } -> std::convertible_to<bool>; }) {
            int j = r.below(NC);
            if (r.chance(40)) {                                     // make them equal first, or nearly so
                if constexpr (copyE) {
                    if (i == j) j = (j + 1) % NC;
                    int keep_i = i;
                    C tmp(*c[keep_i]);
                    std::vector<typename C::init_type> xs;
                    for (auto it = tmp.begin(); it != tmp.end(); ++it) xs.push_back(mkI(rk(*it), rv(*it)));
                    delete c[j];
                    c[j] = fresh(j, (size_t)r.below(40));
                    for (size_t q = xs.size(); q > 0; --q) c[j]->insert(xs[q - 1]);
                    T().ev("cpy", j + 1, keep_i + 1, 7, sz(keep_i), sz(j));
                    int tweak = r.below(4);
                    if (tweak == 1) op_erk(j);
                    if (tweak == 2) op_asg(j);
                }
            }
            if constexpr (par && salted) if (c[i]->hash_function().salt != c[j]->hash_function().salt) return;   // compares submap by submap
            int e = *c[i] == *c[j] ? 1 : 0;
            int ne = *c[i] != *c[j] ? 1 : 0;
            T().ev("eq", i + 1, j + 1, e, ne, sz(i));
        } else op_get(i);
    }

    // ------------------------------------------------------------------ node handles and merge
    int nk(typename C::node_type& n) { if (n.empty()) return -1; if constexpr (is_map) return KC::rd(n.key()); else return KC::rd(n.value()); }
    int nvl(typename C::node_type& n) { if (n.empty()) return -1; if constexpr (is_map) return MC::rd(n.mapped()); else return 0; }
    int op_ext1(int i) {
        C& m = *c[i];
        int s = r.below(NH), k = key(), var = r.below(2);
        if (var == 0) h[s] = m.extract(KC::mk(k));
        else {
            auto it = m.find(KC::mk(k));
            if (it == m.end()) h[s] = m.extract(KC::mk(k));
            else h[s] = m.extract(typename C::const_iterator(it));
        }
        T().ev("ext", i + 1, k, s + 1, var, nk(h[s]), nvl(h[s]), sz(i));
        return s;
    }
    void op_ext(int i) {
        int s = op_ext1(i);
        if (r.chance(40)) {
            int t = (s + 1) % NH;
            if (r.chance(50)) { h[t] = std::move(h[s]); T().ev("nmov", s + 1, t + 1, nk(h[s]), nk(h[t]), nvl(h[t]), 0); }
            else { using std::swap; swap(h[s], h[t]); T().ev("nswp", s + 1, t + 1, nk(h[s]), nk(h[t]), nvl(h[t]), 0); }
        }
    }
    void op_inn(int i) {
        C& m = *c[i];
        int s = r.below(NH), var = r.below(3), fl = 2, qk = -2, qv = -2, bk, bv;
        if constexpr (has_alloc_id) {                                // handle and target must share the allocator
            if (!h[s].empty() && h[s].get_allocator().id != aid(m)) { for (int j = 0; j < NC; ++j) if (aid(*c[j]) == h[s].get_allocator().id) return op_inn_at(j, s, 0); return; }
        }
        (void)var; (void)fl; (void)qk; (void)qv; (void)bk; (void)bv;
        op_inn_at(i, s, r.below(2));
    }
    void op_inn_at(int i, int s, int var) {
        C& m = *c[i];
        int fl = 2, qk, qv;
        if (var == 0) {
            auto res = m.insert(std::move(h[s]));
            fl = res.inserted;
            qk = itk(m, res.position); qv = itv(m, res.position);
            h[s] = std::move(res.node);
        } else {
            auto it = m.insert(m.cend(), std::move(h[s]));
            qk = itk(m, it); qv = itv(m, it);
        }
        T().ev("inn", i + 1, s + 1, var, fl, qk, qv, nk(h[s]), nvl(h[s]), sz(i));
    }
    void op_mrg(int i) {
        int j = (i + 1 + r.below(NC - 1)) % NC;
        td = j;
        if constexpr (has_alloc_id) if (aid(*c[i]) != aid(*c[j])) return op_get(i);
        if (r.chance(80)) c[i]->merge(*c[j]); else c[i]->merge(std::move(*c[j]));
        T().ev("mrg", i + 1, j + 1, sz(j), sz(i));
    }

    // ------------------------------------------------------------------ extended API of the parallel containers
    void op_par(int i) {
        if constexpr (par) {
            C& m = *c[i];
            const C& cm = m;
            int k = key(), v = nv(), called = 0, seen = -1;
            key_t kk = KC::mk(k);
            int var = r.below(is_map ? 14 : 11);
            if (!is_map && var == 10) var = 13;
            tkind = var == 6 ? 0 : var == 8 ? 2 : 1;
            switch (var) {
            case 0: { bool b = cm.if_contains(kk, [&](const val_t& e) { cb(); ++called; seen = rk(e) == k ? rv(e) : -9; });
                      T().ev("ifc", i + 1, k, b, called, seen, sz(i)); break; }
            case 1: { bool b = cm.if_contains_unsafe(kk, [&](const val_t& e) { cb(); ++called; seen = rk(e) == k ? rv(e) : -9; });
                      T().ev("ifc", i + 1, k, b, called, seen, sz(i)); break; }
            case 2: { bool b = m.modify_if(kk, [&](val_t& e) { cb(); ++called; seen = rk(e) == k ? rv(e) : -9; if constexpr (is_map) e.second = MC::mk(v); });
                      T().ev("modif", i + 1, k, v, b, called, seen, sz(i)); break; }
            case 3: { bool yes = r.chance(60);
                      bool b = m.erase_if(kk, [&](val_t& e) { cb(); ++called; seen = rk(e) == k ? rv(e) : -9; return yes; });
                      T().ev("erif", i + 1, k, yes ? 1 : 0, b, called, seen, sz(i)); break; }
            case 4: { int cex = 0, cem = 0;
                      bool b = m.lazy_emplace_l(kk, [&](val_t& e) { cb(); ++cex; seen = rk(e) == k ? rv(e) : -9; if constexpr (is_map) e.second = MC::mk(v); },
                          [&](const typename C::constructor& ctor) { cb(); ++cem; if constexpr (is_map) ctor(KC::mk(k), MC::mk(v)); else ctor(KC::mk(k)); });
                      T().ev("upsert", i + 1, k, v, b, cex, cem, seen, sz(i)); break; }
            case 5: { L l; auto f = [&](const val_t& e) { cb(); l.add(rk(e)).add(rv(e)); };
                      if (r.chance(60) || g_throw_cb) m.for_each(f); else m.for_each(std::execution::seq, f);
                      T().ev("it", i + 1, l, m.empty() ? 1 : 0, sz(i), sz(i)); break; }
            case 6: { L l; int d = is_map ? r.range(1, 3) : 0;
                      auto f = [&](auto& e) { cb(); l.add(rk(e)).add(rv(e)); if constexpr (is_map) e.second = MC::mk(MC::rd(e.second) + d); };
                      if (r.chance(60) || g_throw_cb || g_throw_obj) m.for_each_m(f); else m.for_each_m(std::execution::seq, f);
                      T().ev("each", i + 1, l, d, sz(i)); break; }
            case 7: { L all; for (size_t q = 0; q < n_sub(m); ++q) { L l; cm.with_submap(q, [&](const auto& s) { for (auto& e : s) l.add(rk(e)).add(rv(e)); }); all.add(l); }
                      T().ev("subs", i + 1, all, sz(i)); break; }
            case 8: { size_t q = (size_t)r.below((int)n_sub(m)); L l; int a = r.range(1, 3);
                      m.with_submap_m(q, [&](auto& s) { for (auto it = s.begin(); it != s.end();) { cb(); if (rk(*it) % a == 0) { l.add(rk(*it)); it = s.erase(it); } else ++it; } });
                      T().ev("ersub", i + 1, l, a, sz(i)); break; }
            case 9: { int cem = 0;             // inserts the absent key, erases the present one
                      auto f = [&](const typename C::constructor& ctor) { cb(); ++cem; if constexpr (is_map) ctor(KC::mk(k), MC::mk(v)); else ctor(KC::mk(k)); };
                      if (r.chance(50)) m.emplace_single(kk, f); else m.emplace_single_with_hash(kk, m.hash(kk), f);
                      T().ev("tog", i + 1, k, v, cem, sz(i)); break; }
            case 13: { size_t q = (size_t)r.below((int)n_sub(m)); L l;         // clear one submap
                      cm.with_submap(q, [&](const auto& s) { for (auto& e : s) l.add(rk(e)); });
                      m.clear(q);
                      T().ev("ersub", i + 1, l, 1, sz(i)); break; }
            case 10: if constexpr (is_map) { int cex = 0;
                      bool b = m.try_emplace_l(KC::mk(k), [&](val_t& e) { cb(); ++cex; seen = rk(e) == k ? rv(e) : -9; e.second = MC::mk(v); }, MC::mk(v));
                      T().ev("upsert", i + 1, k, v, b, cex, b ? 1 : 0, seen, sz(i)); } break;
            case 11: if constexpr (is_map) { auto pr = m.try_emplace_p(KC::mk(k), MC::mk(v));
                      T().ev("ins", i + 1, k, v, 30, pr.second, rk(*pr.first), rv(*pr.first), sz(i)); } break;
            case 12: if constexpr (is_map) { size_t hv = m.hash(kk); auto pr = m.try_emplace_with_hash(hv, KC::mk(k), MC::mk(v));
                      T().ev("ins", i + 1, k, v, 31, pr.second, rk(*pr.first), rv(*pr.first), sz(i)); } break;
            }
        } else op_ins(i);
    }
    void cb() { if (hit(g_throw_cb)) throw Injected { 5 }; }

    // ------------------------------------------------------------------ failing calls
    // what a failed call may have left behind: 1 nothing changed, 2 entries may be missing from c, 3 entries may have been
    // added to c, 4 entries may have moved from d to c, 0 c and d hold anything consistent
    int tc = 0, td = 0, tkind = 1;
    void disarm() { g_throw_obj = g_throw_alloc = g_throw_eq = g_throw_hash = g_throw_cb = 0; }
    void op_fault(int i) {
        tc = td = i;
        tkind = 1;
        int op = r.pick({ 30, 10, 8, 6, 8, 5, 6, 6, 6, 4, 4, 3, 3, 4, par ? 20 : 0, 4 });
        // 0 ins 1 asg 2 idx 3 get 4 erk 5 ext 6 inn 7 ilist 8 cpy 9 mrg 10 resv 11 reh 12 mov 13 ctor 14 par 15 eif
        int n = 1 + (r.chance(70) ? r.below(3) : r.below(16));
        bool keyed = op <= 6 || op == 14, cbs = op == 14 || op == 15;
        switch (r.pick({ 40, keyed ? 20 : 0, op <= 9 || op == 14 ? 20 : 0, has_alloc_id ? 30 : 0, cbs ? 40 : 0 })) {
        case 0: g_throw_obj = n; break;
        case 1: g_throw_hash = 1; break;              // the key of the call
        case 2: g_throw_eq = n; break;
        case 3: g_throw_alloc = 1 + r.below(2); break;
        case 4: g_throw_cb = n; break;
        }
        try {
            switch (op) {
            case 0: op_ins(i); break;
            case 1: op_asg(i); break;
            case 2: tkind = 3; op_idx(i); break;
            case 3: op_get(i); break;
            case 4: op_erk(i); break;
            case 5: op_ext1(i); break;
            case 6: op_inn(i); break;
            case 7: tkind = 3; op_ilist(i); break;
            case 8: tkind = 0; op_cpy(i); break;
            case 9: tkind = 4; op_mrg(i); break;
            case 10: { int k = sz(i) + r.range(0, 40); c[i]->reserve((size_t)k); disarm(); T().ev("resv", i + 1, k, cap(*c[i]), sz(i)); break; }
            case 11: { int k = r.below(2 * K + 2); c[i]->rehash((size_t)k); disarm(); T().ev("reh", i + 1, k, cap(*c[i]), sz(i)); break; }
            case 12: tkind = 0; op_mov(i); break;
            case 13: tkind = 0; op_ctor(i); break;
            case 14: op_par(i); break;
            case 15: tkind = 2; op_eif(i); break;
            }
            disarm();
        } catch (const Injected&) { thrown(); } catch (const std::bad_alloc&) { thrown(); }
    }
    void thrown() {
        disarm();
        L all, hs, ss;
        for (int q = 0; q < NC; ++q) {
            if (!c[q]) c[q] = fresh(q);
            all.add(dump(*c[q]));
            ss.add(sz(q));
        }
        for (auto& n : h) hs.add(nk(n)).add(nvl(n));
        T().ev("thr", tc + 1, tkind, td + 1, all, hs, ss);
    }
    static constexpr int objs = ObjCount<key_t>::value + (is_map ? ObjCount<map_t>::value : 0);
    void acct() { T().ev("acct", (int)g_acct.live); }

#if defined(VT_DUMP)
    // ------------------------------------------------------------------ dump and load
    struct Mem {                                       // an archive in memory
        std::string b;
        size_t at = 0;
        bool saveBinary(const void* p, size_t n) { b.append((const char*)p, n); return true; }
        bool loadBinary(void* p, size_t n) { if (at + n > b.size()) bad("load_reads_beyond_the_dump"); memcpy(p, b.data() + at, n); at += n; return true; }
    };
    std::string arch[2];
    bool have[2] = { false, false };
    std::string path() { return "/tmp/vt_dump_" + std::to_string(getpid()) + ".bin"; }
    void op_arch(int i) {
        int f = r.below(2), var = r.below(10);
        if (var < 4) {
            Mem a;
            bool ok = static_cast<const C&>(*c[i]).phmap_dump(a);
            arch[f] = a.b;
            have[f] = true;
            T().ev("dmp", i + 1, f + 1, ok, sz(i));
        } else if (var < 8) {
            if (!have[f]) return;
            Mem a;
            a.b = arch[f];
            bool ok = c[i]->phmap_load(a);
            T().ev("lod", i + 1, f + 1, ok, a.at == a.b.size() ? 1 : 0, sz(i));
            if (r.chance(40)) ev_cap(i);
            if (r.chance(40)) op_it(i);
        } else {                                       // several things in one file
            int j = r.below(NC), x = r.below(NC), y = (x + 1) % NC, pod = r.below(1000), back = 0;
            std::string fn = path();
            {
                gtl::BinaryOutputArchive ar(fn.c_str());
                ar.saveBinary(pod);
                bool a = ar.saveBinary(*c[i]), b = c[j]->phmap_dump(ar);
                ar.saveBinary(&pod, sizeof pod);
                T().ev("dmp", i + 1, 1, a, sz(i));
                T().ev("dmp", j + 1, 2, b, sz(j));
            }
            {
                gtl::BinaryInputArchive ar(fn.c_str());
                ar.loadBinary(&back);
                bool a = ar.loadBinary(c[x]), b = c[y]->phmap_load(ar);
                int back2 = -1;
                ar.loadBinary(&back2, sizeof back2);
                T().ev("lod", x + 1, 1, a, back == pod ? 1 : 0, sz(x));
                T().ev("lod", y + 1, 2, b, back2 == pod ? 1 : 0, sz(y));
            }
            unlink(fn.c_str());
            have[0] = have[1] = false;
        }
    }
    // a dump of a container with another number of submaps is refused
    template<class O> void op_mismatch(int i) {
        O o;
        for (int q = r.below(20); q > 0; --q) { int k = key(); if constexpr (is_map) o.insert({ KC::mk(k), MC::mk(1) }); else o.insert(KC::mk(k)); }
        Mem a;
        o.phmap_dump(a);
        std::streambuf* sb = std::cerr.rdbuf(nullptr);
        bool ok = c[i]->phmap_load(a);
        std::cerr.rdbuf(sb);
        std::cerr.clear();
        T().ev("lodx", i + 1, ok, sz(i));
    }
#endif
    static size_t n_sub(C& m) { return sizeof_sub(m); }
    template<class X> static size_t sizeof_sub(X&) {
        struct D : X { static size_t n() { return X::subcnt(); } };
        return D::n();
    }

    void step() {
        int i = r.chance(70) ? 0 : r.below(NC);
        const Profile& p = P;
        switch (r.pick({ p.ins, p.asg, p.idx, p.get, p.erk, p.eri, p.trav, p.range, p.eif, p.it, p.clr, p.resv, p.reh, p.ctor, p.cpy, p.mov,
                         p.swp, p.eq, p.ext, p.inn, p.mrg, p.batch, p.hold, p.adr, p.par, p.ilist })) {
        case 0: op_ins(i); break;
        case 1: op_asg(i); break;
        case 2: op_idx(i); break;
        case 3: op_get(i); break;
        case 4: op_erk(i); break;
        case 5: op_eri(i); break;
        case 6: op_trav(i); break;
        case 7: op_range(i); break;
        case 8: op_eif(i); break;
        case 9: op_it(i); break;
        case 10: op_clr(i); break;
        case 11: op_resv(i); break;
        case 12: op_reh(i); break;
        case 13: op_ctor(i); break;
        case 14: op_cpy(i); break;
        case 15: op_mov(i); break;
        case 16: op_swp(i); break;
        case 17: op_eq(i); break;
        case 18: op_ext(i); break;
        case 19: op_inn(i); break;
        case 20: op_mrg(i); break;
        case 21: op_batch(i); break;
        case 22: op_hold(i); break;
        case 23: op_adr(i); break;
        case 24: op_par(i); break;
        case 25: op_ilist(i); break;
        }
    }
    // phases make the key population drift, so that tables fill, empty and accumulate tombstones
    void run(int events) {
        int ph = 0, left = 0;
        bool account = objs && (!strcmp(P.name, "p05") || !strcmp(P.name, "p06")), faults = !strcmp(P.name, "p06"), dumps = !strcmp(P.name, "p10");
        if (K > 200 && r.chance(70)) op_fill(0, 0, r.range(K / 2, K));
        while ((int)T().count() < events) {
            if (account) acct();
            if (faults && r.chance(50)) { op_fault(r.chance(60) ? 0 : r.below(NC)); continue; }
#if defined(VT_DUMP)
            if (dumps && r.chance(12)) { op_arch(r.below(NC)); continue; }
            if constexpr (requires { typename other_subs<C>::type; }) if (dumps && r.chance(2)) { op_mismatch<typename other_subs<C>::type>(r.below(NC)); continue; }
#endif
            (void)dumps;
            if (left-- <= 0) { ph = r.below(4); left = r.range(10, 120); }
            int i = r.chance(70) ? 0 : r.below(NC);
            if (K > 1000 && r.chance(12)) { if (r.chance(30)) op_fill(i, r.below(K / 3), K); else op_batch(i); }
            else if (ph == 1 && r.chance(50)) op_ins(i);
            else if (ph == 2 && r.chance(50)) op_erk(i);
            else step();
        }
        for (int i = 0; i < NC; ++i) op_it(i);
    }
};

template<class C>
void run_hash(const char* name, bool node, const Args& a, int cfg_index) {
    if (!a.only.empty() && a.only != name) return;
    for (int t = 0; t < a.traces; ++t) {
        if (a.only_trace >= 0 && t != a.only_trace) continue;
        uint64_t seed = a.seed * 1000003u + (uint64_t)cfg_index * 7919u + (uint64_t)a.shard * 104729u + (uint64_t)t;
        Rng r(seed);
        static const int Ks[] = { 4, 9, 14, 16, 20, 28, 33, 44, 70, 90, 140 };
        int K = Ks[r.below(11)];
        int events = a.events;
        if (a.profile == "tmb") { static const int Kt[] = { 33, 44, 44, 70, 70, 140 }; K = Kt[r.below(6)]; }
        if (t % 16 == 15 || (t % 8 == 3 && a.profile == "p05")) { K = 600; }
        if (t % 8 == 3 && a.profile == "p06") { K = 260; }
        if (a.shard >= 10) K = r.chance(50) ? 2000 : 5000;                  // some larger tables
        g_hmode = r.chance(20) ? 0 : r.below(kHModes);
        if (K > 200 && (g_hmode == 1 || g_hmode == 5)) g_hmode = 4;
        T().begin("\"cfg\":\"" + std::string(name) + "\",\"seed\":" + std::to_string(a.seed) + ",\"t\":" + std::to_string(t) + ",\"shard\":" +
                  std::to_string(a.shard) + ",\"hm\":" + std::to_string(g_hmode) + ",\"K\":" + std::to_string(K) + ",\"node\":" + (node ? "1" : "0") + ",\"par\":" + (HashDriver<C>::par ? "1" : "0") + ",\"map\":" + (HashDriver<C>::is_map ? "1" : "0") + ",\"objs\":" + std::to_string(HashDriver<C>::objs));
        budget(30);
        T().warm();
        book();
        g_acct = Acct();
        long h0 = g_heap;
        {
            HashDriver<C> d(seed, K, node, profile(a.profile));
            d.run(events);
        }
        if (a.profile == "p05" || a.profile == "p06") T().ev("fin", (int)g_acct.live, (int)book().live.size(), (int)(g_heap - h0));
        book().live.clear();
        budget(0);
        T().end();
    }
}

} // namespace vt
