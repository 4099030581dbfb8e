// Driver for the gtl B-tree containers.  Every entry is a pair (k, id): the comparator sees k only, so entries with
// equivalent keys stay distinguishable.  Specification: spec/BTreeTrace.tla.
#pragma once
#include "elements.hpp"
#include <gtl/btree.hpp>
#include <array>
#include <stdexcept>

namespace vt {

// ---------------------------------------------------------------- elements of sets: key and identity in one object
template<class Kt>
struct El {
    Kt k;
    int id;
    El() : k(Codec<Kt>::mk(0)), id(0) {}
    El(Kt kk, int i) : k(std::move(kk)), id(i) {}
    friend bool operator==(const El& a, const El& b) { return Codec<Kt>::rd(a.k) == Codec<Kt>::rd(b.k) && a.id == b.id; }
    friend bool operator<(const El& a, const El& b) {
        int x = Codec<Kt>::rd(a.k), y = Codec<Kt>::rd(b.k);
        return x < y || (x == y && a.id < b.id);
    }
};
template<class Kt> struct ObjCount<El<Kt>> : ObjCount<Kt> {};
// strings in numeric order
struct OStr {
    static std::string mk(int k) {
        char b[64];
        snprintf(b, sizeof b, k % 3 ? "%06d" : "%06d, followed by text that needs the heap", k);
        return b;
    }
    static int rd(const std::string& s) { return s.empty() ? -7777 : atoi(s.c_str()); }
};
template<class Kt> struct BK {                       // key codec
    static Kt mk(int k) { return Codec<Kt>::mk(k); }
    static int rd(const Kt& k) { return Codec<Kt>::rd(k); }
};
template<> struct BK<std::string> : OStr {};
template<class T> struct BV : BK<T> {};              // mapped values: an empty string is the default value
template<> struct BV<std::string> : OStr { static int rd(const std::string& s) { return s.empty() ? 0 : OStr::rd(s); } };
template<class Kt> struct IsEl : std::false_type { using key = Kt; };
template<class Kt> struct IsEl<El<Kt>> : std::true_type { using key = Kt; };
template<class Kt> int krd(const Kt& k) { if constexpr (IsEl<Kt>::value) return Codec<typename IsEl<Kt>::key>::rd(k.k); else return BK<Kt>::rd(k); }

// ---------------------------------------------------------------- comparators; M: 1 ascending, -1 descending, 2 coarse (pairs of keys are equivalent)
template<int M> int rank_of(int k) { return M == 1 ? k : M == -1 ? -k : k / 2; }
template<int M>
struct Cmp {
    static constexpr int mode = M;
    template<class A> bool operator()(const A& a, const A& b) const { return rank_of<M>(krd(a)) < rank_of<M>(krd(b)); }
};
template<int M>
struct Cmp3 {
    static constexpr int mode = M;
    template<class A> gtl::weak_ordering operator()(const A& a, const A& b) const {
        int x = rank_of<M>(krd(a)), y = rank_of<M>(krd(b));
        return x < y ? gtl::weak_ordering::less : x > y ? gtl::weak_ordering::greater : gtl::weak_ordering::equivalent;
    }
};
// the order is chosen when a container is created and travels with its contents
struct CmpDyn {
    int dir = 1;
    template<class A> bool operator()(const A& a, const A& b) const { return dir == 1 ? krd(a) < krd(b) : krd(b) < krd(a); }
};
struct CmpDyn3 {
    int dir = 1;
    template<class A> gtl::weak_ordering operator()(const A& a, const A& b) const {
        int x = dir * krd(a), y = dir * krd(b);
        return x < y ? gtl::weak_ordering::less : x > y ? gtl::weak_ordering::greater : gtl::weak_ordering::equivalent;
    }
};
template<class C, class = void> struct ModeOf { static constexpr int value = 1; };
template<class C> struct ModeOf<C, std::void_t<decltype(C::mode)>> { static constexpr int value = C::mode; };
template<class T> struct ModeOf<std::greater<T>, void> { static constexpr int value = -1; };

template<class C> concept BMapped = requires { typename C::mapped_type; };
template<class C> concept BHasIrt = requires { typename C::insert_return_type; };

struct BProfile { const char* name; int ins, look, erk, eri, err, it, clr, ctor, cpy, mov, swp, cmp, ext, inn, mrg, eif, batch, idx; };
inline const BProfile kBProfiles[] = {
    //        ins look erk eri err it clr ctr cpy mov swp cmp ext inn mrg eif bat idx
    { "p11",  34, 30,  14, 8,  5,  4, 1,  1,  0,  0,  0,  0,  1,  1,  0,  1,  7,  5 },
    { "p13",  24, 6,   8,  3,  2,  5, 2,  4,  6,  6,  5,  8,  6,  7,  6,  3,  5,  2 },
    { "p05",  24, 2,   8,  5,  4,  2, 2,  4,  5,  5,  4,  2,  6,  7,  5,  3,  8,  3 },
};

template<class C>
class BTreeDriver {
public:
    static constexpr bool is_map = BMapped<C>;
    static constexpr bool multi = !BHasIrt<C>;
    using key_t = typename C::key_type;
    using val_t = typename C::value_type;
    template<class X> struct mapped_of { using type = int; };
    template<BMapped X> struct mapped_of<X> { using type = typename X::mapped_type; };
    using map_t = typename mapped_of<C>::type;
    using MC = BV<map_t>;
    using Alloc = typename C::allocator_type;
    static constexpr bool has_alloc_id = requires(Alloc a) { a.id; };
    static constexpr bool copyE = std::is_copy_constructible_v<key_t> && std::is_copy_constructible_v<map_t>;
    static constexpr int NC = 3, NH = 2;
    Rng r;
    int K;
    const BProfile& P;
    C* c[NC] = {};
    typename C::node_type h[NH];
    int vseq = 0;

    BTreeDriver(uint64_t seed, int K_, const BProfile& p) : r(seed), K(K_), P(p) { for (int i = 0; i < NC; ++i) c[i] = fresh(i, init_mode(i)); }
    ~BTreeDriver() { for (auto& x : h) x = typename C::node_type(); for (auto* p : c) delete p; }
    static Alloc mk_alloc(int i) { if constexpr (has_alloc_id) return Alloc(1 + (i & 1)); else { (void)i; return Alloc(); } }
    static int aid(const C& m) { if constexpr (has_alloc_id) return m.get_allocator().id; else { (void)m; return 0; } }
    using Comp = typename C::key_compare;
    static constexpr bool dyn = requires(Comp x) { x.dir; };
    static Comp mkcmp(int mode) { Comp x; if constexpr (dyn) x.dir = mode; else (void)mode; return x; }
    int pick_mode() { if constexpr (dyn) return r.chance(50) ? 1 : -1; else return ModeOf<Comp>::value; }
    static int mode_of(const C& m) { if constexpr (dyn) return m.key_comp().dir; else { (void)m; return ModeOf<Comp>::value; } }
    static int init_mode(int i) { if constexpr (dyn) return i == 1 ? -1 : 1; else { (void)i; return ModeOf<Comp>::value; } }
    C* fresh(int i, int mode) { return new C(mkcmp(mode), mk_alloc(i)); }
    int key() { return r.below(K); }
    int nv() { return 1 + (++vseq % 30000); }
    static key_t mkK(int k, int id) { if constexpr (IsEl<key_t>::value) return key_t(Codec<typename IsEl<key_t>::key>::mk(k), id); else { (void)id; return BK<key_t>::mk(k); } }
    static auto mkE(int k, int v) { if constexpr (is_map) return std::pair<key_t, map_t>(mkK(k, 0), MC::mk(v)); else return mkK(k, v); }
    static val_t mkV(int k, int v) { if constexpr (is_map) return val_t(mkK(k, 0), MC::mk(v)); else return mkK(k, v); }
    template<class E> static int rk(const E& e) { if constexpr (is_map) return krd(e.first); else return krd(e); }
    // sets of plain types cannot tell equivalent entries apart: their identity is 0
    static constexpr bool has_id = is_map || IsEl<key_t>::value;
    template<class E> static int rv(const E& e) { if constexpr (is_map) return MC::rd(e.second); else if constexpr (has_id) return e.id; else return 0; }
    int id_of(int v) { return has_id ? v : 0; }
    int sz(int i) { return (int)c[i]->size(); }
    template<class It> int pos(C& m, It it) { return (int)std::distance(typename C::const_iterator(m.begin()), typename C::const_iterator(it)); }
    template<class It> int itk(C& m, It it) { return it == m.end() ? -1 : rk(*it); }
    template<class It> int itv(C& m, It it) { return it == m.end() ? -1 : rv(*it); }
    typename C::iterator at_pos(C& m, int p) {
        if (r.chance(50)) { auto it = m.begin(); for (int i = 0; i < p; ++i) ++it; return it; }
        auto it = m.end();
        for (int i = (int)m.size(); i > p; --i) --it;
        return it;
    }
    L fwd(C& m) {
        L l;
        size_t n = 0;
        if (r.chance(50)) { for (auto it = m.begin(); it != m.end(); ++it) { l.add(rk(*it)).add(rv(*it)); if (++n > 20000) break; } }
        else { const C& cm = m; for (auto it = cm.cbegin(); it != cm.cend(); it++) { l.add(rk(*it)).add(rv(*it)); if (++n > 20000) break; } }
        return l;
    }
    L bwd(C& m) {
        L l;
        size_t n = 0;
        if (r.chance(50)) { for (auto it = m.rbegin(); it != m.rend(); ++it) { l.add(rk(*it)).add(rv(*it)); if (++n > 20000) break; } }
        else { const C& cm = m; auto it = cm.end(); while (it != cm.begin()) { it--; l.add(rk(*it)).add(rv(*it)); if (++n > 20000) break; } }
        return l;
    }

    // ------------------------------------------------------------------ insertion
    void op_ins(int i, int k = -1) {
        C& m = *c[i];
        if (k < 0) k = key();
        int v = nv();
        int var = r.below(10), fl = 2, hinted = 0;
        typename C::iterator it;
        auto hint = [&]() -> typename C::const_iterator {
            hinted = 1;
            switch (r.below(6)) {
            case 0: return m.begin();
            case 1: return m.end();
            case 2: return m.lower_bound(mkK(k, 0));
            case 3: return m.upper_bound(mkK(k, 0));
            case 4: { auto x = m.lower_bound(mkK(k, 0)); if (x != m.begin()) --x; return x; }
            default: return at_pos(m, r.below(sz(i) + 1));
            }
        };
        auto both = [&](auto pr) {
            if constexpr (requires { pr.second; }) { fl = pr.second; it = pr.first; } else { fl = 2; it = pr; }
        };
        switch (var) {
        case 0: if constexpr (copyE) { const val_t e = mkV(k, v); both(m.insert(e)); break; } [[fallthrough]];
        case 1: both(m.insert(mkV(k, v))); break;
        case 2: if constexpr (is_map) both(m.emplace(mkK(k, v), MC::mk(v))); else both(m.emplace(mkK(k, v))); break;
        case 3: if constexpr (copyE) { auto hh = hint(); const val_t e = mkV(k, v); it = m.insert(hh, e); break; } [[fallthrough]];
        case 4: { auto hh = hint(); it = m.insert(hh, mkV(k, v)); break; }
        case 5: { auto hh = hint(); if constexpr (is_map) it = m.emplace_hint(hh, mkK(k, v), MC::mk(v)); else it = m.emplace_hint(hh, mkK(k, v)); break; }
        case 6: if constexpr (is_map && !multi) { if constexpr (std::is_copy_constructible_v<key_t>) { const key_t kk = mkK(k, v); both(m.try_emplace(kk, MC::mk(v))); break; } } both(m.insert(mkV(k, v))); break;
        case 7: if constexpr (is_map && !multi) both(m.try_emplace(mkK(k, v), MC::mk(v))); else both(m.insert(mkV(k, v))); break;
        case 8: if constexpr (is_map && !multi) { auto hh = hint(); it = m.try_emplace(hh, mkK(k, v), MC::mk(v)); } else both(m.insert(mkV(k, v))); break;
        case 9: if constexpr (is_map) both(m.emplace(std::piecewise_construct, std::forward_as_tuple(mkK(k, v)), std::forward_as_tuple(MC::mk(v)))); else both(m.insert(mkV(k, v))); break;
        }
        T().ev("ins", i + 1, k, id_of(v), hinted, fl, pos(m, it), itk(m, it), itv(m, it), sz(i));
    }
    void op_idx(int i) {
        if constexpr (is_map && !multi) {
            C& m = *c[i];
            int k = key(), v = r.chance(70) ? nv() : -2;
            map_t* p = r.chance(50) ? &m[mkK(k, 0)] : nullptr;
            if (!p) { if constexpr (std::is_copy_constructible_v<key_t>) { const key_t kk = mkK(k, 0); p = &m[kk]; } else p = &m[mkK(k, 0)]; }
            int old = MC::rd(*p);
            if (v != -2) *p = MC::mk(v);
            T().ev("idx", i + 1, k, old, v, sz(i));
        } else op_ins(i);
    }
    void op_ilist(int i) {
        if constexpr (copyE) {
            C& m = *c[i];
            int n = r.below(r.chance(25) ? 24 : 5), base = key(), up = r.below(3);
            std::vector<decltype(mkE(0, 0))> xs;
            L l;
            for (int q = 0; q < n; ++q) {
                int k = up == 0 ? key() : up == 1 ? (base + q / 2) % K : (base + 30 * K - q) % K, v = nv();
                xs.push_back(mkE(k, v));
                l.add(k).add(id_of(v));
            }
            int var = r.below(3);
            if (var == 0 || xs.size() != 2) m.insert(xs.begin(), xs.end());
            else if (var == 1) m.insert({ xs[0], xs[1] });
            else m.insert(std::make_move_iterator(xs.begin()), std::make_move_iterator(xs.end()));
            T().ev("insl", i + 1, l, sz(i));
        } else op_ins(i);
    }

    // ------------------------------------------------------------------ lookups
    void op_look(int i) {
        C& m = *c[i];
        const C& cm = m;
        int k = key(), var = r.below(11);
        key_t kk = mkK(k, 0);
        switch (var) {
        case 0: { auto it = m.find(kk); T().ev("find", i + 1, k, it == m.end() ? -1 : pos(m, it), itk(m, it), itv(m, it), sz(i)); break; }
        case 1: { auto it = cm.find(kk); T().ev("find", i + 1, k, it == cm.end() ? -1 : pos(m, it), it == cm.end() ? -1 : rk(*it), it == cm.end() ? -1 : rv(*it), sz(i)); break; }
        case 2: T().ev("has", i + 1, k, cm.contains(kk) ? 1 : 0, sz(i)); break;
        case 3: case 4: T().ev("cnt", i + 1, k, (int)cm.count(kk), sz(i)); break;
        case 5: { auto it = m.lower_bound(kk); T().ev("lb", i + 1, k, pos(m, it), itk(m, it), itv(m, it), sz(i)); break; }
        case 6: { auto it = m.upper_bound(kk); T().ev("ub", i + 1, k, pos(m, it), itk(m, it), itv(m, it), sz(i)); break; }
        case 7: { auto it = cm.lower_bound(kk); T().ev("lb", i + 1, k, pos(m, it), it == cm.end() ? -1 : rk(*it), it == cm.end() ? -1 : rv(*it), sz(i)); break; }
        case 8: { auto it = cm.upper_bound(kk); T().ev("ub", i + 1, k, pos(m, it), it == cm.end() ? -1 : rk(*it), it == cm.end() ? -1 : rv(*it), sz(i)); break; }
        case 9: {
            if (r.chance(50)) { auto pr = m.equal_range(kk); T().ev("eqr", i + 1, k, pos(m, pr.first), pos(m, pr.second), (int)std::distance(pr.first, pr.second), sz(i)); }
            else { auto pr = cm.equal_range(kk); T().ev("eqr", i + 1, k, pos(m, pr.first), pos(m, pr.second), (int)std::distance(pr.first, pr.second), sz(i)); }
            break;
        }
        case 10:
            if constexpr (is_map && !multi) {
                int v;
                try { v = r.chance(50) ? MC::rd(m.at(kk)) : MC::rd(cm.at(kk)); } catch (const std::out_of_range&) { v = -1; }
                T().ev("at", i + 1, k, v, sz(i));
            } else {
                // another key value of the same class, or a key far outside
                int q = r.chance(50) ? K - 1 : 0;
                auto it = m.lower_bound(mkK(q, 0));
                T().ev("lb", i + 1, q, pos(m, it), itk(m, it), itv(m, it), sz(i));
            }
            break;
        }
    }

    // ------------------------------------------------------------------ erasure
    void op_erk(int i, int k = -1) { if (k < 0) k = key(); int n = (int)c[i]->erase(mkK(k, 0)); T().ev("erk", i + 1, k, n, sz(i)); }
    void op_eri(int i) {
        C& m = *c[i];
        if (m.empty()) return op_ins(i);
        int p = r.chance(20) ? 0 : r.chance(20) ? sz(i) - 1 : r.below(sz(i));
        auto it = at_pos(m, p);
        typename C::iterator nx = r.chance(50) ? m.erase(it) : m.erase(typename C::const_iterator(it));
        T().ev("eri", i + 1, p, pos(m, nx), itk(m, nx), itv(m, nx), sz(i));
    }
    void op_err(int i) {
        C& m = *c[i];
        int n = sz(i), a = r.below(n + 1), b = r.chance(60) ? std::min(n, a + r.below(9)) : r.range(a, n);
        if (r.chance(8)) { a = 0; b = n; }
        auto f = at_pos(m, a), g = at_pos(m, b);
        auto nx = m.erase(typename C::const_iterator(f), typename C::const_iterator(g));
        T().ev("err", i + 1, a, b, pos(m, nx), itk(m, nx), itv(m, nx), sz(i));
    }
    void op_eif(int i) {
        C& m = *c[i];
        int a = r.range(1, 5), b = r.below(a);
        L called;
        gtl::erase_if(m, [&](const auto& e) { called.add(rk(e)); return rk(e) % a == b; });
        T().ev("eif", i + 1, a, b, called, sz(i));
    }
    void op_clr(int i) { c[i]->clear(); T().ev("clr", i + 1, sz(i)); }
    // what the comparison objects a container hands out say about two keys
    void op_comp(int i) {
        const C& m = *c[i];
        int k = key(), q = key();
        auto less = [](auto x) { if constexpr (std::is_same_v<decltype(x), bool>) return x ? 1 : 0; else return x < 0 ? 1 : 0; };
        int a = less(m.key_comp()(mkK(k, 0), mkK(q, 0))), b = less(m.value_comp()(mkV(k, 1), mkV(q, 2)));
        T().ev("comp", i + 1, k, q, a, b, sz(i));
    }
    void op_it(int i) { if (r.chance(30)) op_comp(i); C& m = *c[i]; L f = fwd(m), b = bwd(m); T().ev("it", i + 1, f, b, m.empty() ? 1 : 0, sz(i)); }

    void op_batch(int i) {
        C& m = *c[i];
        int lo = key(), hi = std::min(K, lo + 1 + r.below(K / (r.chance(30) ? 1 : 4) + 2)), st = r.range(K > 1000 && !linear() ? 2 : 1, 3), var = r.below(4), n = 0, v = nv();
        if (var == 0) { for (int k = lo; k < hi; k += st) { auto b = m.size(); m.insert(mkV(k, v)); n += (int)(m.size() - b); } T().ev("bins", i + 1, lo, hi, st, 1, id_of(v), n, sz(i)); }
        else if (var == 1) { int q = (hi - 1 - lo) / st; for (; q >= 0; --q) { auto b = m.size(); m.insert(mkV(lo + q * st, v)); n += (int)(m.size() - b); } T().ev("bins", i + 1, lo, hi, st, -1, id_of(v), n, sz(i)); }
        else if (var == 2) { for (int k = lo; k < hi; k += st) n += (int)m.erase(mkK(k, 0)); T().ev("ber", i + 1, lo, hi, st, n, sz(i)); }
        else { int q = (hi - 1 - lo) / st; for (; q >= 0; --q) n += (int)m.erase(mkK(lo + q * st, 0)); T().ev("ber", i + 1, lo, hi, st, n, sz(i)); }
    }

    static bool linear() { int o = ModeOf<typename C::key_compare>::value; return o == 1 || o == -1; }       // no two keys are equivalent
    // all keys (large trees)
    void op_fill(int i) {
        C& m = *c[i];
        int st = linear() && r.chance(60) ? 1 : r.range(2, 4), dir = r.chance(50) ? 1 : -1, v = nv(), n = 0, last = (K - 1) / st;
        for (int q = 0; q <= last; ++q) { auto b = m.size(); m.insert(mkV((dir > 0 ? q : last - q) * st, v)); n += (int)(m.size() - b); }
        T().ev("bins", i + 1, 0, K, st, dir, id_of(v), n, sz(i));
    }

    // ------------------------------------------------------------------ whole containers
    void op_ctor(int i) {
        int mode = pick_mode();
        if constexpr (copyE) {
            int n = r.below(20);
            std::vector<decltype(mkE(0, 0))> xs;
            L l;
            for (int q = 0; q < n; ++q) { int k = key(), v = nv(); xs.push_back(mkE(k, v)); l.add(k).add(id_of(v)); }
            delete c[i];
            c[i] = nullptr;
            if (n == 3 || r.chance(15)) {
                if (n < 3) { c[i] = new C(xs.begin(), xs.end(), mkcmp(mode), mk_alloc(i)); }
                else {
                    l = L();
                    for (int q = 0; q < 3; ++q) l.add(rk(xs[q])).add(id_of(rv(xs[q])));
                    c[i] = new C({ xs[0], xs[1], xs[2] }, mkcmp(mode), mk_alloc(i));
                }
            } else c[i] = new C(xs.begin(), xs.end(), mkcmp(mode), mk_alloc(i));
            T().ev("new", i + 1, l, mode, sz(i));
        } else { delete c[i]; c[i] = fresh(i, mode); T().ev("new", i + 1, L(), mode, sz(i)); }
    }
    void op_cpy(int i) {
        if constexpr (copyE) {
            int j = r.below(NC);
            if (r.chance(50)) {
                if (i == j) j = (j + 1) % NC;
                AlEv<Alloc> al(c[i], c[j]);
                C* x = new C(*c[j]); delete c[i]; c[i] = x;
                al.done("cc", 0, *c[i], *c[j]);
            } else {
                AlEv<Alloc> al(c[i], c[j]);
                *c[i] = *static_cast<const C*>(c[j]);
                al.done("ca", 0, *c[i], *c[j]);
            }
            T().ev("cpy", i + 1, j + 1, sz(j), sz(i));
        } else op_mov(i);
    }
    void op_mov(int i) {
        int j = (i + 1 + r.below(NC - 1)) % NC;
        AlEv<Alloc> al(c[i], c[j]);
        if (r.chance(50)) { C* x = new C(std::move(*c[j])); delete c[i]; c[i] = x; al.done("mc", 0, *c[i], *c[j]); }
        else { *c[i] = std::move(*c[j]); }         // which trait decides is left open
        (void)c[j]->size();
        (void)c[j]->contains(mkK(key(), 0));
        for (auto it = c[j]->begin(); it != c[j]->end(); ++it) (void)*it;
        if (r.chance(50)) c[j]->clear(); else { delete c[j]; c[j] = fresh(j, pick_mode()); }
        T().ev("mov", i + 1, j + 1, sz(j), sz(i));
        T().ev("ordof", j + 1, mode_of(*c[j]));
    }
    void op_swp(int i) {
        int j = r.below(NC);
        if constexpr (has_alloc_id) if (!std::allocator_traits<Alloc>::propagate_on_container_swap::value && aid(*c[i]) != aid(*c[j])) j = i;
        using std::swap;
        AlEv<Alloc> al(c[i], c[j]);
        if (r.chance(50)) c[i]->swap(*c[j]); else swap(*c[i], *c[j]);
        al.done("sw", 0, *c[i], *c[j]);
        T().ev("swp", i + 1, j + 1, sz(j), sz(i));
    }
    void op_cmp(int i) {
        if constexpr (!std::is_same_v<map_t, std::unique_ptr<int>> && requires(val_t& a) { { a == a } -> std::convertible_to<bool>; { a < a } -> std::convertible_to<bool>; }) {
            int j = r.below(NC);
            if constexpr (copyE) if (r.chance(60)) {                  // make them equal, or nearly so
                if (i == j) j = (j + 1) % NC;
                C* x = new C(*c[i]);
                delete c[j];
                c[j] = x;
                T().ev("cpy", j + 1, i + 1, sz(i), sz(j));
                int tw = r.below(4);
                if (tw == 1) op_erk(j);
                if (tw == 2) op_ins(j);
                if (tw == 3) op_idx(j);
            }
            const C &a = *c[i], &b = *c[j];
            T().ev("cmp", i + 1, j + 1, a == b ? 1 : 0, a != b ? 1 : 0, a < b ? 1 : 0, a > b ? 1 : 0, a <= b ? 1 : 0, a >= b ? 1 : 0, sz(i));
        } else op_look(i);
    }
    int nk(typename C::node_type& n) { if (n.empty()) return -1; if constexpr (is_map) return krd(n.key()); else return krd(n.value()); }
    int nvl(typename C::node_type& n) { if (n.empty()) return -1; if constexpr (is_map) return MC::rd(n.mapped()); else return rv(n.value()); }
    void op_ext(int i) {
        C& m = *c[i];
        int s = r.below(NH), k = key(), p = -1;
        if (r.chance(50) || m.empty()) {
            auto it = m.find(mkK(k, 0));
            p = it == m.end() ? -1 : pos(m, it);
            h[s] = m.extract(mkK(k, 0));
            T().ev("extk", i + 1, k, s + 1, nk(h[s]), nvl(h[s]), sz(i));
        } else {
            p = r.below(sz(i));
            auto it = at_pos(m, p);
            if (r.chance(50)) h[s] = m.extract(it); else h[s] = m.extract(typename C::const_iterator(it));
            T().ev("exti", i + 1, p, s + 1, nk(h[s]), nvl(h[s]), sz(i));
        }
        if (r.chance(25)) { int t = (s + 1) % NH; h[t] = std::move(h[s]); T().ev("nmov", s + 1, t + 1, nk(h[s]), nk(h[t]), nvl(h[t])); }
    }
    void op_inn(int i) {
        int s = r.below(NH);
        if constexpr (has_alloc_id) if (!h[s].empty() && h[s].get_allocator().id != aid(*c[i])) {
            int j = 0;
            for (; j < NC; ++j) if (aid(*c[j]) == h[s].get_allocator().id) break;
            if (j == NC) return;
            i = j;
        }
        C& m = *c[i];
        int fl = 2, hinted = 0;
        typename C::iterator it;
        if (r.chance(60)) {
            if constexpr (!multi) { auto res = m.insert(std::move(h[s])); fl = res.inserted; it = res.position; h[s] = std::move(res.node); }
            else it = m.insert(std::move(h[s]));
        } else {
            hinted = 1;
            it = m.insert(typename C::const_iterator(at_pos(m, r.below(sz(i) + 1))), std::move(h[s]));
        }
        T().ev("inn", i + 1, s + 1, hinted, fl, it == m.end() ? -1 : pos(m, it), itk(m, it), itv(m, it), nk(h[s]), nvl(h[s]), sz(i));
    }
    void op_mrg(int i) {
        int j = (i + 1 + r.below(NC - 1)) % NC;
        if constexpr (has_alloc_id) if (aid(*c[i]) != aid(*c[j])) return op_look(i);
        if (K > 1000 && sz(j) > 120) return op_look(i);
        if (r.chance(80)) c[i]->merge(*c[j]); else c[i]->merge(std::move(*c[j]));
        L l = fwd(*c[i]);
        T().ev("mrg", i + 1, j + 1, l, sz(j), sz(i));
    }

    static constexpr int objs = ObjCount<key_t>::value + (is_map ? ObjCount<map_t>::value : 0);

    void step(int i) {
        const BProfile& p = P;
        switch (r.pick({ p.ins, p.look, p.erk, p.eri, p.err, p.it, p.clr, p.ctor, p.cpy, p.mov, p.swp, p.cmp, p.ext, p.inn, p.mrg, p.eif, p.batch, p.idx, 3 })) {
        case 0: op_ins(i); break;
        case 1: op_look(i); break;
        case 2: op_erk(i); break;
        case 3: op_eri(i); break;
        case 4: op_err(i); break;
        case 5: op_it(i); break;
        case 6: op_clr(i); break;
        case 7: op_ctor(i); break;
        case 8: op_cpy(i); break;
        case 9: op_mov(i); break;
        case 10: op_swp(i); break;
        case 11: op_cmp(i); break;
        case 12: op_ext(i); break;
        case 13: op_inn(i); break;
        case 14: op_mrg(i); break;
        case 15: op_eif(i); break;
        case 16: op_batch(i); break;
        case 17: op_idx(i); break;
        case 18: op_ilist(i); break;
        }
    }
    void run(int events) {
        int ph = 0, left = 0, run_k = 0, cap = r.chance(50) ? 60 : 250;
        if (K > 1000) { cap = 2 * K; op_fill(0); }
        bool account = objs && !strcmp(P.name, "p05");
        while ((int)T().count() < events) {
            if (account && r.chance(70)) T().ev("acct", (int)g_acct.live);
            if (left-- <= 0) { ph = r.below(7); left = r.range(10, 90); run_k = key(); }
            int i = r.chance(75) ? 0 : r.below(NC);
            if (sz(i) > cap) { if (r.chance(50)) op_err(i); else op_batch(i); if (sz(i) > 2 * cap) op_clr(i); continue; }
            if (K > 1000 && r.chance(12)) { if (r.chance(30)) op_fill(i); else op_batch(i); }
            else if (ph == 1 && r.chance(60)) op_ins(i);
            else if (ph == 2 && r.chance(60)) { if (r.chance(50)) op_erk(i); else op_eri(i); }
            else if (ph == 3 && r.chance(80)) { op_ins(i, run_k % K); ++run_k; }              // ascending run
            else if (ph == 4 && r.chance(80)) { op_ins(i, (K - run_k % K) % K); ++run_k; }    // descending run
            else if (ph == 5 && r.chance(70)) { op_erk(i, run_k % K); ++run_k; }
            else step(i);
        }
        for (int i = 0; i < NC; ++i) op_it(i);
    }
};

template<class C>
void run_btree(const char* name, const Args& a, int cfg_index) {
    if (!a.only.empty() && a.only != name) return;
    using D = BTreeDriver<C>;
    const BProfile* P = &kBProfiles[0];
    for (auto& p : kBProfiles) if (a.profile == p.name) P = &p;
    for (int t = 0; t < a.traces; ++t) {
        if (a.only_trace >= 0 && t != a.only_trace) continue;
        uint64_t seed = a.seed * 1000003u + (uint64_t)cfg_index * 7919u + (uint64_t)a.shard * 104729u + (uint64_t)t;
        Rng r(seed);
        static const int Ks[] = { 5, 12, 30, 60, 100, 160, 260, 400 };
        int K = Ks[r.below(8)];
        if (a.shard >= 10) K = r.chance(50) ? 2500 : 6000;     // large trees
        T().begin("\"cfg\":\"" + std::string(name) + "\",\"seed\":" + std::to_string(a.seed) + ",\"t\":" + std::to_string(t) + ",\"shard\":" +
                  std::to_string(a.shard) + ",\"K\":" + std::to_string(K) + ",\"ord\":" + std::to_string(ModeOf<typename C::key_compare>::value) +
                  ",\"ords\":[" + std::to_string(D::init_mode(0)) + "," + std::to_string(D::init_mode(1)) + "," + std::to_string(D::init_mode(2)) + "],\"multi\":" + (D::multi ? "1" : "0") + ",\"objs\":" + std::to_string(D::objs));
        budget(30);
        T().warm();
        book();
        g_acct = Acct();
        long h0 = g_heap;
        { D d(seed, K, *P); d.run(a.events); }
        if (a.profile == "p05") T().ev("fin", (int)g_acct.live, (int)book().live.size(), (int)(g_heap - h0));
        book().live.clear();
        budget(0);
        T().end();
    }
}
} // namespace vt
