// Driver for gtl::vector.  Specification: spec/VecTrace.tla.
#pragma once
#include "heap.hpp"
#include "elements.hpp"
#include <gtl/vector.hpp>
#include <list>
#include <sstream>
#include <iterator>

namespace vt {

struct VProfile { const char* name; int acct, faults; };
inline const VProfile kVProfiles[] = { { "p14", 0, 0 }, { "p05", 1, 0 }, { "p06", 1, 45 } };

// single-pass iterator over ints, producing elements
template<class E>
struct InIt {
    using iterator_category = std::input_iterator_tag;
    using value_type = E;
    using difference_type = std::ptrdiff_t;
    using pointer = const E*;
    using reference = E;
    std::vector<int>* src;
    int i;
    E operator*() const { return Codec<E>::mk((*src)[i]); }
    InIt& operator++() { ++i; return *this; }
    InIt operator++(int) { auto x = *this; ++i; return x; }
    friend bool operator==(const InIt& a, const InIt& b) { return a.i == b.i; }
    friend bool operator!=(const InIt& a, const InIt& b) { return a.i != b.i; }
};
template<class E> struct IsObj : std::false_type {};
template<int F> struct IsObj<ObjT<F>> : std::true_type {};

template<class C>
class VecDriver {
public:
    using E = typename C::value_type;
    using CD = Codec<E>;
    using Alloc = typename C::allocator_type;
    static constexpr bool has_alloc_id = requires(Alloc a) { a.id; };
    static constexpr bool copyE = std::is_copy_constructible_v<E>;
    static constexpr bool obj = IsObj<E>::value;
    static constexpr int NC = 3;
    Rng r;
    const VProfile& P;
    C* c[NC] = {};
    int vseq = 0, maxn;
    // what a throw may have left behind
    int tc = 0, td = 0, tkind = 1;

    VecDriver(uint64_t seed, const VProfile& p) : r(seed), P(p) {
        static const int M[] = { 4, 10, 24, 70 };
        maxn = r.chance(6) ? 1400 : M[r.below(4)];
        for (int i = 0; i < NC; ++i) c[i] = fresh(i);
    }
    ~VecDriver() { for (auto* p : c) delete p; }
    static Alloc mk_alloc(int i) { if constexpr (has_alloc_id) return Alloc(1 + (i & 1)); else { (void)i; return Alloc(); } }
    static int aid(const C& m) { if constexpr (has_alloc_id) return m.get_allocator().id; else { (void)m; return 0; } }
    C* fresh(int i) { return new C(mk_alloc(i)); }
    int nv() { vseq = (vseq + 1) % (P.name[1] == '1' && r.chance(50) ? 7 : 5000); return 1 + vseq; }
    int sz(int i) { return (int)c[i]->size(); }
    const void* dp[NC];
    void before(int i) { dp[i] = c[i]->data(); }
    int same(int i) { return dp[i] == (const void*)c[i]->data() ? 1 : 0; }
#define FIN same(i), (int)c[i]->capacity(), sz(i)
    template<class It> int pos(int i, It it) { return (int)(typename C::const_iterator(it) - c[i]->cbegin()); }
    L list(C& m) { L l; for (auto& x : m) l.add(CD::rd(x)); return l; }
    std::vector<int> vals(int n) { std::vector<int> v(n); for (auto& x : v) x = nv(); return v; }
    static L lst(const std::vector<int>& v) { L l; for (int x : v) l.add(x); return l; }
    static std::vector<E> elems(const std::vector<int>& v) { std::vector<E> e; e.reserve(v.size()); for (int x : v) e.push_back(CD::mk(x)); return e; }
    int count() { return r.chance(70) ? r.below(5) : r.below(maxn + 2); }
    int at(int i) { int n = sz(i); int w = r.below(5); return w == 0 ? 0 : w == 1 ? n : w == 2 && n ? n - 1 : r.below(n + 1); }
    void see(int i) {
        if (sz(i) > 24 && !r.chance(sz(i) > 200 ? 3 : 25)) return;
        before(i);
        C& m = *c[i];
        L f = list(m), b;
        if (r.chance(50)) for (auto it = m.rbegin(); it != m.rend(); ++it) b.add(CD::rd(*it));
        else { const C& cm = m; for (auto it = cm.crbegin(); it != cm.crend(); ++it) b.add(CD::rd(*it)); }
        T().ev("it", i + 1, f, b, m.empty() ? 1 : 0, FIN);
    }

    void arm(int i, int kind, int d = -1) {
        tc = i; td = d < 0 ? i : d; tkind = kind;
        if (!P.faults || !r.chance(P.faults)) return;
        int n = 1 + (r.chance(70) ? r.below(4) : r.below(24));
        if (r.chance(75)) g_throw_obj = n; else g_throw_alloc = 1;
    }
    void disarm() { g_throw_obj = g_throw_alloc = g_throw_eq = g_throw_hash = 0; }

    // ------------------------------------------------------------------ operations
    void op_push(int i) {
        C& m = *c[i];
        int v = nv(), own = copyE && !m.empty() && r.chance(25), p = own ? r.below(sz(i)) : 0, ret;
        before(i);
        arm(i, 1);
        if (own) {
            if constexpr (copyE) {
                if (r.chance(50)) { m.push_back(m[p]); } else { auto& x = m.emplace_back(m[p]); if (&x != &m.back()) bad("bad_reference_returned"); }
            }
        } else switch (r.below(4)) {
            case 0: if constexpr (copyE) { const E e = CD::mk(v); m.push_back(e); break; } [[fallthrough]];
            case 1: m.push_back(CD::mk(v)); break;
            case 2: { auto& x = m.emplace_back(CD::mk(v)); if (&x != &m.back()) bad("bad_reference_returned"); break; }
            case 3: if constexpr (std::is_constructible_v<E, int> && obj) { m.emplace_back(v); } else m.emplace_back(CD::mk(v)); break;
        }
        disarm();
        ret = CD::rd(m.back());
        T().ev("push", i + 1, own ? 1 : 0, own ? p : v, ret, FIN);
    }
    void op_pushn(int i) {                                          // a run of insertions at the end, across growth steps
        C& m = *c[i];
        int n = r.below(maxn + 1), v = nv();
        before(i);
        for (int q = 0; q < n; ++q) { if (q & 1) m.push_back(CD::mk(v + q)); else m.emplace_back(CD::mk(v + q)); }
        T().ev("pushn", i + 1, v, n, FIN);
    }
    void op_pop(int i) {
        if (c[i]->empty()) return op_push(i);
        before(i);
        c[i]->pop_back();
        T().ev("pop", i + 1, FIN);
    }
    void op_ins(int i) {
        C& m = *c[i];
        int p = at(i), v = nv(), n = 1, own = 0, src = v;
        typename C::iterator it;
        before(i);
        arm(i, p == sz(i) ? 1 : 0);
        auto cp = m.cbegin() + p;
        switch (r.below(7)) {
        case 0: if constexpr (copyE) { const E e = CD::mk(v); it = m.insert(cp, e); break; } [[fallthrough]];
        case 1: it = m.insert(cp, CD::mk(v)); break;
        case 2: it = m.emplace(cp, CD::mk(v)); break;
        case 3: if constexpr (obj) it = m.emplace(cp, v); else it = m.emplace(cp, CD::mk(v)); break;
        case 4: case 5:
            if constexpr (copyE) {                                  // n copies, possibly of an element of the vector itself
                n = count();
                if (!m.empty() && r.chance(50)) { own = 1; src = r.below(sz(i)); it = m.insert(cp, n, m[src]); }
                else { const E e = CD::mk(v); it = m.insert(cp, n, e); }
                break;
            }
            [[fallthrough]];
        case 6:
            if constexpr (copyE) if (!m.empty()) { own = 1; src = r.below(sz(i)); if (r.chance(50)) it = m.insert(cp, m[src]); else it = m.emplace(cp, m[src]); break; }
            it = m.insert(cp, CD::mk(v));
            break;
        }
        disarm();
        T().ev("ins", i + 1, p, n, own, src, pos(i, it), FIN);
    }
    void op_insr(int i) {
        C& m = *c[i];
        int p = at(i);
        auto vs = vals(count());
        typename C::iterator it;
        before(i);
        arm(i, 0);
        auto cp = m.cbegin() + p;
        switch (r.below(5)) {
        case 0: if constexpr (copyE) { std::vector<E> e = elems(vs); it = m.insert(cp, e.begin(), e.end()); break; } [[fallthrough]];
        case 1: { std::vector<E> e = elems(vs); it = m.insert(cp, std::make_move_iterator(e.begin()), std::make_move_iterator(e.end())); break; }
        case 2: it = m.insert(cp, InIt<E>{ &vs, 0 }, InIt<E>{ &vs, (int)vs.size() }); break;
        case 3: if constexpr (copyE) { std::list<E> e; for (int x : vs) e.push_back(CD::mk(x)); it = m.insert(cp, e.begin(), e.end()); break; } [[fallthrough]];
        case 4:
            if constexpr (copyE) { vs = vals(3); it = m.insert(cp, { CD::mk(vs[0]), CD::mk(vs[1]), CD::mk(vs[2]) }); break; }
            else { it = m.insert(cp, InIt<E>{ &vs, 0 }, InIt<E>{ &vs, (int)vs.size() }); break; }
        }
        disarm();
        T().ev("insr", i + 1, p, lst(vs), pos(i, it), FIN);
    }
    void op_er(int i) {
        C& m = *c[i];
        int n = sz(i);
        before(i);
        arm(i, 0);
        if (n && r.chance(50)) {
            int p = r.chance(30) ? n - 1 : r.below(n);
            auto it = m.erase(m.cbegin() + p);
            disarm();
            T().ev("er", i + 1, p, p + 1, pos(i, it), FIN);
        } else {
            int a = r.below(n + 1), b = r.chance(30) ? n : r.range(a, n);
            auto it = m.erase(m.cbegin() + a, m.cbegin() + b);
            disarm();
            T().ev("er", i + 1, a, b, pos(i, it), FIN);
        }
    }
    void op_resz(int i) {
        C& m = *c[i];
        int n = r.below(maxn), own = 0, v = 0;
        if (r.chance(40)) n = sz(i) + r.range(-2, 3);
        if (n < 0) n = 0;
        before(i);
        arm(i, 1);
        if constexpr (copyE) {
            if (r.chance(60)) {
                if (!m.empty() && r.chance(50)) { own = 1; v = r.below(sz(i)); m.resize(n, m[v]); }
                else { v = nv(); const E e = CD::mk(v); m.resize(n, e); }
            } else m.resize(n);
        } else m.resize(n);
        disarm();
        T().ev("resz", i + 1, n, own, v, FIN);
    }
    void op_asg(int i) {
        C& m = *c[i];
        if constexpr (copyE) {
            if (r.chance(50)) {
                int n = r.below(maxn), own = 0, v;
                before(i);
                arm(i, 0);
                if (!m.empty() && r.chance(50)) { own = 1; v = r.below(sz(i)); m.assign(n, m[v]); }
                else { v = nv(); const E e = CD::mk(v); m.assign(n, e); }
                disarm();
                T().ev("asg", i + 1, n, own, v, FIN);
                return;
            }
        }
        auto vs = vals(count());
        before(i);
        arm(i, 0);
        switch (r.below(5)) {
        case 0: if constexpr (copyE) { auto e = elems(vs); m.assign(e.begin(), e.end()); break; } [[fallthrough]];
        case 1: if constexpr (std::is_move_assignable_v<E>) { m.assign(InIt<E>{ &vs, 0 }, InIt<E>{ &vs, (int)vs.size() }); break; } [[fallthrough]];
        case 2: if constexpr (copyE) { vs = vals(2); m.assign({ CD::mk(vs[0]), CD::mk(vs[1]) }); break; } [[fallthrough]];
        case 3: if constexpr (copyE) { vs = vals(3); m = { CD::mk(vs[0]), CD::mk(vs[1]), CD::mk(vs[2]) }; break; } [[fallthrough]];
        default: { auto e = elems(vs); m.assign(std::make_move_iterator(e.begin()), std::make_move_iterator(e.end())); break; }
        }
        disarm();
        T().ev("asgr", i + 1, lst(vs), FIN);
    }
    void op_cap(int i) {
        C& m = *c[i];
        before(i);
        switch (r.below(5)) {
        case 0: m.clear(); T().ev("clr", i + 1, FIN); break;
        case 1: case 2: arm(i, 1); m.shrink_to_fit(); disarm(); T().ev("shr", i + 1, FIN); break;
        case 3: case 4: {
            int n = r.chance(50) ? r.below(maxn + 4) : (int)m.capacity() + r.range(-1, 2);
            if (n < 0) n = 0;
            arm(i, 1); m.reserve(n); disarm();
            T().ev("resv", i + 1, n, FIN);
            break;
        }
        }
    }
    void op_set(int i) {
        C& m = *c[i];
        if (m.empty()) return op_push(i);
        int p = r.below(sz(i)), v = nv();
        before(i);
        arm(i, 1);
        switch (r.below(5)) {
        case 0: m[p] = CD::mk(v); break;
        case 1: m.at(p) = CD::mk(v); break;
        case 2: *(m.begin() + p) = CD::mk(v); break;
        case 3: p = 0; m.front() = CD::mk(v); break;
        case 4: p = sz(i) - 1; m.back() = CD::mk(v); break;
        }
        disarm();
        T().ev("set", i + 1, p, v, FIN);
    }
    void op_get(int i) {
        C& m = *c[i];
        const C& cm = m;
        int p = r.chance(20) ? sz(i) + r.below(3) : at(i), v = -1;
        before(i);
        if (r.chance(50) || p >= sz(i)) {
            try { v = r.chance(50) ? CD::rd(m.at(p)) : CD::rd(cm.at(p)); } catch (const std::out_of_range&) { v = -1; }
        } else {
            int w = r.below(4);
            if (w == 0) { p = 0; v = CD::rd(cm.front()); }
            else if (w == 1) { p = sz(i) - 1; v = CD::rd(cm.back()); }
            else if (w == 2) v = CD::rd(cm.data()[p]);
            else v = CD::rd(cm[p]);
        }
        T().ev("get", i + 1, p, v, FIN);
    }
    void op_new(int i) {
        before(i);
        C* x = nullptr;
        int w = r.below(5);
        auto vs = vals(count());
        L l = lst(vs);
        arm(i, 1);
        if (w == 0) { int n = count(); x = new C(n, mk_alloc(i)); l = L(); for (int q = 0; q < n; ++q) l.add(0); }
        else if (w == 1 && copyE) { if constexpr (copyE) { int n = count(); const E e = CD::mk(n + 3); x = new C(n, e, mk_alloc(i)); l = L(); for (int q = 0; q < n; ++q) l.add(n + 3); } }
        else if (w == 2 && copyE) { if constexpr (copyE) { vs = vals(3); l = lst(vs); x = new C({ CD::mk(vs[0]), CD::mk(vs[1]), CD::mk(vs[2]) }, mk_alloc(i)); } }
        else if (w == 3) x = new C(InIt<E>{ &vs, 0 }, InIt<E>{ &vs, (int)vs.size() }, mk_alloc(i));
        else { std::vector<E> e = elems(vs); x = new C(std::make_move_iterator(e.begin()), std::make_move_iterator(e.end()), mk_alloc(i)); }
        disarm();
        delete c[i];
        c[i] = x;
        T().ev("new", i + 1, l, FIN);
    }
    void op_cpy(int i) {
        if constexpr (copyE) {
            int j = r.below(NC);
            before(i);
            if (r.chance(50)) {
                if (i == j) j = (j + 1) % NC;
                arm(i, 1);
                bool g = r.chance(50);
                AlEv<Alloc> al(c[i], c[j]);
                C* x = !g ? new C(*c[j]) : new C(*c[j], mk_alloc(i));
                disarm();
                delete c[i];
                c[i] = x;
                al.done(g ? "cg" : "cc", 1 + (i & 1), *c[i], *c[j]);
            } else {
                AlEv<Alloc> al(c[i], c[j]);
                arm(i, 0);
                *c[i] = *static_cast<const C*>(c[j]);
                disarm();
                al.done("ca", 0, *c[i], *c[j]);
            }
            T().ev("cpy", i + 1, j + 1, FIN);
        } else op_mov(i);
    }
    void op_mov(int i) {
        int j = (i + 1 + r.below(NC - 1)) % NC;
        before(i);
        bool el = has_alloc_id && aid(*c[i]) != aid(*c[j]);          // element-wise moves happen inside a noexcept function
        if (r.chance(50)) {
            arm(i, 0, j);
            bool g = r.chance(50);
            AlEv<Alloc> al(c[i], c[j]);
            C* x = !g ? new C(std::move(*c[j])) : new C(std::move(*c[j]), mk_alloc(i));
            disarm();
            delete c[i];
            c[i] = x;
            al.done(g ? "mg" : "mc", 1 + (i & 1), *c[i], *c[j]);
        } else {
            AlEv<Alloc> al(c[i], c[j]);
            if (!el) arm(i, 0, j);
            *c[i] = std::move(*c[j]);
            disarm();
            al.done("ma", 0, *c[i], *c[j]);
        }
        for (auto& x : *c[j]) (void)CD::rd(x);
        if (r.chance(50)) c[j]->clear(); else { delete c[j]; c[j] = fresh(j); }
        T().ev("mov", i + 1, j + 1, (int)c[j]->capacity(), sz(j), FIN);
    }
    void op_swp(int i) {
        int j = r.below(NC);
        if constexpr (has_alloc_id) if (!std::allocator_traits<Alloc>::propagate_on_container_swap::value && aid(*c[i]) != aid(*c[j])) j = i;
        before(i);
        using std::swap;
        AlEv<Alloc> al(c[i], c[j]);
        if (r.chance(50)) c[i]->swap(*c[j]); else swap(*c[i], *c[j]);
        al.done("sw", 0, *c[i], *c[j]);
        T().ev("swp", i + 1, j + 1, (int)c[j]->capacity(), sz(j), FIN);
    }
    void op_cmp(int i) {
        if constexpr (requires(E& a) { { a == a } -> std::convertible_to<bool>; { a < a } -> std::convertible_to<bool>; } && !std::is_same_v<E, std::string>) {
            int j = r.below(NC);
            if constexpr (copyE) if (r.chance(70)) {
                if (i == j) j = (j + 1) % NC;
                before(j);
                C* x = new C(*c[i], mk_alloc(j));
                delete c[j];
                c[j] = x;
                { int ii = i; int i = j; T().ev("cpy", j + 1, ii + 1, FIN); }
                if (r.chance(50) && sz(j)) op_set(j);
                else if (r.chance(50)) op_er(j);
            }
            const C &a = *c[i], &b = *c[j];
            T().ev("cmp", i + 1, j + 1, a == b ? 1 : 0, a != b ? 1 : 0, a < b ? 1 : 0, a > b ? 1 : 0, a <= b ? 1 : 0, a >= b ? 1 : 0);
        } else op_get(i);
    }
    void op_misc(int i) {
        C& m = *c[i];
        before(i);
        int w = r.below(4);
        if (w == 0) {
            int a = r.range(1, 4), b = r.below(a);
            gtl::erase_if(m, [&](const E& e) { return ((CD::rd(e) % a) + a) % a == b; });  // a moved-from element reads as a negative value
            T().ev("eif", i + 1, a, b, FIN);
        } else if (w == 1 && !m.empty()) {
            if constexpr (copyE && requires(E& a) { { a == a } -> std::convertible_to<bool>; }) {
                int v = CD::rd(m[r.below(sz(i))]);
                gtl::erase(m, CD::mk(v));
                T().ev("erv", i + 1, v, FIN);
            }
        } else if (w == 2) {
            int n = r.below(maxn);
            arm(i, 0);
            gtl::compactResize(&m, n);
            disarm();
            T().ev("compact", i + 1, n, FIN);
        } else {                                                   // hand the buffer over and take it back
            size_t n = m.size(), k = m.capacity();
            E* p = gtl::relinquish(m);
            if (m.size() || m.data()) bad("bad_not_relinquished");
            gtl::attach(m, p, n, k);
            see(i);
        }
    }
    void step(int i) {
        switch (r.pick({ 22, 8, 18, 12, 12, 9, 8, 9, 4, 5, 4, 5, 5, 4, 4, 4, 3 })) {
        case 0: op_push(i); break;
        case 1: op_pop(i); break;
        case 2: op_ins(i); break;
        case 3: op_insr(i); break;
        case 4: op_er(i); break;
        case 5: op_resz(i); break;
        case 6: op_asg(i); break;
        case 7: op_cap(i); break;
        case 8: op_set(i); break;
        case 9: op_get(i); break;
        case 10: op_new(i); break;
        case 11: op_cpy(i); break;
        case 12: op_mov(i); break;
        case 13: op_swp(i); break;
        case 14: op_cmp(i); break;
        case 15: op_misc(i); break;
        case 16: op_pushn(i); break;
        }
    }
    void thrown() {
        disarm();
        L all, caps;
        for (int q = 0; q < NC; ++q) { all.add(list(*c[q])); caps.add((int)c[q]->capacity()); }
        T().ev("thr", tc + 1, tkind, td + 1, all, caps);
    }
    void acct() { if (P.acct && obj) T().ev("acct", (int)g_acct.live); }
    void run(int events) {
        while ((int)T().count() < events) {
            int i = r.chance(70) ? 0 : r.below(NC);
            if (sz(i) > 2 * maxn + 8) { before(i); c[i]->resize(r.below(maxn)); { T().ev("resz", i + 1, sz(i), 0, 0, FIN); } }
            if (P.faults) {
                try { step(i); } catch (const Injected&) { thrown(); } catch (const std::bad_alloc&) { thrown(); }
            } else step(i);
            acct();
            see(i);
        }
        for (int i = 0; i < NC; ++i) see(i);
    }
#undef FIN
};

template<class C>
void run_vec(const char* name, const Args& a, int cfg_index) {
    if (!a.only.empty() && a.only != name) return;
    using D = VecDriver<C>;
    const VProfile* P = &kVProfiles[0];
    for (auto& p : kVProfiles) if (a.profile == p.name) P = &p;
    for (int t = 0; t < a.traces; ++t) {
        if (a.only_trace >= 0 && t != a.only_trace) continue;
        uint64_t seed = a.seed * 1000003u + (uint64_t)cfg_index * 7919u + (uint64_t)a.shard * 104729u + (uint64_t)t;
        T().begin("\"cfg\":\"" + std::string(name) + "\",\"seed\":" + std::to_string(a.seed) + ",\"t\":" + std::to_string(t) + ",\"shard\":" +
                  std::to_string(a.shard) + ",\"K\":1,\"objs\":" + (D::obj ? "1" : "0"));
        budget(30);
        T().warm();
        book();
        g_acct = Acct();
        long h0 = g_heap;
        { D d(seed, *P); d.run(a.events); }
        long h1 = g_heap;
        T().ev("fin", (int)g_acct.live, (int)book().live.size(), (int)(h1 - h0));
        if (book().live.size()) book().live.clear();
        budget(0);
        T().end();
    }
}
} // namespace vt
