// Keys in several representations: hashes of equal keys, and lookup, insertion, conditional access and erasure through any
// representation, with the library's default hash functions and equalities.  Specification: spec/HetTrace.tla.
#include "elements.hpp"
#include <gtl/phmap.hpp>
#include <gtl/intrusive.hpp>
#include <cmath>
#include <limits>
#include <mutex>
#include <shared_mutex>
#ifndef PART
#define PART 0
#endif
using namespace vt;

struct NoDel { template<class T> void operator()(T*) const {} };
using UPtr = std::unique_ptr<int, NoDel>;
using SPtr = std::shared_ptr<int>;
enum class Col : short { };
enum Old { old_zero };
// equality ignores tag; hash found through hash_value
struct HV { int a; double b; int tag; friend bool operator==(const HV& x, const HV& y) { return x.a == y.a && x.b == y.b; }
            friend size_t hash_value(const HV& x) { return gtl::HashState().combine(0, x.a, x.b); } };
// equality ignores case; hash found through std::hash
struct Fold { std::string s; int tag; friend bool operator==(const Fold& x, const Fold& y) { return lower(x.s) == lower(y.s); }
              static std::string lower(std::string t) { for (auto& c : t) if (c >= 'A' && c <= 'Z') c = char(c + 32); return t; } };
template<> struct std::hash<Fold> { size_t operator()(const Fold& f) const { return std::hash<std::string>()(Fold::lower(f.s)); } };
// a user's transparent functors: numbers as int, as long and as text
struct NumHash { using is_transparent = void;
    size_t operator()(int x) const { return gtl::Hash<long>()(x); }
    size_t operator()(long x) const { return gtl::Hash<long>()(x); }
    size_t operator()(const std::string& x) const { return gtl::Hash<long>()(atol(x.c_str())); } };
struct NumEq { using is_transparent = void;
    static long n(int x) { return x; }
    static long n(long x) { return x; }
    static long n(const std::string& x) { return atol(x.c_str()); }
    template<class A, class B> bool operator()(const A& a, const B& b) const { return n(a) == n(b); } };

static int g_pool[64];
static SPtr g_sp[64];
static UPtr g_up[64];

// ---------------------------------------------------------------- representations of key number k
// reps(k, r, f): calls f(x) with one representation, chosen by r; make: whether a key may be constructed from it
template<class Key> struct Reps;
inline std::string text(int k) { return k % 7 == 0 ? std::string((size_t)k, 'x') : k % 7 == 1 ? std::string("q\0z", 3) + std::to_string(k) : Codec<std::string>::mk(k); }
template<class Ch> std::basic_string<Ch> wide(int k) {
    std::basic_string<Ch> s;
    for (char c : text(k)) s += (Ch)(k % 3 == 0 ? 0x3a0 + (unsigned char)c : (unsigned char)c);
    return s;
}
template<class Ch> struct StrReps {
    using S = std::basic_string<Ch>;
    using V = std::basic_string_view<Ch>;
    static constexpr bool make = true;
    template<class F> static void rep(int k, Rng& r, F f) {
        S s = wide<Ch>(k);
        if constexpr (sizeof(Ch) == 1) { s.clear(); for (char c : text(k)) s += (Ch)c; }
        bool z = s.find((Ch)0) != S::npos;
        switch (r.below(5)) {
        case 0: f(s); break;
        case 1: f(V(s)); break;
        case 2: { S t = S((size_t)(1 + r.below(5)), (Ch)'p') + s + S(3, (Ch)'q'); size_t o = t.size() - 3 - s.size(); f(V(t).substr(o, s.size())); break; }
        case 3: if (!z) { f(s.c_str()); break; } [[fallthrough]];
        default: { S t; t.reserve(200); t = s; f(t); break; }
        }
    }
    static bool is(const V& x, int k) { S s = wide<Ch>(k); if constexpr (sizeof(Ch) == 1) { s.clear(); for (char c : text(k)) s += (Ch)c; } return x == s; }
    static constexpr int K = 60;
};
template<> struct Reps<std::string> : StrReps<char> { static std::string key(int k, Rng&) { return text(k); } };
template<> struct Reps<std::u16string> : StrReps<char16_t> { static std::u16string key(int k, Rng&) { return wide<char16_t>(k); } };
template<> struct Reps<std::wstring> : StrReps<wchar_t> { static std::wstring key(int k, Rng&) { return wide<wchar_t>(k); } };
template<> struct Reps<std::string_view> : StrReps<char> {
    static constexpr bool make = false;               // a stored view must outlive the call
    static std::string_view key(int k, Rng& r) { static std::string st[2][K]; auto& s = st[r.below(2)][k]; if (s.empty()) s = text(k); return s; }
};
struct PtrReps {
    static constexpr bool make = false;
    static constexpr int K = 64;
    template<class F> static void rep(int k, Rng& r, F f) {
        if (!g_sp[k]) { g_sp[k] = SPtr(&g_pool[k], NoDel()); g_up[k] = UPtr(&g_pool[k]); }
        switch (r.below(5)) {
        case 0: f(&g_pool[k]); break;
        case 1: f((const int*)&g_pool[k]); break;
        case 2: f(g_up[k]); break;
        case 3: f(g_sp[k]); break;
        default: { SPtr s(g_sp[0], &g_pool[k]); f(s); break; }      // aliasing: another owner, the same pointer
        }
    }
    template<class P> static bool is(const P& x, int k) { return &*x == &g_pool[k]; }
};
template<> struct Reps<int*> : PtrReps { static int* key(int k, Rng&) { return &g_pool[k]; } };
template<> struct Reps<UPtr> : PtrReps { static UPtr key(int k, Rng&) { return UPtr(&g_pool[k]); } };
template<> struct Reps<SPtr> : PtrReps { static SPtr key(int k, Rng&) { return SPtr(&g_pool[k], NoDel()); } };
template<class Fl> struct FltReps {
    static constexpr bool make = true;
    static constexpr int K = 40;
    static Fl val(int k) {
        using N = std::numeric_limits<Fl>;
        static const Fl sp[] = { Fl(0), N::denorm_min(), -N::denorm_min(), N::min(), N::max(), N::lowest(), N::infinity(), -N::infinity(), N::epsilon(), Fl(1) };
        return k < 10 ? sp[k] : Fl(k) * Fl(1.5) * (k & 1 ? -1 : 1);
    }
    static Fl key(int k, Rng& r) { Fl v = val(k); return v == 0 && r.chance(50) ? -v : v; }
    template<class F> static void rep(int k, Rng& r, F f) { f(key(k, r)); }
    static bool is(Fl x, int k) { return x == val(k); }
};
template<> struct Reps<double> : FltReps<double> {};
template<> struct Reps<float> : FltReps<float> {};
template<> struct Reps<long double> : FltReps<long double> {};
template<class I> struct IntReps {
    static constexpr bool make = true;
    static constexpr int K = std::is_same_v<I, bool> ? 2 : 50;
    static I key(int k, Rng&) { return (I)(sizeof(I) == 8 ? (long long)k * 0x123456789abLL - 77 : sizeof(I) == 4 ? k * 7654321 - 99 : k * 5 - 100); }
    static I key(int k) { Rng r(0); return key(k, r); }
    template<class F> static void rep(int k, Rng& r, F f) { f(key(k, r)); }
    static bool is(I x, int k) { return x == key(k); }
};
template<> struct IntReps<bool> { static constexpr bool make = true; static constexpr int K = 2; static bool key(int k, Rng&) { return k; }
    template<class F> static void rep(int k, Rng&, F f) { f((bool)k); } static bool is(bool x, int k) { return x == (bool)k; } };
template<> struct Reps<bool> : IntReps<bool> {};
template<> struct Reps<char> : IntReps<char> {};
template<> struct Reps<signed char> : IntReps<signed char> {};
template<> struct Reps<unsigned char> : IntReps<unsigned char> {};
template<> struct Reps<wchar_t> : IntReps<wchar_t> {};
template<> struct Reps<short> : IntReps<short> {};
template<> struct Reps<unsigned short> : IntReps<unsigned short> {};
template<> struct Reps<int> : IntReps<int> {};
template<> struct Reps<unsigned> : IntReps<unsigned> {};
template<> struct Reps<long> : IntReps<long> {};
template<> struct Reps<unsigned long> : IntReps<unsigned long> {};
template<> struct Reps<long long> : IntReps<long long> {};
template<> struct Reps<unsigned long long> : IntReps<unsigned long long> {};
template<> struct Reps<Col> : IntReps<Col> {};
template<> struct Reps<Old> : IntReps<Old> {};
template<> struct Reps<std::pair<double, float>> {
    using P = std::pair<double, float>;
    static constexpr bool make = true;
    static constexpr int K = 36;
    static P key(int k, Rng& r) { return { FltReps<double>::key(k / 6, r), FltReps<float>::key(k % 6, r) }; }
    template<class F> static void rep(int k, Rng& r, F f) { f(key(k, r)); }
    static bool is(const P& x, int k) { return x == P(FltReps<double>::val(k / 6), FltReps<float>::val(k % 6)); }
};
using Tup = std::tuple<int, double, std::string, std::pair<float, char>>;
template<> struct Reps<Tup> {
    static constexpr bool make = true;
    static constexpr int K = 48;
    static Tup key(int k, Rng& r) { return { k / 24, FltReps<double>::key(k / 12 % 2, r), text(k / 4 % 3), { FltReps<float>::key(k / 2 % 2, r), (char)(k % 2) } }; }
    template<class F> static void rep(int k, Rng& r, F f) { f(key(k, r)); }
    static bool is(const Tup& x, int k) { Rng r(1); return x == key(k, r); }
};
template<> struct Reps<HV> {
    static constexpr bool make = true;
    static constexpr int K = 40;
    static HV key(int k, Rng& r) { return { k / 8, FltReps<double>::key(k % 8, r), r.below(1000) }; }
    template<class F> static void rep(int k, Rng& r, F f) { f(key(k, r)); }
    static bool is(const HV& x, int k) { Rng r(1); return x == key(k, r); }
};
template<> struct Reps<Fold> {
    static constexpr bool make = true;
    static constexpr int K = 60;
    static Fold key(int k, Rng& r) { std::string s = text(k); for (auto& c : s) if (c >= 'a' && c <= 'z' && r.chance(40)) c = char(c - 32); return { s, r.below(1000) }; }
    template<class F> static void rep(int k, Rng& r, F f) { f(key(k, r)); }
    static bool is(const Fold& x, int k) { Rng r(1); return x == key(k, r); }
};
struct NumReps {
    static constexpr int K = 90;
    template<class F> static void rep(int k, Rng& r, F f) { switch (r.below(3)) { case 0: f(k * 11 - 200); break; case 1: f((long)k * 11 - 200); break; default: f(std::to_string(k * 11 - 200)); } }
    template<class X> static bool is(const X& x, int k) { return NumEq::n(x) == k * 11 - 200; }
};
struct NumI : NumReps { static constexpr bool make = false; static int key(int k, Rng&) { return k * 11 - 200; } };
struct NumS : NumReps { static constexpr bool make = false; static std::string key(int k, Rng& r) { return (r.chance(50) ? "" : r.chance(50) ? " " : "  ") + std::to_string(k * 11 - 200); } };
template<class C> struct RepsOf { using type = Reps<typename C::key_type>; };
template<class C> requires std::is_same_v<typename C::hasher, NumHash> struct RepsOf<C> { using type = std::conditional_t<std::is_same_v<typename C::key_type, int>, NumI, NumS>; };

template<class C>
struct Het {
    using R = typename RepsOf<C>::type;
    using key_t = typename C::key_type;
    using val_t = typename C::value_type;
    static constexpr bool is_map = requires { typename C::mapped_type; };
    static constexpr bool par = requires(C& c) { c.get_inner(0); };
    // elements of these sets can be told apart although they compare equal: their tag is the value of the model
    static constexpr bool tagged = !is_map && requires(const key_t& k) { k.tag; };
    static constexpr int NC = 3;
    Rng r;
    C c[NC];
    typename C::node_type h[2];
    int vseq = 0;
    explicit Het(uint64_t seed) : r(seed) {}

    int hint = -1;                                    // the class to try first
    int rk(const key_t& k) {
        if (hint >= 0 && R::is(k, hint)) return hint;
        for (int q = 0; q < R::K; ++q) if (R::is(k, q)) return q;
        return -8;
    }
    template<class E> int ek(const E& e) { if constexpr (is_map) return rk(e.first); else return rk(e); }
    template<class E> int evl(const E& e) { if constexpr (is_map) return e.second; else if constexpr (tagged) return e.tag; else return 0; }
    int sz(int i) { return (int)c[i].size(); }
    key_t mk(int k, int v) { key_t x = R::key(k, r); if constexpr (tagged) x.tag = v; else (void)v; return x; }
    int nv() { return is_map || tagged ? 1 + (++vseq % 1000) : 0; }

    void hash_of(int i) {
        int k = r.below(R::K);
        uint64_t a = 0, b = 0;
        R::rep(k, r, [&](const auto& x) { a = c[i].hash_function()(x); });
        R::rep(k, r, [&](const auto& x) { b = c[i].hash(x); });
        rec(1, k, a);
        rec(2, k, b);
    }
    static void rec(int kind, int k, uint64_t a) { T().ev("hsh", kind, k, (int)(a >> 44), (int)(a >> 22 & 0x3fffff), (int)(a & 0x3fffff)); }

    void get(int i) {
        int k = r.below(R::K), v = -1, var = r.below(9);
        C& m = c[i];
        const C& cm = m;
        hint = k;
        auto see = [&](auto it, auto e) { return it == e ? -1 : ek(*it) == k ? evl(*it) : -9; };
        R::rep(k, r, [&](const auto& x) {
            switch (var) {
            case 0: v = see(m.find(x), m.end()); break;
            case 1: v = see(cm.find(x), cm.end()); break;
            case 2: v = cm.contains(x) ? -3 : -1; break;
            case 3: { size_t n = cm.count(x); v = n == 0 ? -1 : n == 1 ? -3 : -9; break; }
            case 4: v = see(m.find(x, m.hash(x)), m.end()); break;
            case 5: v = cm.contains(x, cm.hash(x)) ? -3 : -1; break;
            case 6: { auto pr = m.equal_range(x); v = pr.first == pr.second ? -1 : see(pr.first, m.end()); if (v >= 0 && ++pr.first != pr.second) v = -9; break; }
            case 7: { auto pr = cm.equal_range(x); v = pr.first == pr.second ? -1 : see(pr.first, cm.end()); if (v >= 0 && ++pr.first != pr.second) v = -9; break; }
            case 8:
                m.prefetch(x);
                if constexpr (is_map) { try { v = r.chance(50) ? m.at(x) : cm.at(x); } catch (const std::out_of_range&) { v = -1; } }
                else v = see(m.find(x), m.end());
                break;
            }
        });
        T().ev("get", i + 1, k, var, v, sz(i));
    }
    void ins(int i) {
        C& m = c[i];
        int k = r.below(R::K), v = nv(), var = r.below(8), fl = 2, qk = -2, qv = -2;
        hint = k;
        auto both = [&](auto pr) { fl = pr.second; qk = pr.first == m.end() ? -1 : ek(*pr.first); qv = pr.first == m.end() ? -1 : evl(*pr.first); };
        auto lazy = [&](const auto& x) {
            int called = 0;
            auto f = [&](const typename C::constructor& ctor) { ++called; if constexpr (is_map) ctor(mk(k, v), v); else ctor(mk(k, v)); };
            auto it = r.chance(50) ? m.lazy_emplace(x, f) : m.lazy_emplace_with_hash(x, m.hash(x), f);
            fl = called;
            qk = it == m.end() ? -1 : ek(*it);
            qv = it == m.end() ? -1 : evl(*it);
        };
        bool viax = R::make && !tagged;
        if (var == 0) R::rep(k, r, lazy);
        else if constexpr (is_map) {
            if (var < 3 || !viax) { if (var == 1) both(m.insert(typename C::init_type(mk(k, v), v))); else if (var == 2) both(m.emplace(mk(k, v), v)); else both(m.try_emplace(mk(k, v), v)); }
            else if constexpr (R::make) R::rep(k, r, [&](const auto& x) {
                using X = std::decay_t<decltype(x)>;
                if (var == 3) both(m.emplace(x, v));
                else if (var == 4) both(m.try_emplace(x, v));
                else if (var == 5) { X y(x); both(m.try_emplace(std::move(y), v)); }
                else if (var == 6) both(m.emplace(std::piecewise_construct, std::forward_as_tuple(x), std::forward_as_tuple(v)));
                else { auto it = m.try_emplace(m.cend(), x, v); qk = ek(*it); qv = evl(*it); }
            });
        } else {
            if (var < 3 || !viax) { if (var == 1) both(m.insert(mk(k, v))); else { auto it = m.insert(m.cbegin(), mk(k, v)); qk = ek(*it); qv = evl(*it); } }
            else if constexpr (R::make) R::rep(k, r, [&](const auto& x) {
                if (var == 3) both(m.emplace(x));
                else if (var == 4 && std::is_convertible_v<decltype(x), key_t>) { if constexpr (std::is_convertible_v<decltype(x), key_t>) both(m.insert(x)); }
                else { auto it = m.emplace_hint(m.cend(), x); qk = ek(*it); qv = evl(*it); }
            });
        }
        T().ev("ins", i + 1, k, v, var, fl, qk, qv, sz(i));
    }
    void asg(int i) {
        if constexpr (is_map) {
            C& m = c[i];
            int k = r.below(R::K), v = nv(), fl = 2, qk = -2, qv = -2, var = r.below(4);
            hint = k;
            auto both = [&](auto pr) { fl = pr.second; qk = ek(*pr.first); qv = evl(*pr.first); };
            if (!R::make || var == 0) both(m.insert_or_assign(mk(k, v), v));
            else if constexpr (R::make) R::rep(k, r, [&](const auto& x) {
                using X = std::decay_t<decltype(x)>;
                X y(x);
                if (var == 1) both(m.insert_or_assign(x, v));
                else if (var == 2) both(m.insert_or_assign(std::move(y), v));
                else { auto it = m.insert_or_assign(m.cend(), x, v); qk = ek(*it); qv = evl(*it); }
            });
            T().ev("asg", i + 1, k, v, var, fl, qk, qv, sz(i));
        } else ins(i);
    }
    void idx(int i) {
        if constexpr (is_map) {
            C& m = c[i];
            int k = r.below(R::K), v = nv(), old = 0;
            auto use = [&](int& q) { old = q; q = v; };
            if (!R::make || r.chance(30)) use(m[mk(k, v)]);
            else if constexpr (R::make) R::rep(k, r, [&](const auto& x) { using X = std::decay_t<decltype(x)>; if (r.chance(50)) use(m[x]); else { X y(x); use(m[std::move(y)]); } });
            T().ev("idx", i + 1, k, old, v, sz(i));
        } else ins(i);
    }
    void erk(int i) {
        int k = r.below(R::K), n = 0;
        R::rep(k, r, [&](const auto& x) { n = (int)c[i].erase(x); });
        T().ev("erk", i + 1, k, n, sz(i));
    }
    void ext(int i) {
        int k = r.below(R::K), s = r.below(2);
        hint = k;
        R::rep(k, r, [&](const auto& x) { h[s] = c[i].extract(x); });
        T().ev("ext", i + 1, k, s + 1, 0, nk(s), nval(s), sz(i));
    }
    int nk(int s) { if (h[s].empty()) return -1; if constexpr (is_map) return rk(h[s].key()); else return rk(h[s].value()); }
    int nval(int s) { if (h[s].empty()) return -1; if constexpr (is_map) return h[s].mapped(); else return evl(h[s].value()); }
    void inn(int i) {
        int s = r.below(2);
        C& m = c[i];
        auto res = m.insert(std::move(h[s]));
        int fl = res.inserted;
        bool e = res.position == m.end();
        int qk = e ? -1 : ek(*res.position), qv = e ? -1 : evl(*res.position);
        h[s] = std::move(res.node);
        T().ev("inn", i + 1, s + 1, 0, fl, qk, qv, nk(s), nval(s), sz(i));
    }
    void it(int i) {
        L l;
        for (auto& e : c[i]) { l.add(ek(e)).add(evl(e)); }
        T().ev("it", i + 1, l, c[i].empty() ? 1 : 0, sz(i), sz(i));
    }
    void whole(int i) {
        int j = r.below(NC), var = r.below(6);
        switch (var) {
        case 0: c[i].clear(); T().ev("clr", i + 1, sz(i)); break;
        case 1: c[i].rehash((size_t)r.below(200)); T().ev("sz", i + 1, c[i].empty() ? 1 : 0, sz(i)); break;
        case 2: c[i].swap(c[j]); T().ev("swp", i + 1, j + 1, 0, sz(j), sz(i)); break;
        case 3: if (i != j) { c[i].merge(c[j]); T().ev("mrg", i + 1, j + 1, sz(j), sz(i)); } break;
        case 4: if constexpr (std::is_copy_constructible_v<key_t>) { C x(c[j]); c[i] = x; T().ev("cpy", i + 1, j + 1, 0, sz(j), sz(i)); } break;
        case 5: { bool e = c[i] == c[j]; bool n = c[i] != c[j]; if (!tagged) T().ev("eq", i + 1, j + 1, e, n, sz(i)); break; }
        }
    }
    void conc(int i) {
        if constexpr (par) {
            C& m = c[i];
            const C& cm = m;
            int k = r.below(R::K), v = nv(), called = 0, seen = -1, var = r.below(8);
            hint = k;
            bool b = false;
            auto see = [&](const auto& e) { ++called; seen = ek(e) == k ? evl(e) : -9; };
            auto put = [&](auto& e) { see(e); if constexpr (is_map) e.second = v; };
            int cem = 0;
            auto ctor = [&](const typename C::constructor& cc) { ++cem; if constexpr (is_map) cc(mk(k, v), v); else cc(mk(k, v)); };
            R::rep(k, r, [&](const auto& x) {
                switch (var) {
                case 0: b = cm.if_contains(x, see); T().ev("ifc", i + 1, k, b, called, seen, sz(i)); break;
                case 1: b = cm.if_contains_unsafe(x, see); T().ev("ifc", i + 1, k, b, called, seen, sz(i)); break;
                case 2: case 3: b = m.modify_if(x, put); T().ev("modif", i + 1, k, v, b, called, seen, sz(i)); break;
                case 4: { bool yes = r.chance(50); b = m.erase_if(x, [&](auto& e) { see(e); return yes; }); T().ev("erif", i + 1, k, yes ? 1 : 0, b, called, seen, sz(i)); break; }
                case 5: b = m.lazy_emplace_l(x, put, ctor); T().ev("upsert", i + 1, k, v, b, called, cem, seen, sz(i)); break;
                case 6: if (r.chance(50)) m.emplace_single(x, ctor); else m.emplace_single_with_hash(x, m.hash(x), ctor); T().ev("tog", i + 1, k, v, cem, sz(i)); break;
                case 7:
                    if constexpr (is_map && R::make) {
                        using X = std::decay_t<decltype(x)>;
                        if (r.chance(50)) { b = m.try_emplace_l(x, put, v); T().ev("upsert", i + 1, k, v, b, called, b ? 1 : 0, seen, sz(i)); }
                        else { X y(x); auto pr = m.try_emplace_p(std::move(y), v); T().ev("ins", i + 1, k, v, 30, pr.second, ek(*pr.first), evl(*pr.first), sz(i)); }
                    }
                    break;
                }
            });
        } else get(i);
    }
    void run(int events) {
        while ((int)T().count() < events) {
            int i = r.chance(60) ? 0 : r.below(NC);
            switch (r.pick({ 10, 24, 22, 5, 5, 9, 4, 4, 2, 3, par ? 20 : 4 })) {
            case 0: hash_of(i); break;
            case 1: get(i); break;
            case 2: ins(i); break;
            case 3: asg(i); break;
            case 4: idx(i); break;
            case 5: erk(i); break;
            case 6: ext(i); break;
            case 7: inn(i); break;
            case 8: it(i); break;
            case 9: whole(i); break;
            case 10: conc(i); break;
            }
        }
        for (int i = 0; i < NC; ++i) it(i);
    }
};

template<class C>
void run_het(const char* name, const Args& a, int idx) {
    if (!a.only.empty() && a.only != name) return;
    using D = Het<C>;
    for (int t = 0; t < a.traces; ++t) {
        if (a.only_trace >= 0 && t != a.only_trace) continue;
        uint64_t seed = a.seed * 1000003u + (uint64_t)idx * 7919u + (uint64_t)a.shard * 104729u + (uint64_t)t;
        T().begin("\"cfg\":\"" + std::string(name) + "\",\"seed\":" + std::to_string(a.seed) + ",\"t\":" + std::to_string(t) + ",\"shard\":" + std::to_string(a.shard) +
                  ",\"K\":" + std::to_string(D::R::K) + ",\"node\":0,\"par\":" + (D::par ? "1" : "0") + ",\"map\":" + (D::is_map ? "1" : "0") + ",\"objs\":0");
        budget(30);
        { D d(seed); d.run(a.events); }
        budget(0);
        T().end();
    }
}
template<class K> using FS = gtl::flat_hash_set<K>;
template<class K> using NS = gtl::node_hash_set<K>;
template<class K> using FM = gtl::flat_hash_map<K, int>;
template<class K> using NM = gtl::node_hash_map<K, int>;
template<class K, size_t N = 4, class M = std::mutex> using PFM = gtl::parallel_flat_hash_map<K, int, gtl::priv::hash_default_hash<K>, gtl::priv::hash_default_eq<K>, std::allocator<std::pair<const K, int>>, N, M>;
template<class K, size_t N = 4, class M = std::mutex> using PNM = gtl::parallel_node_hash_map<K, int, gtl::priv::hash_default_hash<K>, gtl::priv::hash_default_eq<K>, std::allocator<std::pair<const K, int>>, N, M>;
template<class K, size_t N = 4, class M = std::mutex> using PFS = gtl::parallel_flat_hash_set<K, gtl::priv::hash_default_hash<K>, gtl::priv::hash_default_eq<K>, std::allocator<K>, N, M>;

int main(int argc, char** argv) {
    Args a = parse(argc, argv);
#if PART == 0
    run_het<FM<std::string>>("het_fm_str", a, 1);
    run_het<NS<std::string>>("het_ns_str", a, 2);
    run_het<PFM<std::string>>("het_pfm_str", a, 3);
    run_het<FS<std::string_view>>("het_fs_view", a, 4);
    run_het<FM<std::u16string>>("het_fm_u16", a, 5);
    run_het<PNM<std::wstring, 3, std::shared_mutex>>("het_pnm_w", a, 6);
#elif PART == 1
    run_het<FS<int*>>("het_fs_ptr", a, 7);
    run_het<NM<UPtr>>("het_nm_uptr", a, 8);
    run_het<NM<SPtr>>("het_nm_sptr", a, 9);
    run_het<PFS<UPtr, 2, std::shared_mutex>>("het_pfs_uptr", a, 10);
    run_het<gtl::flat_hash_map<int, int, NumHash, NumEq>>("het_fm_num", a, 11);
    run_het<gtl::parallel_flat_hash_map<std::string, int, NumHash, NumEq, std::allocator<std::pair<const std::string, int>>, 4, std::shared_mutex>>("het_pfm_num", a, 12);
#elif PART == 2
    run_het<FS<double>>("het_fs_double", a, 13);
    run_het<PFM<float>>("het_pfm_float", a, 14);
    run_het<FM<long double>>("het_fm_ldouble", a, 15);
    run_het<FM<std::pair<double, float>>>("het_fm_pair", a, 16);
    run_het<NS<Tup>>("het_ns_tuple", a, 17);
    run_het<FS<HV>>("het_fs_hv", a, 18);
    run_het<NS<Fold>>("het_ns_fold", a, 19);
    run_het<PFS<HV>>("het_pfs_hv", a, 20);
#elif PART == 3
    run_het<FS<bool>>("het_fs_bool", a, 21);
    run_het<FS<char>>("het_fs_char", a, 22);
    run_het<NS<signed char>>("het_ns_schar", a, 23);
    run_het<FM<unsigned char>>("het_fm_uchar", a, 24);
    run_het<FS<wchar_t>>("het_fs_wchar", a, 25);
    run_het<FM<short>>("het_fm_short", a, 26);
    run_het<FS<unsigned short>>("het_fs_ushort", a, 27);
    run_het<FM<int>>("het_fm_int", a, 28);
    run_het<NM<unsigned>>("het_nm_uint", a, 29);
    run_het<FM<long>>("het_fm_long", a, 30);
    run_het<FS<unsigned long>>("het_fs_ulong", a, 31);
    run_het<PFM<long long>>("het_pfm_llong", a, 32);
    run_het<FM<unsigned long long>>("het_fm_ullong", a, 33);
    run_het<FM<Col>>("het_fm_enumclass", a, 34);
    run_het<NS<Old>>("het_ns_enum", a, 35);
#endif
}
