// Instrumented element types, hash functors and allocators used by the drivers.
#pragma once
#include "trace.hpp"
#include "heap.hpp"
#include <functional>
#include <memory>
#include <new>
#include <string>
#include <unordered_map>
#include <map>
#include <mutex>

namespace vt {

// ---------------------------------------------------------------- fault injection
// countdown to a simulated failure of a user operation / of the allocator (0 = off)
inline int g_throw_obj = 0;
inline int g_throw_hash = 0;
inline int g_throw_eq = 0;
struct Injected { int what; };
inline bool hit(int& c) { return c > 0 && --c == 0; }

// ---------------------------------------------------------------- objects
#if defined(__SANITIZE_THREAD__)
struct Cnt { std::atomic<long> v { 0 }; void operator++() { v.fetch_add(1, std::memory_order_relaxed); } void operator--() { v.fetch_sub(1, std::memory_order_relaxed); } operator long() const { return v.load(std::memory_order_relaxed); } };
#else
using Cnt = long;
#endif
struct Acct { Cnt live {}; Cnt made {}; Cnt gone {}; };
inline Acct g_acct;
inline void (*g_obj_hook)() = nullptr;      // called in every user operation (used by the scheduler)
inline void hook() { if (g_obj_hook) g_obj_hook(); }

enum { O_COPY = 1, O_MOVE = 2, O_NOEXC = 4, O_BIG = 8 };

template<int F>
struct ObjPad { };
template<>
struct ObjPad<O_BIG> { long pad[12]; };

constexpr int kMovedFrom = -7777;

template<int F>
struct ObjT : ObjPad<F & O_BIG> {
    int v;
    uint32_t magic;
    const void* self;
    static constexpr bool thr_move = !(F & O_NOEXC);

    void birth() { magic = 0x5AFE0001u; self = this; ++g_acct.live; ++g_acct.made; }
    void chk() const {
        if (magic != 0x5AFE0001u) bad("bad_use_of_dead_object");
        if (self != this) bad("bad_object_was_bytewise_moved");
    }
    static void may_throw() {
        hook();
        if (hit(g_throw_obj)) throw Injected{ 1 };
    }
    ObjT() : v(0) { may_throw(); birth(); }
    ObjT(int x) : v(x) { may_throw(); birth(); }
    ObjT(int x, int y) : v(x + y) { may_throw(); birth(); }
    ObjT(const ObjT& o) requires((F & O_COPY) != 0) : v(o.v) { o.chk(); may_throw(); birth(); }
    ObjT(ObjT&& o) noexcept((F & O_NOEXC) != 0) requires((F & O_MOVE) != 0) : v(o.v) {
        o.chk();
        if constexpr (thr_move) may_throw(); else hook();
        o.v = kMovedFrom;
        birth();
    }
    ObjT& operator=(const ObjT& o) requires((F & O_COPY) != 0) { chk(); o.chk(); may_throw(); v = o.v; return *this; }
    ObjT& operator=(ObjT&& o) noexcept((F & O_NOEXC) != 0) requires((F & O_MOVE) != 0) {
        chk(); o.chk();
        if constexpr (thr_move) may_throw();
        int x = o.v;
        o.v = kMovedFrom;
        v = x;
        return *this;
    }
    ~ObjT() {
        hook();
        chk();
        magic = 0xDEADDEADu;
        self = nullptr;
        --g_acct.live; ++g_acct.gone;
    }
    friend bool operator==(const ObjT& a, const ObjT& b) { a.chk(); b.chk(); if (hit(g_throw_eq)) throw Injected{ 4 }; return a.v == b.v; }
    friend bool operator!=(const ObjT& a, const ObjT& b) { return !(a == b); }
    friend bool operator<(const ObjT& a, const ObjT& b) { a.chk(); b.chk(); if (hit(g_throw_eq)) throw Injected{ 4 }; return a.v < b.v; }
};
// how many counted objects a value holds
template<class T> struct ObjCount : std::integral_constant<int, 0> {};
template<int F> struct ObjCount<ObjT<F>> : std::integral_constant<int, 1> {};
using Obj  = ObjT<O_COPY | O_MOVE | O_NOEXC>;          // ordinary value type
using MObj = ObjT<O_MOVE | O_NOEXC>;                   // move-only
using CObj = ObjT<O_COPY>;                             // copy-only (move falls back to copy)
using TObj = ObjT<O_COPY | O_MOVE>;                    // throwing move
using BObj = ObjT<O_COPY | O_MOVE | O_NOEXC | O_BIG>;  // large

// trivially copyable elements of several sizes
struct Triv3  { unsigned char b[3]; };
struct Triv24 { int v; int pad[5]; };
inline bool operator==(const Triv24& a, const Triv24& b) { return a.v == b.v; }
inline bool operator<(const Triv24& a, const Triv24& b) { return a.v < b.v; }
inline bool operator==(const Triv3& a, const Triv3& b) { return !memcmp(a.b, b.b, 3); }
struct alignas(64) Ovr { int v; };
inline bool operator==(const Ovr& a, const Ovr& b) { return a.v == b.v; }
inline bool operator<(const Ovr& a, const Ovr& b) { return a.v < b.v; }

// ---------------------------------------------------------------- int <-> element codecs
template<class T, class = void>
struct Codec {
    static T mk(int k) { return T(k); }
    static int rd(const T& t) { return (int)t; }
};
template<int F>
struct Codec<ObjT<F>> {
    static ObjT<F> mk(int k) { return ObjT<F>(k); }
    static int rd(const ObjT<F>& t) { t.chk(); return t.v; }
};
template<>
struct Codec<uint64_t> {
    static uint64_t mk(int k) { return (uint64_t)k * 0x100000001ull + 0x4000000000ull * (k & 1); }
    static int rd(uint64_t t) { return (int)(t & 0xffffffffu); }
};
template<>
struct Codec<std::string> {
    static std::string mk(int k) {
        if (k == 0) return std::string();
        std::string n = std::to_string(k);
        if (k & 1) return "a rather long string, far beyond any small buffer, number:" + n;
        return "n:" + n;
    }
    static int rd(const std::string& s) {
        size_t p = s.rfind(':');
        if (p == std::string::npos) return s.empty() ? 0 : kMovedFrom;
        return atoi(s.c_str() + p + 1);
    }
};
template<>
struct Codec<Triv3> {
    static Triv3 mk(int k) { return { { (unsigned char)k, (unsigned char)(k >> 8), (unsigned char)(k >> 16) } }; }
    static int rd(const Triv3& t) { return t.b[0] | t.b[1] << 8 | t.b[2] << 16; }
};
template<>
struct Codec<Triv24> {
    static Triv24 mk(int k) { Triv24 t; t.v = k; for (int i = 0; i < 5; ++i) t.pad[i] = k * 7 + i; return t; }
    static int rd(const Triv24& t) {
        if (t.v == 0 && t.pad[0] == 0) return 0;
        for (int i = 0; i < 5; ++i) if (t.pad[i] != t.v * 7 + i) return -5555;
        return t.v;
    }
};
template<>
struct Codec<Ovr> {
    static Ovr mk(int k) { return Ovr{ k }; }
    static int rd(const Ovr& t) { if ((uintptr_t)&t % 64) return -5556; return t.v; }
};
template<class A, class B>
struct Codec<std::pair<A, B>> {
    static std::pair<A, B> mk(int k) { return { Codec<A>::mk(k / 8), Codec<B>::mk(k % 8) }; }
    static int rd(const std::pair<A, B>& t) { return Codec<A>::rd(t.first) * 8 + Codec<B>::rd(t.second); }
};
template<class X>
struct Codec<std::unique_ptr<X>> {
    static std::unique_ptr<X> mk(int k) { return std::make_unique<X>(Codec<X>::mk(k)); }
    static int rd(const std::unique_ptr<X>& t) { return t ? Codec<X>::rd(*t) : 0; }
};

// ---------------------------------------------------------------- hash functors
inline int g_hmode = 0;
inline size_t hmix(uint64_t k, int salt = 0) {
    auto sm = [](uint64_t z) {
        z += 0x9E3779B97F4A7C15ull;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    };
    k += (uint64_t)salt * 1000003u;
    switch (g_hmode) {
    case 0: return sm(k);                                   // good hash
    case 1: return 0;                                       // everything collides
    case 2: return k;                                       // identity
    case 3: return k << 7;                                  // same 7-bit tag, consecutive homes
    case 4: return ((k % 3) << 7) | (k & 127);              // three homes, distinct tags
    case 5: return (k & 1) ? ~0ull : 0ull;                  // two extreme values
    case 6: return (sm(k) << 7) | 5;                        // good home, same tag
    case 7: return ((65535 - k % 5) << 7) | (k % 7);        // homes at the very end of any table
    case 8: return ((65535 - k % 3) << 7) | 127;            // ditto, one tag
    case 9: return ((k * 16) << 7) | (k % 4);               // homes 16 apart
    case 10: return (sm(k) & 0xffffffull) << 8;             // spread over submaps, few tags
    case 11: return ((k / 4) << 7) | (sm(k) & 127);         // runs of four
    case 12: return k % 3 == 0 ? sm(k) : ((20 + k % 2) << 7) | (k & 127);      // a cluster in mid-table among spread keys
    case 13: return k % 4 == 0 ? k << 7 : ((100 + k % 3) << 7) | (k & 127);
    case 14: return k % 3 == 0 ? sm(k) : ((27 + k % 3) << 7) | (k % 5);
    default: return sm(k ^ 0x55);
    }
}
constexpr int kHModes = 15;

template<class K>
struct HashFn {
    size_t operator()(const K& k) const {
        hook();
        if (hit(g_throw_hash)) throw Injected{ 3 };
        return hmix((uint64_t)Codec<K>::rd(k));
    }
};
inline int g_last_salt = 0;
template<class K>
struct SaltHash {                    // stateful hasher
    int salt = 0;
    SaltHash() = default;
    explicit SaltHash(int s) : salt(s) {}
    size_t operator()(const K& k) const { g_last_salt = salt; return hmix((uint64_t)Codec<K>::rd(k), salt); }
};
template<class K>
struct SaltEq {                      // stateful equality: goes together with the hash function of the same container
    int salt = 0;
    SaltEq() = default;
    explicit SaltEq(int s) : salt(s) {}
    bool operator()(const K& a, const K& b) const {
        if (salt != g_last_salt) bad("equality_of_another_container");
        return Codec<K>::rd(a) == Codec<K>::rd(b);
    }
};
template<class K>
struct FnHash {                      // a hasher that cannot be called once it has been moved from
    int salt = 0;
    std::function<size_t(const K&)> f;
    FnHash() = default;
    explicit FnHash(int s) : salt(s), f([s](const K& k) { g_last_salt = s; return hmix((uint64_t)Codec<K>::rd(k), s); }) {}
    size_t operator()(const K& k) const { if (!f) bad("hash_function_lost"); return f(k); }
};
template<class K>
struct EqFn {
    bool operator()(const K& a, const K& b) const {
        hook();
        if (hit(g_throw_eq)) throw Injected{ 4 };
        return Codec<K>::rd(a) == Codec<K>::rd(b);
    }
};

// ---------------------------------------------------------------- allocator
struct AllocBook {
    struct Blk { size_t bytes; int id; };
    std::unordered_map<void*, Blk> live;
    long errors = 0;
    long allocs = 0;
};
inline AllocBook& book() { static AllocBook b = [] { AllocBook x; x.live.reserve(1 << 14); return x; }(); return b; }

enum { A_POCCA = 1, A_POCMA = 2, A_POCS = 4 };
template<class T, int Prop = A_POCCA | A_POCMA | A_POCS>
struct TAlloc {
    using value_type = T;
    using propagate_on_container_copy_assignment = std::bool_constant<(Prop & A_POCCA) != 0>;
    using propagate_on_container_move_assignment = std::bool_constant<(Prop & A_POCMA) != 0>;
    using propagate_on_container_swap            = std::bool_constant<(Prop & A_POCS) != 0>;
    using is_always_equal                        = std::false_type;
    template<class U> struct rebind { using other = TAlloc<U, Prop>; };
    int id = 0;
    TAlloc() noexcept = default;
    explicit TAlloc(int i) noexcept : id(i) {}
    template<class U>
    TAlloc(const TAlloc<U, Prop>& o) noexcept : id(o.id) {}
    T* allocate(size_t n) {
        if (hit(g_throw_alloc)) throw std::bad_alloc();
        void* p = ::operator new(n * sizeof(T), std::align_val_t(alignof(T) < 16 ? 16 : alignof(T)));
        book().live[p] = { n * sizeof(T), id };
        ++book().allocs;
        return (T*)p;
    }
    void deallocate(T* p, size_t n) noexcept {
        auto it = book().live.find((void*)p);
        if (it == book().live.end()) bad("bad_free_of_unknown_block");
        if (it->second.bytes != n * sizeof(T)) bad("bad_free_with_wrong_size");
        if (it->second.id != id) bad("bad_free_by_other_allocator");
        book().live.erase(it);
        ::operator delete((void*)p, std::align_val_t(alignof(T) < 16 ? 16 : alignof(T)));
    }
    friend bool operator==(const TAlloc& a, const TAlloc& b) { return a.id == b.id; }
    friend bool operator!=(const TAlloc& a, const TAlloc& b) { return a.id != b.id; }
};

// which allocator the containers have before and after a call
template<class Alloc>
struct AlEv {
    static constexpr bool on = requires(Alloc a) { a.id; };
    int x = 0, y = 0;
    template<class C> static int id(const C& m) {
        if constexpr (on) {
            int r = m.get_allocator().id;
            if constexpr (requires(C& c) { c.get_inner(0); }) {                 // every submap
                struct D : C { static size_t n() { return C::subcnt(); } };
                for (size_t q = 0; q < D::n(); ++q) if (m.get_inner(q).set_.get_allocator().id != r) return -1;
            }
            return r;
        } else return 0;
    }
    template<class C> AlEv(const C* a, const C* b) { x = a ? id(*a) : 0; y = id(*b); }
    template<class C> void done(const char* kind, int g, const C& a, const C& b) {
        if constexpr (on) {
            using TR = std::allocator_traits<Alloc>;
            T().ev("al", kind, x, y, g, id(a), id(b), (TR::propagate_on_container_copy_assignment::value ? 1 : 0) +
                   (TR::propagate_on_container_move_assignment::value ? 2 : 0) + (TR::propagate_on_container_swap::value ? 4 : 0));
        }
    }
};

} // namespace vt
