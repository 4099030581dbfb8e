// scope guards, value changes, timestamps, binary search.  Specification: spec/UtilsTrace.tla.
#include <gtl/utils.hpp>
#include <gtl/adv_utils.hpp>
#include "elements.hpp"
#include <cmath>
#include <limits>
#include <memory>
using namespace vt;

struct Boom { int depth; };
struct Asg {                                        // counts assignments
    int v = 0;
    static inline int n = 0;
    Asg() = default;
    Asg(int x) : v(x) {}
    Asg(const Asg&) = default;
    Asg(Asg&& o) noexcept : v(o.v) { o.v = kMovedFrom; }
    Asg& operator=(const Asg& o) { ++n; v = o.v; return *this; }
    Asg& operator=(Asg&& o) noexcept { ++n; int x = o.v; o.v = kMovedFrom; v = x; return *this; }
    friend bool operator==(const Asg& a, const Asg& b) { return a.v == b.v; }
    friend bool operator!=(const Asg& a, const Asg& b) { return a.v != b.v; }
};
using UP = std::unique_ptr<int>;
using VI = std::vector<int>;
template<> struct vt::Codec<UP> { static UP mk(int k) { return k ? std::make_unique<int>(k) : UP(); } static int rd(const UP& p) { return p ? *p : 0; } };
template<> struct vt::Codec<VI> { static VI mk(int k) { return VI(k, k); } static int rd(const VI& v) { for (int x : v) if (x != (int)v.size()) return -5; return (int)v.size(); } };
template<> struct vt::Codec<Asg> { static Asg mk(int k) { return Asg(k); } static int rd(const Asg& v) { return v.v; } };

struct Stamped : gtl::timestamp { };                                   // a class with a timestamp base
struct Prov : gtl::provides_timestamp<Prov> {                          // one that provides it through a member
    gtl::timestamp t;
    explicit Prov(const gtl::timestamp& s) : t(s) {}
    gtl::timestamp get_timestamp() const { return t; }
};

static L limbs(uint64_t u) { L l; l.add((long long)(u >> 44)).add((long long)((u >> 22) & 0x3fffff)).add((long long)(u & 0x3fffff)); return l; }

struct Driver {
    Rng r;
    int limit, ids = 0, vseq = 0;
    int vi = 0; std::string vs; Obj vo; UP vp; VI vv; Asg va;
    static constexpr int NT = 6;
    std::unique_ptr<gtl::timestamp> ts[NT];
    std::vector<std::pair<int, std::function<void()>>> open;             // open guards and how to dismiss them

    Driver(uint64_t seed, int ev) : r(seed), limit(ev) { for (auto& t : ts) t = std::make_unique<gtl::timestamp>(uint64_t(0)); }
    bool done() const { return (int)T().count() >= limit; }
    L vals() { return std::move(L().add(vi).add(Codec<std::string>::rd(vs)).add(Codec<Obj>::rd(vo)).add(Codec<UP>::rd(vp)).add(Codec<VI>::rd(vv)).add(va.v)); }
    template<class F> void with_var(int x, F f) { switch (x) { case 1: f(vi); break; case 2: f(vs); break; case 3: f(vo); break; case 4: f(vp); break; case 5: f(vv); break; default: f(va); } }
    int newval() { return r.chance(60) ? r.below(4) : 1 + ++vseq % 50; }

    // ------------------------------------------------------------------ scopes
    struct Before { Driver& d; int id; ~Before() { T().ev("left", id, d.vals()); d.open.pop_back(); } };
    struct After { int id; ~After() { T().ev("leave", id); } };
    template<class G> void inside(G& g, int id, int depth) {
        open.back().second = [&g] { g.dismiss(); };
        T().ev("made", vals());
        After a { id };
        body(depth);
    }
    void act(int id, int v) { T().ev("act", id, 1, v); vi = v; }
    void scope(int depth) {
        int id = ++ids, kind = r.range(1, 3), x = 0, v = newval();
        bool on = !r.chance(20), deflt = on && r.chance(50), sthr = kind == 2 && on && r.chance(15);
        if (kind == 3) x = r.range(1, 6);
        open.push_back({ id, [] {} });
        int v1 = newval(), v2 = newval();
        T().ev("enter", id, kind, on, x, v);
        Before b { *this, id };
        if (kind == 1) {
            if (r.chance(30)) {                                        // an action that is not copyable
                auto f = [this, id, v1, p = std::make_unique<int>(v1)] { act(id, *p); };
                gtl::scoped_guard g(std::move(f), on);
                inside(g, id, depth);
            } else if (deflt) {
                gtl::scoped_guard g([this, id, v1] { act(id, v1); });
                inside(g, id, depth);
            } else {
                gtl::scoped_guard g(std::function<void()>([this, id, v1] { act(id, v1); }), on);
                inside(g, id, depth);
            }
        } else if (kind == 2) {
            auto set = [&] { if (sthr) { T().ev("sthr", id); throw Boom { depth - 1 }; } act(id, v2); };
            if (deflt) {
                gtl::scoped_set_unset g(set, [this, id, v1] { act(id, v1); });
                inside(g, id, depth);
            } else {
                gtl::scoped_set_unset g(std::move(set), [this, id, v1] { act(id, v1); }, on);
                inside(g, id, depth);
            }
        } else {
            with_var(x, [&](auto& var) {
                using V = std::remove_reference_t<decltype(var)>;
                if constexpr (!std::is_same_v<V, UP>) {
                    if (r.chance(40)) {
                        const V lv = Codec<V>::mk(v);
                        gtl::scoped_set_value g(var, lv, on);
                        inside(g, id, depth);
                        return;
                    }
                }
                if (deflt) { gtl::scoped_set_value g(var, Codec<V>::mk(v)); inside(g, id, depth); }
                else { gtl::scoped_set_value g(var, Codec<V>::mk(v), on); inside(g, id, depth); }
            });
        }
    }
    void body(int depth) {
        for (int n = r.range(0, 7); n > 0 && !done(); --n) {
            int c = r.pick({ 30, 8, depth < 6 ? 25 : 0, depth && !open.empty() ? 10 : 0, depth ? 5 : 0 });
            if (c == 0) step();
            else if (c == 1) { int x = r.range(1, 6), v = newval(); with_var(x, [&](auto& var) { var = Codec<std::remove_reference_t<decltype(var)>>::mk(v); }); T().ev("put", x, v); }
            else if (c == 2) { if (r.chance(50)) scope(depth + 1); else { try { scope(depth + 1); } catch (Boom&) { T().ev("see", vals()); } } }
            else if (c == 3) { auto& o = r.chance(60) ? open.back() : open[r.below((int)open.size())]; T().ev("dis", o.first); o.second(); }
            else { T().ev("see", vals()); throw Boom { depth }; }
        }
    }
    // ------------------------------------------------------------------ values and timestamps
    void step() {
        int i = r.below(NT), j = r.below(NT);
        switch (r.pick({ 10, 6, 8, 8, 3, 6, 2, 14, 5, 5, 3, 12, 6, 12 })) {
        case 0: {
            int x = r.pick({ 0, 1, 1, 1, 0, 1, 1 }), v = newval(), lvar = r.chance(40);
            with_var(x, [&](auto& var) {
                using V = std::remove_reference_t<decltype(var)>;
                if constexpr (!std::is_same_v<V, UP>) {
                    Asg::n = 0;
                    bool res;
                    if (lvar) { V lv = Codec<V>::mk(v); res = gtl::change(var, lv); if (Codec<V>::rd(lv) != v) bad("change_altered_its_argument"); }
                    else res = gtl::change(var, Codec<V>::mk(v));
                    T().ev("chg", x, v, res, Asg::n);
                }
            });
            break;
        }
        case 1: {
            int x = r.range(1, 6), v = newval(), lvar = r.chance(40);
            with_var(x, [&](auto& var) {
                using V = std::remove_reference_t<decltype(var)>;
                if constexpr (!std::is_same_v<V, UP>) if (lvar) { const V lv = Codec<V>::mk(v); auto o = gtl::replace(var, lv); T().ev("rep", x, v, Codec<V>::rd(o)); return; }
                V o = gtl::replace(var, Codec<V>::mk(v));
                T().ev("rep", x, v, Codec<V>::rd(o));
            });
            break;
        }
        case 2: if (r.chance(50)) ts[i] = std::make_unique<gtl::timestamp>(); else *ts[i] = Stamped(); T().ev("tnew", i + 1, limbs(ts[i]->get())); break;
        case 3: ts[i]->touch(); T().ev("touch", i + 1, limbs(ts[i]->get())); break;
        case 4: { uint64_t raw = r.chance(40) ? r.next() : r.chance(50) ? (uint64_t)r.below(2000) : ((uint64_t)r.below(3) << 32) + r.below(3); *ts[i] = gtl::timestamp(raw); T().ev("traw", i + 1, limbs(raw), limbs(ts[i]->get())); break; }
        case 5: if (r.chance(60)) ts[i]->touch(*ts[j]); else if (r.chance(50)) *ts[i] = *ts[j]; else *ts[i] = ts[j]->get_timestamp(); T().ev("tfrom", i + 1, j + 1, limbs(ts[i]->get())); break;
        case 6: ts[i]->reset(); T().ev("tres", i + 1, limbs(ts[i]->get())); break;
        case 7: { auto &a = *ts[i], &b = *ts[j]; T().ev("tcmp", i + 1, j + 1, std::vector<int> { a.is_newer_than(b), a.is_older_than(b), a == b, a < b, a > b, a.is_set(), b.is_set() }); break; }
        case 8: { Prov p(*ts[i]), q(*ts[j]); if (r.chance(50)) T().ev("pcmp", i + 1, j + 1, std::vector<int> { p.is_newer_than(q), p.is_older_than(q) }, limbs((p | q).get()));
                  else T().ev("pcmp", i + 1, j + 1, std::vector<int> { p.is_newer_than(*ts[j]), p.is_older_than(*ts[j]) }, limbs((p | *ts[j]).get())); break; }
        case 9: T().ev("tor", i + 1, j + 1, limbs((*ts[i] | *ts[j]).get())); break;
        case 10: *ts[i] |= *ts[j]; T().ev("tors", i + 1, j + 1, limbs(ts[i]->get())); break;
        case 11: {
            int x = r.pick({ 0, 1, 1, 1, 0, 1, 1 }), v = newval();
            bool lvar = r.chance(40);
            with_var(x, [&](auto& var) {
                using V = std::remove_reference_t<decltype(var)>;
                if constexpr (!std::is_same_v<V, UP>) {
                    bool res;
                    if (lvar) { const V lv = Codec<V>::mk(v); res = ts[i]->set_with_ts(var, lv); } else res = ts[i]->set_with_ts(var, Codec<V>::mk(v));
                    T().ev("tset", i + 1, x, v, res, limbs(ts[i]->get()));
                }
            });
            break;
        }
        case 12: T().ev("tget", i + 1, limbs(ts[i]->get())); break;
        case 13: search(); break;
        }
    }
    // ------------------------------------------------------------------ binary search
    // ordered images: integers with the sign bit flipped, doubles by their total order
    template<class V> static uint64_t img(V v) { if constexpr (std::is_signed_v<V>) return (uint64_t)(int64_t)v + (1ull << 63); else return (uint64_t)v; }
    template<class V> static V unimg(uint64_t u) { if constexpr (std::is_signed_v<V>) return (V)(int64_t)(u - (1ull << 63)); else return (V)u; }
    static uint64_t dimg(double d) { uint64_t u; memcpy(&u, &d, 8); return u >> 63 ? ~u : u | (1ull << 63); }
    static double undimg(uint64_t u) { u = u >> 63 ? u & ~(1ull << 63) : ~u; double d; memcpy(&d, &u, 8); return d; }
    uint64_t between(uint64_t lo, uint64_t hi) {                          // lo <= result <= hi, often near an end
        uint64_t w = hi - lo;
        switch (r.below(4)) { case 0: return lo + std::min<uint64_t>(w, r.below(4)); case 1: return hi - std::min<uint64_t>(w, r.below(4)); default: return w == ~0ull ? r.next() : lo + r.next() % (w + 1); }
    }
    template<class V, class Img, class Un> void one(uint64_t mn, uint64_t mx, Img img, Un un, uint64_t av1, uint64_t av2) {
        uint64_t a, b;
        if (r.chance(25)) { a = mn; b = mx; } else { a = between(mn, mx); b = r.chance(30) ? between(mn, mx) : (r.chance(50) ? std::min(mx - a, (uint64_t)r.below(40)) : std::min(mx - a, r.next() >> r.below(64))) + a; }
        if (a > b) std::swap(a, b);
        auto av = [&](uint64_t u) { return u == av1 || u == av2; };
        if (a == b || av(a) || av(b)) return;
        uint64_t t = between(a + 1, b);
        if (av(t) || av(t - 1)) return;
        V l = un(a), h = un(b), thr = un(t);
        uint64_t lo = ~0ull, hi = 0;
        int calls = 0;
        auto pred = [&](V v) { uint64_t u = img(v); lo = std::min(lo, u); hi = std::max(hi, u); if (++calls > 100000) bad("too_many_steps"); return v >= thr; };
        std::pair<V, V> res;
        if (r.chance(50)) res = gtl::binary_search(gtl::middle<V>(), pred, l, h); else { gtl::middle<V> m; auto p = pred; res = gtl::binary_search<V>(m, std::move(p), l, h); }
        if (!calls) lo = hi = a;
        T().ev("bs", limbs(a), limbs(b), limbs(t), limbs(img(res.first)), limbs(img(res.second)), limbs(lo), limbs(hi));
    }
    template<class V> void ints() { one<V>(img(std::numeric_limits<V>::min()), img(std::numeric_limits<V>::max()), [](V v) { return img(v); }, [](uint64_t u) { return unimg<V>(u); }, 0x8000000000000000ull ^ 1, 0x8000000000000000ull ^ 1); }
    void search() {
        switch (r.below(10)) {
        case 0: ints<int>(); break;
        case 1: ints<int64_t>(); break;
        case 2: ints<uint64_t>(); break;
        case 3: ints<unsigned>(); break;
        case 4: ints<short>(); break;
        case 5: ints<signed char>(); break;
        case 6: ints<unsigned char>(); break;
        case 7: one<double>(dimg(-std::numeric_limits<double>::max()), dimg(std::numeric_limits<double>::max()), dimg, undimg, dimg(-0.0), dimg(0.0)); break;
        case 8: { uint64_t a = dimg(r.chance(50) ? 1.0 : -3.5), b = dimg(r.chance(50) ? 4.0 : 1e18); one<double>(a, b, dimg, undimg, dimg(-0.0), dimg(0.0)); break; }
        case 9: {                                                     // the caller's own middle
            int g = r.range(1, 9), l = r.range(-1000, 1000), h = l + r.range(1, 3000), t = r.range(l + 1, h), mode = r.below(3);
            auto mid = [&](int a, int b) -> std::optional<int> { if (b - a <= g) return {}; int w = b - a; return mode == 0 ? a + 1 + w / 3 : mode == 1 ? b - 1 : a + 1 + r.below(w - 1); };
            auto pred = [&](int v) { return v >= t; };
            auto res = r.chance(50) ? gtl::binary_search(mid, pred, l, h) : gtl::binary_search<int>(std::function<std::optional<int>(int, int)>(mid), pred, l, h);
            T().ev("bsg", l, h, t, g, res.first, res.second);
            break;
        }
        }
    }
    void run() { while (!done()) { try { body(0); } catch (Boom&) { T().ev("see", vals()); } } T().ev("see", vals()); }
};
int main(int argc, char** argv) {
    Args a = parse(argc, argv);
    for (int t = 0; t < a.traces; ++t) {
        if (!a.only.empty() && a.only != "utils") break;
        if (a.only_trace >= 0 && t != a.only_trace) continue;
        T().begin("\"cfg\":\"utils\",\"seed\":" + std::to_string(a.seed) + ",\"t\":" + std::to_string(t) + ",\"shard\":" + std::to_string(a.shard));
        budget(60);
        { Driver d(a.seed * 1000003u + (uint64_t)a.shard * 104729u + (uint64_t)t, a.events); d.run(); }
        budget(0);
        T().end();
    }
}
