// structure of arrays.  Specification: spec/SoaTrace.tla.
#include "elements.hpp"
#include <gtl/soa.hpp>
#include <sstream>
using namespace vt;
namespace vt {
std::ostream& operator<<(std::ostream& o, const Obj& x) { return o << x.v; }
}
template<class... Ts>
class SoaDriver {
public:
    using S = gtl::soa<Ts...>;
    static constexpr int W = sizeof...(Ts);
    template<size_t I> using E = std::tuple_element_t<I, std::tuple<Ts...>>;
    using Seq = std::index_sequence_for<Ts...>;
    Rng r;
    S* s = new S();
    int vseq = 0, maxn, spread;
    explicit SoaDriver(uint64_t seed) : r(seed) { maxn = r.chance(30) ? 8 : r.chance(60) ? 70 : 200; spread = r.pick({ 1, 1, 1 }) == 0 ? 3 : r.chance(50) ? 20 : 500; }
    ~SoaDriver() { delete s; }
    int val() { return r.below(spread); }
    template<class F> void with_col(int c, F f) { wc(c, f, Seq {}); }
    template<class F, size_t... I> void wc(int c, F f, std::index_sequence<I...>) { ((c == (int)I ? (f(std::integral_constant<size_t, I> {}), 0) : 0), ...); }

    template<class Tup, size_t... I> static L rd(const Tup& t, std::index_sequence<I...>) {
        L l;
        (l.add(Codec<std::remove_cvref_t<std::tuple_element_t<I, Tup>>>::rd(std::get<I>(t))), ...);
        return l;
    }
    L all() { L l; const S& cs = *s; for (size_t i = 0; i < s->size(); ++i) l.add(i & 1 ? rd((*s)[i], Seq {}) : rd(cs[i], Seq {})); return l; }
    template<size_t... I> void insert(const std::vector<int>& v, std::index_sequence<I...>) { s->insert(Codec<E<I>>::mk(v[I])...); }
    template<size_t... I> void put(int i, const std::vector<int>& v, std::index_sequence<I...>) { (*s)[i] = std::tuple<Ts...>(Codec<E<I>>::mk(v[I])...); }
    std::vector<int> row() { std::vector<int> v; for (int i = 0; i < W - 1; ++i) v.push_back(val()); v.push_back(1 + ++vseq % 900); return v; }   // the last field tells rows apart

    void step() {
        int n = (int)s->size();
        switch (r.pick({ n < maxn ? 40 : 5, 3, 2, 10, 5, 6, 4, 4, 6, 4, 12, 1, 2 })) {
        case 0: for (int k = r.chance(30) ? r.range(1, maxn / 2 + 1) : 1; k > 0; --k) { auto v = row(); insert(v, Seq {}); T().ev("ins", v); } break;
        case 1: { int m = r.chance(50) ? r.below(maxn) : std::max(0, n + r.range(-3, 3)); s->resize(m); T().ev("resz", m); break; }
        case 2: s->reserve(r.below(2 * maxn)); T().ev("resv"); break;
        case 3: if (n) { int i = r.below(n), c = r.below(W), v = val(), var = r.below(3);
                with_col(c, [&](auto I) {
                    using X = E<I()>;
                    if (var == 0) std::get<I()>((*s)[i]) = Codec<X>::mk(v); else if (var == 1) s->template get_column<I()>()[i] = Codec<X>::mk(v); else std::get<0>(s->template view<I()>(i)) = Codec<X>::mk(v);
                });
                T().ev("set", i + 1, c + 1, v); } break;
        case 4: if (n) { int i = r.below(n); auto v = row(); put(i, v, Seq {}); T().ev("put", i + 1, v); } break;
        case 5: if (n) { int i = r.below(n); const S& cs = *s; T().ev("row", i + 1, r.chance(50) ? rd((*s)[i], Seq {}) : rd(cs[i], Seq {})); } break;
        case 6: if (n) { int i = r.below(n); const S& cs = *s;
                if (r.chance(50)) T().ev("view", i + 1, std::vector<int> { W, 1 }, rd(s->template view<W - 1, 0>(i), std::make_index_sequence<2> {}));
                else T().ev("view", i + 1, std::vector<int> { 2 }, rd(cs.template view<1>(i), std::make_index_sequence<1> {})); } break;
        case 7: { int c = r.below(W); with_col(c, [&](auto I) { L l; if (r.chance(50)) for (auto& x : s->template get_column<I()>()) l.add(Codec<E<I()>>::rd(x)); else for (auto& x : const_cast<const S*>(s)->template get_column<I()>()) l.add(Codec<E<I()>>::rd(x)); T().ev("col", c + 1, l); }); break; }
        case 8: T().ev("size", s->size(), s->empty()); break;
        case 9: T().ev("all", all()); break;
        case 10: {
            int c = r.below(W), cmp = r.pick({ 30, 20, 10, 40 });
            if (cmp == 3) cmp = r.range(3, 7);
            with_col(c, [&](auto I) {
                using X = E<I()>;
                using C = Codec<X>;
                if (cmp == 0 && requires(const X& a) { a < a; } && !std::is_same_v<X, std::string>) { if constexpr (!std::is_same_v<X, std::string>) s->template sort_by_field<I()>(); }
                else if (cmp == 1) s->template sort_by_field<I()>([](const X& a, const X& b) { return C::rd(a) > C::rd(b); });
                else {
                    std::function<bool(const X&, const X&)> f = [cmp](const X& a, const X& b) { int x = C::rd(a), y = C::rd(b); return cmp == 0 ? x < y : cmp == 2 ? false : x % cmp < y % cmp; };
                    if (r.chance(50)) s->template sort_by_field<I()>(f); else s->template sort_by_field<I()>(std::move(f));
                }
            });
            T().ev("sort", c + 1, cmp, all());
            break;
        }
        case 11: s->clear(); T().ev("clr"); break;
        case 12:
            if (r.chance(40)) { S* t = new S(*s); delete s; s = t; T().ev("all", all()); }
            else if (r.chance(50)) { S t(std::move(*s)); *s = S(); S u; u = std::move(t); *s = u; T().ev("all", all()); }
            else if (!(std::is_same_v<Ts, std::string> || ...)) {
                std::ostringstream o;
                o << *s;
                std::istringstream in(o.str());
                std::string ln;
                L l;
                std::getline(in, ln);
                if (ln != "soa {") l.add(-1);
                while (std::getline(in, ln) && ln != "}") { L q; std::istringstream w(ln); std::string tok; while (std::getline(w, tok, ',')) q.add(atoi(tok.c_str())); l.add(q); }
                T().ev("all", l);
            }
            break;
        }
    }
    void run(int events) { T().ev("new"); while ((int)T().count() < events) step(); T().ev("all", all()); }
};
template<class... Ts>
void go(const char* name, const Args& a, int idx) {
    if (!a.only.empty() && a.only != name) return;
    for (int t = 0; t < a.traces; ++t) {
        if (a.only_trace >= 0 && t != a.only_trace) continue;
        SoaDriver<Ts...> d(a.seed * 1000003u + (uint64_t)idx * 7919u + (uint64_t)a.shard * 104729u + (uint64_t)t);
        T().begin("\"cfg\":\"" + std::string(name) + "\",\"seed\":" + std::to_string(a.seed) + ",\"t\":" + std::to_string(t) + ",\"shard\":" +
                  std::to_string(a.shard) + ",\"w\":" + std::to_string(sizeof...(Ts)));
        budget(60);
        d.run(a.events);
        budget(0);
        T().end();
    }
}
int main(int argc, char** argv) {
    Args a = parse(argc, argv);
    go<int, int>("soa_int_int", a, 501);
    go<Obj, std::string, int>("soa_obj_str_int", a, 502);
    go<short, double, Obj, long>("soa_four", a, 503);
    go<std::string, int>("soa_str_int", a, 504);
}
