// Driver for gtl::bit_vector and gtl::bit_view.  Specification: spec/BitTrace.tla.
#pragma once
#include "trace.hpp"
#include <gtl/bit_vector.hpp>
#include <algorithm>

namespace vt {
using BV = gtl::bit_vector;

class BitDriver {
public:
    static constexpr int NB = 3;
    Rng r;
    bool views;              // mostly operations through views
    BV v[NB];
    int maxl;
    BitDriver(uint64_t seed, bool vw) : r(seed), views(vw) { static const int M[] = { 20, 70, 140, 200, 300 }; maxl = M[r.below(5)]; }
    int len() {
        static const int B[] = { 0, 1, 63, 64, 65, 127, 128, 129, 191, 192, 193, 256, 257 };
        int x = r.chance(50) ? B[r.below(13)] : r.below(maxl);
        return std::min(x, maxl);
    }
    int sz(int i) { return (int)v[i].size(); }
    L bits(int i) { L l; for (int p = 0; p < sz(i); ++p) if (r.chance(50) ? v[i][p] : v[i].test(p)) l.add(p); return l; }
    static L ofint(uint64_t x, int off = 0) { L l; for (int p = 0; p < 64; ++p) if (x >> p & 1) l.add(p + off); return l; }
    uint64_t word() { switch (r.below(5)) { case 0: return 0; case 1: return ~0ull; case 2: return r.next() & r.next() & r.next(); case 3: return 1ull << r.below(64); default: return r.next(); } }
    void see(int i) { T().ev("see", i + 1, sz(i), bits(i), v[i].empty() ? 1 : 0, (int)v[i].num_blocks()); }
    int near(int n) {        // a position in 0..n, often at a slot boundary
        if (r.chance(35)) { int e = r.chance(60) ? 1 : 7, k = r.below(n / 64 + 1) * 64 + r.range(-e, e); return std::max(0, std::min(n, k)); }
        return r.below(n + 1);
    }
    void range(int n, int& f, int& l) {
        int w = r.below(8);
        if (w == 0) { f = 0; l = n; return; }
        f = near(n);
        l = near(n);
        if (w == 1) l = n;
        if (w == 2) f = 0;
        if (f > l) std::swap(f, l);
        if (w >= 6 && l - f > 64) l = f + r.range(1, 64);
    }
    static int ix(size_t p) { return p == BV::npos ? -1 : (int)p; }

    void op_size(int i) {
        int w = r.below(6), n = len(), val = r.below(2);
        if (w == 0) { v[i] = BV(n, val); T().ev("new", i + 1, n, val); }
        else if (w == 1) {
            uint64_t a = word(), b = word();
            L l = ofint(a);
            if (r.chance(50)) { BV x({ a, b }); for (int p = 0; p < 64; ++p) if (b >> p & 1) l.add(64 + p); v[i] = x; T().ev("newl", i + 1, 128, l); }
            else { BV x({ a }); v[i] = x; T().ev("newl", i + 1, 64, l); }
        } else if (w == 2 && sz(i) > 0) {             // assigned from a list of integers, as many as there are blocks at most
            uint64_t a = word(), b = word();
            L l = ofint(a);
            int n1 = std::min(64, sz(i));
            if (sz(i) > 64 && r.chance(60)) { v[i] = { a, b }; for (int p = 0; p < 64; ++p) if (b >> p & 1) l.add(64 + p); n1 = std::min(128, sz(i)); }
            else v[i] = { a };
            T().ev("putn", i + 1, 0, sz(i), l, n1);
        } else {
            if (r.chance(40)) n = std::max(0, std::min(maxl, sz(i) + r.range(-3, 5)));
            v[i].resize(n, val);
            T().ev("resz", i + 1, n, val);
        }
    }
    // ------------------------------------------------------------------ whole vectors
    void op_vec(int i) {
        BV& x = v[i];
        int n = sz(i);
        switch (r.below(14)) {
        case 0: case 1: case 2: {
            if (!n) return;
            int p = std::min(n - 1, near(n)), op = r.below(3);
            if (op == 0) { if (r.chance(50)) x.reset(p); else x.set(p, false); }
            if (op == 1) { if (r.chance(50)) x.set(p); else x.set(p, true); }
            if (op == 2) x.flip(p);
            T().ev("bit", i + 1, 0, n, op, p);
            break;
        }
        case 3: { int op = r.below(3); if (op == 0) x.reset(); if (op == 1) x.set(); if (op == 2) x.flip(); T().ev("all", i + 1, 0, n, op); break; }
        case 4: case 5: {
            int d = same_size(i), op = r.below(5);
            static const char* N[] = { "or", "and", "xor", "sub", "ornot" };
            if (op == 0) x |= v[d]; else if (op == 1) x &= v[d]; else if (op == 2) x ^= v[d]; else if (op == 3) x -= v[d]; else x.or_not(v[d]);
            T().ev("bin", i + 1, 0, n, N[op], d + 1, 0);
            break;
        }
        case 6: case 7: {
            int d = same_size(i), op = r.below(7), k = r.chance(40) ? r.below(n + 3) : near(n), to = r.below(NB);
            static const char* N[] = { "or", "and", "xor", "sub", "not", "shl", "shr" };
            BV res = op == 0 ? x | v[d] : op == 1 ? x & v[d] : op == 2 ? x ^ v[d] : op == 3 ? x - v[d] : op == 4 ? ~x : op == 5 ? x << k : x >> k;
            v[to] = res;
            T().ev("res", i + 1, 0, n, N[op], op >= 5 ? k : d + 1, to + 1);
            see(to);
            break;
        }
        case 8: { int k = r.chance(30) ? r.below(n + 3) : near(n); x <<= k; T().ev("shl", i + 1, 0, n, k); break; }
        case 9: { int k = r.chance(30) ? r.below(n + 3) : near(n); x >>= k; T().ev("shr", i + 1, 0, n, k); break; }
        case 10: {
            int d = r.below(NB);
            if (d != i && r.chance(30)) {          // a moved-from vector is not inspected, but can be resized
                if (r.chance(50)) x = std::move(v[d]); else { BV y(std::move(v[d])); x = y; }
                T().ev("cpy", i + 1, d + 1);
                if (r.chance(50)) v[d].resize(r.below(maxl + 1), r.chance(50));
                v[d].resize(0);
                T().ev("resz", d + 1, 0, 0);
                break;
            }
            if (r.chance(50)) x = v[d]; else { BV y(v[d]); x = std::move(y); }
            T().ev("cpy", i + 1, d + 1);
            break;
        }
        case 11: { int d = r.below(NB); if (d == i) d = (d + 1) % NB; x.swap(v[d]); T().ev("swp", i + 1, d + 1); break; }
        default: op_size(i); break;
        }
    }
    int same_size(int i) {
        int d = r.below(NB);
        if (sz(d) != sz(i)) {
            if (r.chance(50)) { for (int q = 0; q < NB; ++q) if (sz(q) == sz(i)) d = q; }
            else { int val = r.below(2); v[d].resize(sz(i), val); T().ev("resz", d + 1, sz(i), val); }
        }
        return d;
    }
    void op_vecq(int i) {
        BV& x = v[i];
        const BV& c = x;
        int n = sz(i);
        switch (r.below(9)) {
        case 0: T().ev("q", i + 1, 0, n, c.any() ? 1 : 0, c.every() ? 1 : 0, c.none() ? 1 : 0, (int)c.count(), (int)c.size(), c.empty() ? 1 : 0); break;
        case 1: T().ev("ff", i + 1, 0, n, ix(c.find_first())); break;
        case 2: { int p = near(n); T().ev("fn", i + 1, 0, n, p, ix(c.find_next(p))); break; }
        case 3: { L l; int k = 0; for (size_t p = c.find_first(); p != BV::npos && k < 400; p = c.find_next(p + 1), ++k) l.add((int)p); T().ev("walk", i + 1, 0, n, l); break; }
        case 4: {
            int d = r.chance(50) ? same_size(i) : r.below(NB), m = sz(d);
            if (r.chance(40)) { v[d] = x; T().ev("cpy", d + 1, i + 1); m = n; if (n && r.chance(60)) { int p = std::min(n - 1, near(n)); v[d].flip(p); T().ev("bit", d + 1, 0, n, 2, p); } }
            T().ev("rel", i + 1, 0, n, d + 1, 0, m, x == v[d] ? 1 : 0, x != v[d] ? 1 : 0, n >= m ? (x.contains(v[d]) ? 1 : 0) : -1, x.disjoint(v[d]) ? 1 : 0, x.intersects(v[d]) ? 1 : 0);
            T().ev("hash", i + 1, d + 1, std::hash<BV>()(x) == std::hash<BV>()(v[d]) ? 1 : 0);
            break;
        }
        case 5: {
            std::string s = c.to_string();
            L l;
            for (int q = 0; q < (int)s.size(); ++q) if (s[s.size() - 1 - q] == '1') l.add(q); else if (s[s.size() - 1 - q] != '0') bad("bad_string");
            T().ev("str", i + 1, 0, n, (int)s.size(), l);
            break;
        }
        case 6: hex(i, 0, n, (std::string)c); break;
        case 7: if (r.chance(50)) T().ev("ull", i + 1, ofint(c.to_ullong())); else T().ev("ull", i + 1, ofint(c.to_ulong())); break;
        case 8: if (n) { int k = r.below((int)c.num_blocks()); T().ev("blk", i + 1, k, ofint(c.block(k))); } break;
        }
    }
    void hex(int i, int f, int l, std::string s) {
        L out;
        if (f == l) { if (s != "<empty>") bad("bad_hex_of_empty"); T().ev("hex", i + 1, f, l, 0, out); return; }
        if (s.substr(0, 2) != "0x") bad("bad_hex_prefix");
        s = s.substr(2);
        for (int q = 0; q < (int)s.size(); ++q) {
            char ch = s[s.size() - 1 - q];
            int d = ch >= '0' && ch <= '9' ? ch - '0' : ch >= 'a' && ch <= 'f' ? ch - 'a' + 10 : -1;
            if (d < 0) bad("bad_hex_digit");
            for (int k = 0; k < 4; ++k) if (d >> k & 1) out.add(4 * q + k);
        }
        T().ev("hex", i + 1, f, l, (int)s.size(), out);
    }
    // ------------------------------------------------------------------ views
    void op_view(int i) {
        int f, l;
        range(sz(i), f, l);
        int n = l - f;
        auto w = (l == sz(i) && r.chance(50)) ? v[i].view(f) : v[i].view(f, l);
        switch (r.below(12)) {
        case 0: {
            if (!n) return;
            int p = r.below(n), op = r.below(3);
            if (op == 0) { if (r.chance(50)) w.reset(p); else w.set(p, false); }
            if (op == 1) { if (r.chance(50)) w.set(p); else w.set(p, true); }
            if (op == 2) w.flip(p);
            T().ev("bit", i + 1, f, l, op, p);
            break;
        }
        case 1: case 2: { int op = r.below(3); if (op == 0) w.reset(); if (op == 1) w.set(); if (op == 2) w.flip(); T().ev("all", i + 1, f, l, op); break; }
        case 3: case 4: case 5: case 6: {
            int d = r.chance(50) ? i : r.below(NB);
            if (sz(d) < n) d = i;
            int g = r.chance(30) ? std::max(0, std::min(sz(d) - n, f + r.range(-3, 3))) : near(sz(d) - n);
            auto o = v[d].view(g, g + n);
            int op = r.below(8);
            static const char* N[] = { "or", "and", "xor", "sub", "ornot", "set" };
            if (op == 0) w |= o; else if (op == 1) w &= o; else if (op == 2) w ^= o; else if (op == 3) w -= o; else if (op == 4) w.or_not(o); else { op = 5; w = o; }
            T().ev("bin", i + 1, f, l, N[op], d + 1, g);
            break;
        }
        case 7: { int k = r.chance(50) ? r.below(n + 3) : near(n); w <<= k; T().ev("shl", i + 1, f, l, k); break; }
        case 8: { int k = r.chance(50) ? r.below(n + 3) : near(n); w >>= k; T().ev("shr", i + 1, f, l, k); break; }
        case 9: case 10: {
            if (n > 64) { l = f + r.range(0, 64); n = l - f; }
            auto y = v[i].view(f, l);
            uint64_t a = word();
            y = a;
            T().ev("put", i + 1, f, l, ofint(a));
            break;
        }
        case 11: {
            uint64_t a = word(), b = word();
            L li = ofint(a);
            for (int p = 0; p < 64; ++p) if (b >> p & 1) li.add(64 + p);
            w = { a, b };
            T().ev("putn", i + 1, f, l, li, std::min(n, 128));
            break;
        }
        }
    }
    // random bits everywhere
    void scatter(int d) {
        for (int f = 0; f < sz(d); f += 64) {
            int l = std::min(sz(d), f + 64);
            uint64_t a = r.chance(70) ? r.next() : word();
            v[d].view(f, l) = a;
            T().ev("put", d + 1, f, l, ofint(a));
        }
    }
    void op_viewq(int i) {
        if (r.chance(10)) scatter(i);
        int f, l;
        range(sz(i), f, l);
        int n = l - f;
        const auto w = v[i].view(f, l);
        switch (r.below(8)) {
        case 0: T().ev("q", i + 1, f, l, w.any() ? 1 : 0, w.every() ? 1 : 0, w.none() ? 1 : 0, (int)w.count(), (int)w.size(), w.empty() ? 1 : 0); break;
        case 1: T().ev("ff", i + 1, f, l, ix(w.find_first())); break;
        case 2: { int p = near(n); T().ev("fn", i + 1, f, l, p, ix(w.find_next(p))); break; }
        case 3: { L li; int k = 0; for (size_t p = w.find_first(); p != BV::npos && k < 400; p = w.find_next(p + 1), ++k) li.add((int)p); T().ev("walk", i + 1, f, l, li); break; }
        case 4: case 5: {
            int d = r.chance(50) ? i : r.below(NB), g, h;
            range(sz(d), g, h);
            if (r.chance(60) && sz(d) >= n) { g = near(sz(d) - n); h = g + n; }
            if (r.chance(30) && h - g == n && n) {                // make the other view equal, perhaps but for one bit
                if (r.chance(60)) scatter(d);
                v[d].view(g, h) = v[i].view(f, l);
                T().ev("bin", d + 1, g, h, "set", i + 1, f);
                if (r.chance(30) && (d != i || h <= f || l <= g)) { v[d].view(g, h).flip(); T().ev("all", d + 1, g, h, 2); }
                else
                if (r.chance(50)) { int p = r.chance(50) ? n - 1 : r.below(n); v[d].view(g, h).flip(p); T().ev("bit", d + 1, g, h, 2, p); }
            }
            const auto o = v[d].view(g, h);
            int m = h - g;
            T().ev("rel", i + 1, f, l, d + 1, g, h, w == o ? 1 : 0, -1, n >= m ? (w.contains(o) ? 1 : 0) : -1, w.disjoint(o) ? 1 : 0, w.intersect(o) ? 1 : 0);
            break;
        }
        case 6: hex(i, f, l, (std::string)w); break;
        case 7: if (n) { int p = r.below(n); T().ev("get", i + 1, f, l, p, w[p] ? 1 : 0); } break;
        }
    }
    void run(int events) {
        while ((int)T().count() < events) {
            int i = r.chance(60) ? 0 : r.below(NB);
            if (sz(i) == 0 || r.chance(views ? 4 : 12)) op_size(i);
            else if (views ? r.chance(85) : r.chance(5)) { if (r.chance(60)) op_view(i); else op_viewq(i); }
            else { if (r.chance(60)) op_vec(i); else op_vecq(i); }
            if (r.chance(70)) see(i);
        }
        for (int i = 0; i < NB; ++i) see(i);
    }
};

inline void run_bits(const char* name, const Args& a, int cfg_index) {
    if (!a.only.empty() && a.only != name) return;
    for (int t = 0; t < a.traces; ++t) {
        if (a.only_trace >= 0 && t != a.only_trace) continue;
        uint64_t seed = a.seed * 1000003u + (uint64_t)cfg_index * 7919u + (uint64_t)a.shard * 104729u + (uint64_t)t;
        T().begin("\"cfg\":\"" + std::string(name) + "\",\"seed\":" + std::to_string(a.seed) + ",\"t\":" + std::to_string(t) + ",\"shard\":" +
                  std::to_string(a.shard) + ",\"K\":1");
        budget(30);
        { BitDriver d(seed, a.profile == "p16"); d.run(a.events); }
        budget(0);
        T().end();
    }
}
} // namespace vt
