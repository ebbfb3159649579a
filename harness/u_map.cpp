// Map: complete reachable state spaces for small configurations; all keys of one byte; every
// distinguishing byte position and every slot for larger ones.
#include <map>
#include "mc.hpp"

namespace {
struct MModel { std::map<Str, Str> m; };
struct MSys {
    int32_t ks, vs, max;
    u8 *m, *keys, *vals;
    Snapshotter snap;
    MSys(int32_t k, int32_t v, int32_t n) : ks(k), vs(v), max(n) {
        m = buf(v_map_sizeof(), 0xCD);
        keys = buf((size_t)k * (size_t)n, 0x00);
        vals = buf((size_t)v * (size_t)n, 0x00);
        snap.add(m, v_map_sizeof());
        snap.add(keys, (size_t)k * (size_t)n);
        snap.add(vals, (size_t)v * (size_t)n);
    }
    bool init() { return v_map_init(m, keys, vals, ks, vs, max); }
};
}
static void insert(MSys& s, MModel& m, const Str& k, const Str& v) {
    bool r = v_map_insert(s.m, (const u8*)inraw(k), (const u8*)inraw(v));
    called(); obsv(r);
    bool want = m.m.count(k) || (int32_t)m.m.size() < s.max;
    CHECK(r == want, "insert(%s) returned %d with %zu of %d keys present", hexs(k).c_str(), r, m.m.size(), s.max);
    if (want) m.m[k] = v;
}
static void get(MSys& s, MModel& m, const Str& k) {
    u8* o = buf((size_t)s.vs, 0x77);
    bool r = v_map_get(s.m, (const u8*)inraw(k), o);
    called(); obsv(r); obs(o, (size_t)s.vs);
    auto it = m.m.find(k);
    CHECK(r == (it != m.m.end()), "get(%s) returned %d", hexs(k).c_str(), r);
    Str want = r ? it->second : Str((size_t)s.vs, '\x77');
    CHECK(memcmp(o, want.data(), want.size()) == 0, "get(%s) delivered %s, expected %s", hexs(k).c_str(), hex(o, want.size()).c_str(), hexs(want).c_str());
}
static void bfs(int32_t ks, int32_t vs, int32_t max, const std::vector<Str>& keys, int nvals) {
    MSys s(ks, vs, max);
    g_where = [=]() { return fmt("map of %d entries, %d byte keys, %d byte values", max, ks, vs); };
    CHECK(s.init(), "init refused");
    std::vector<Str> vals;
    for (int v = 0; v < nvals; ++v) { Str x; for (int i = 0; i < vs; ++i) x += (char)(u8)(v * 0x51 + i * 3 + (v ? 1 : 0)); vals.push_back(x); }
    Bfs<MModel> b(s.snap);
    for (auto& k : keys) for (auto& v : vals) b.opnames.push_back("insert(" + hexs(k) + "," + hexs(v) + ")");
    for (auto& k : keys) b.opnames.push_back("get(" + hexs(k) + ")");
    b.opnames.push_back("init");
    if (G.thorough && max >= 5) b.max_states = 2000000;
    b.key = [](const MModel& m) { Str k; for (auto& e : m.m) k += e.first + e.second; return k; };
    b.op = [&](size_t i, MModel& m) {
        size_t nin = keys.size() * vals.size();
        if (i < nin) { insert(s, m, keys[i / vals.size()], vals[i % vals.size()]); return true; }
        if (i < nin + keys.size()) { get(s, m, keys[i - nin]); return true; }
        bool r = s.init();
        called(); obsv(r);
        CHECK(r, "init refused");
        m.m.clear();
        return true;
    };
    b.run(MModel());
    report_bfs(fmt("map entries=%d key=%d value=%d keys=%zu values=%d", max, ks, vs, keys.size(), nvals).c_str(), b.nstates, b.ntrans, b.depth, b.complete);
}
static std::vector<Str> tricky_keys(int32_t ks, size_t n) {
    std::vector<Str> all;
    Str z((size_t)ks, '\0');
    auto add = [&](Str k) { for (auto& x : all) if (x == k) return; if (all.size() < n) all.push_back(k); };
    add(z);
    { Str k = z; k[(size_t)ks - 1] = 1; add(k); }
    { Str k = z; k[0] = 1; add(k); }
    { Str k((size_t)ks, '\xff'); add(k); }
    { Str k = z; k[(size_t)ks / 2] = '\x80'; add(k); }
    { Str k((size_t)ks, 'A'); add(k); k[(size_t)ks - 1] = 'a'; add(k); }
    for (int i = 2; i < 250 && all.size() < n; ++i) { Str k = z; k[0] = (char)i; add(k); }
    return all;
}
UNIT(map_bfs) {
    for (int32_t max = 1; max <= 3; ++max)
        for (int32_t ks : {1, 2, 3, 4, 5, 8})
            for (int32_t vs : {1, 2, 4, 7}) RUN_CASE({ bfs(ks, vs, max, tricky_keys(ks, (size_t)max + 2), max <= 2 ? 3 : 2); g_where = nullptr; });
    RUN_CASE({ bfs(2, 1, 4, tricky_keys(2, 5), 2); g_where = nullptr; });
    RUN_CASE({ bfs(1, 2, 4, tricky_keys(1, 5), 2); g_where = nullptr; });
    if (G.thorough) {
        RUN_CASE({ bfs(4, 4, 4, tricky_keys(4, 6), 2); g_where = nullptr; });
        if (G.deep) RUN_CASE({ bfs(3, 1, 5, tricky_keys(3, 6), 2); g_where = nullptr; });
        RUN_CASE({ bfs(3, 1, 5, tricky_keys(3, 5), 2); g_where = nullptr; });
        RUN_CASE({ bfs(1, 1, 6, tricky_keys(1, 7), 1); g_where = nullptr; });
    }
}
// For every pair of one-byte keys: stored under one, asked for the other.
UNIT(map_bytes) {
    for (int a = 0; a < 256; ++a)
        RUN_CASE({
            for (int b = 0; b < 256; ++b) {
                at("one byte keys %llu and %llu", (u64)a, (u64)b);
                size_t mk = arena_mark();
                MSys s(1, 1, 2);
                if (!s.init()) FAIL("init refused");
                MModel m;
                insert(s, m, Str(1, (char)a), Str(1, (char)b));
                get(s, m, Str(1, (char)b));
                insert(s, m, Str(1, (char)b), Str(1, (char)~a));
                get(s, m, Str(1, (char)a));
                get(s, m, Str(1, (char)b));
                ++G.states;
                arena_release(mk);
            }
        });
}
// Keys that differ in exactly one byte (at every position, after equal and after zero bytes), values of all sizes.
UNIT(map_sizes) {
    for (u32 ks : edge_sizes())
        RUN_CASE({
            for (u32 pos = 0; pos < ks; ++pos)
                for (int base : {0, 0x41, 0xff})
                    for (int bit : {0, 5, 7}) {
                        at("key size %llu, keys differ in bit %llu of byte %llu, base %llu", ks, (u64)bit, pos, (u64)base);
                        size_t mk = arena_mark();
                        MSys s((int32_t)ks, 3, 2);
                        if (!s.init()) FAIL("init refused");
                        MModel m;
                        Str a(ks, (char)base), b = a;
                        b[pos] = (char)(b[pos] ^ (1 << bit));
                        insert(s, m, a, "one");
                        get(s, m, b);
                        insert(s, m, b, "two");
                        get(s, m, a); get(s, m, b);
                        insert(s, m, a, Str("\0\1\0", 3));
                        get(s, m, a); get(s, m, b);
                        insert(s, m, Str(ks, '\x13'), "xxx");  // refused: full
                        get(s, m, a); get(s, m, b); get(s, m, Str(ks, '\x13'));
                        ++G.states;
                        arena_release(mk);
                        tick();
                    }
        });
    for (u32 vs : {1u, 2u, 3u, 4u, 8u, 63u, 64u, 65u, 127u, 128u, 129u, 255u, 256u, 257u, 300u, 1000u, 32767u, 32768u, 65535u, 65536u, 65537u})
        for (u32 ks : {1u, 4u, 257u})
            RUN_CASE({
                MSys s((int32_t)ks, (int32_t)vs, 4);
                if (!s.init()) FAIL("init refused");
                MModel m;
                auto val = [&](u64 salt) { Str v; for (u32 i = 0; i < vs; ++i) v += (char)pat(i, salt); return v; };
                for (int round = 0; round < 2; ++round)
                    for (int k = 0; k < 5; ++k) {
                        Str key(ks, '\0'); key[ks - 1] = (char)k;
                        insert(s, m, key, val((u64)(round * 10 + k)));
                        for (int j = 0; j < 5; ++j) { size_t mk = arena_mark(); Str kk(ks, '\0'); kk[ks - 1] = (char)j; get(s, m, kk); arena_release(mk); }
                        tick();
                    }
                ++G.states;
            });
    for (u32 ks : {1000u, 4096u, 32767u, 32768u, 65535u, 65536u, 65537u, 70000u, 131073u})
        RUN_CASE({
            for (u32 pos : {0u, 1u, 255u, 256u, ks / 2, 32767u, 32768u, 65535u, 65536u, ks - 2, ks - 1}) {
                if (pos >= ks) continue;
                at("key size %llu, keys differ in byte %llu", ks, pos);
                size_t mk = arena_mark();
                MSys s((int32_t)ks, 2, 2);
                if (!s.init()) FAIL("init refused");
                MModel m;
                Str a(ks, 'k'), b = a;
                b[pos] = 'K';
                insert(s, m, a, "on");
                get(s, m, b);
                insert(s, m, b, "tw");
                get(s, m, a); get(s, m, b);
                ++G.states;
                arena_release(mk);
                tick();
            }
        });
    // Keys that differ in two bytes, at every pair of positions, with the same bytes in another order, the same sum or
    // the same parity; and keys which are each other turned around or rotated.
    for (u32 ks : edge_sizes()) {
        if (ks < 2 || ks > (G.thorough ? 129u : 65u)) continue;
        RUN_CASE({
            Str a;
            for (u32 i = 0; i < ks; ++i) a += (char)(u8)(0x31 + i * 7);
            auto apart = [&](const Str& x, const Str& y) {
                if (x == y) return;
                size_t mk = arena_mark();
                MSys s((int32_t)ks, 3, 2);
                if (!s.init()) FAIL("init refused");
                MModel m;
                insert(s, m, x, "one");
                get(s, m, y);
                insert(s, m, y, "two");
                get(s, m, x); get(s, m, y);
                ++G.states;
                arena_release(mk);
            };
            for (u32 p = 0; p < ks; ++p) {
                for (u32 q = p + 1; q < ks; ++q)
                    for (int kind = 0; kind < 4; ++kind) {
                        at("key size %llu, keys differ in bytes %llu and %llu, kind %llu", ks, p, q, (u64)kind);
                        Str x = a, y = a;
                        if (kind == 0) std::swap(y[p], y[q]);
                        else if (kind == 1) { y[p] = (char)(y[p] + 1); y[q] = (char)(y[q] - 1); }
                        else if (kind == 2) { y[p] = (char)(y[p] ^ 0x10); y[q] = (char)(y[q] ^ 0x10); }
                        else { x = y = Str(ks, '\0'); x[p] = 1; y[q] = 1; }
                        apart(x, y);
                    }
                at("key size %llu, keys rotated by %llu", ks, p);
                apart(a, a.substr(p) + a.substr(0, p));
                tick();
            }
            apart(a, Str(a.rbegin(), a.rend()));
        });
    }
}
// Many entries: all slots are found, updated in place, and the map is full exactly at its maximum.
UNIT(map_many) {
    std::vector<u32> sizes = {5, 8, 16, 17, 64, 127, 128, 129, 255, 256, 257, 300, 1000};
    if (G.thorough) sizes.push_back(4097);
    for (u32 n : sizes)
        for (u32 ks : {2u, 4u, 9u})
            RUN_CASE({
                MSys s((int32_t)ks, 5, (int32_t)n);
                if (!s.init()) FAIL("init refused");
                MModel m;
                auto key = [&](u32 i) { Str k(ks, '\0'); k[ks - 1] = (char)i; k[ks - 2] = (char)(i >> 8); return k; };
                auto val = [&](u32 i, u32 g) { Str v; for (u32 j = 0; j < 5; ++j) v += (char)pat(j + 5 * i, g); return v; };
                auto ins = [&](u32 i, u32 g) { size_t mk = arena_mark(); insert(s, m, key(i), val(i, g)); arena_release(mk); tick(); };
                auto g1 = [&](u32 i) { size_t mk = arena_mark(); get(s, m, key(i)); arena_release(mk); tick(); };
                for (u32 i = 0; i < n; ++i) { ins(i, 0); g1(i); g1(i + 1); ins(i / 2, 2); g1(i / 2); g1(0); g1(i); }
                ins(n, 0); ins(n + 1, 0);
                for (u32 i = 0; i <= n; ++i) g1(i);
                for (u32 i = n; i-- > 0;) { ins(i, 1); g1(i); }
                for (u32 i = 0; i <= n; ++i) g1(i);
                ++G.states;
            });
    // indices beyond 2^15 and 2^16
    for (u32 n : {32769u, 65537u})
        if (G.thorough) RUN_CASE({
            u8* m = buf(v_map_sizeof());
            u8* kk = buf((size_t)n * 4);
            u8* vv = buf((size_t)n * 4);
            u32* k = (u32*)buf(4);
            u32* v = (u32*)buf(4);
            std::vector<u32> want(n);
            CHECK(v_map_init(m, kk, vv, 4, 4, (int32_t)n), "init refused");
            auto ask = [&](u32 i) {
                *k = i; *v = 0;
                CHECK(v_map_get(m, (u8*)k, (u8*)v) && *v == want[i], "key %u gives %u instead of %u", i, *v, want[i]);
                called();
            };
            for (u32 i = 0; i < n; ++i) {
                at("map of %llu entries, entry %llu", n, i);
                *k = i; *v = want[i] = i * 3 + 1;
                CHECK(v_map_insert(m, (u8*)k, (u8*)v), "insertion of key %u refused", i);
                if ((i & 255) == 0) { tick(); ask(i / 2); }
            }
            *k = n; *v = 7;
            CHECK(!v_map_insert(m, (u8*)k, (u8*)v), "key accepted by a full map");
            CHECK(!v_map_get(m, (u8*)k, (u8*)v), "absent key found");
            called(n + 2);
            const std::vector<u32> at_places = {0u, 1u, 127u, 128u, 255u, 256u, 257u, 32767u, 32768u, 32769u, 65534u, 65535u, 65536u};
            for (u32 i : at_places) {
                if (i >= n) continue;
                *k = i; *v = want[i] = 1000000 + i;
                CHECK(v_map_insert(m, (u8*)k, (u8*)v), "update of key %u refused", i);
                for (u32 j : at_places) if (j < n) ask(j);
                tick();
            }
            for (u32 i = 0; i < n; i += 251) { ask(i); tick(); }
            ++G.states;
        });
    // stride overflow: index * size beyond 2^16
    for (u32 ks : {256u, 300u}) RUN_CASE({
        MSys s((int32_t)ks, (int32_t)ks + 1, 300);
        if (!s.init()) FAIL("init refused");
        MModel m;
        auto key = [&](u32 i) { Str k; for (u32 j = 0; j < ks; ++j) k += (char)pat(j, i); return k; };
        auto val = [&](u32 i) { Str k; for (u32 j = 0; j < ks + 1; ++j) k += (char)pat(j, 1000 + i); return k; };
        for (u32 i = 0; i < 301; ++i) { size_t mk = arena_mark(); insert(s, m, key(i), val(i)); arena_release(mk); tick(); }
        for (u32 i = 0; i < 301; ++i) { size_t mk = arena_mark(); get(s, m, key(i)); arena_release(mk); tick(); }
        ++G.states;
    });
}
