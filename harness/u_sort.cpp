// The four sorts: all small arrays, structured large ones (C06), stability (C08), and all possible
// answer sequences of the comparison function (C07).
#include <algorithm>
#include "mc.hpp"

static int32_t c_es;       // element size
static u32 c_kp, c_kn;     // position and number of key bytes
static bool c_desc;
static u64 c_budget, c_count;

static u32 keyof(const u8* p) { u32 k = 0; for (u32 i = 0; i < c_kn; ++i) k = (k << 8) | p[c_kp + i]; return k; }
static bool cmp_key(void* a, void* b) {
    if (++c_count > c_budget) FAIL("more than %llu comparisons: the sort does not end", (unsigned long long)c_budget);
    u32 x = keyof((const u8*)a), y = keyof((const u8*)b);
    return c_desc ? x < y : x > y;
}
// element: key and id at fixed places, everything else depends on the id
static void make(u8* p, u32 es, u32 key, u32 id) {
    for (u32 i = 0; i < es; ++i) p[i] = pat(i, id);
    u32 rest = es - c_kn;
    if (rest >= 1) { u32 ip = c_kp == 0 ? c_kn : 0; for (u32 i = 0; i < rest && i < 3; ++i) p[ip + i] = (u8)(id >> (8 * i)); }
    for (u32 i = 0; i < c_kn; ++i) p[c_kp + i] = (u8)(key >> (8 * (c_kn - 1 - i)));
}
static u32 idof(const u8* p, u32 es) {
    u32 rest = es - c_kn;
    u32 ip = c_kp == 0 ? c_kn : 0, id = 0;
    for (u32 i = 0; i < rest && i < 3; ++i) id |= (u32)p[ip + i] << (8 * i);
    return id;
}
static Str keys_text(const std::vector<u32>& k) { Str s; for (size_t i = 0; i < k.size() && i < 40; ++i) s += fmt("%s%u", i ? " " : "", k[i]); if (k.size() > 40) s += " .."; return s; }

enum { ORDERED = 1, STABLE = 2 };
// Sorts the array with the given keys; ids are the positions.
static void check_sort(int which, u32 es, const std::vector<u32>& keys, bool desc, int what, u32 key_bytes = 1, bool key_last = false) {
    u32 n = (u32)keys.size();
    c_kn = key_bytes;
    c_kp = key_last ? es - key_bytes : 0;
    c_es = (int32_t)es;
    c_desc = desc;
    c_count = 0;
    c_budget = 4 * (u64)n * n + 100;
    u8* a = buf((size_t)n * es);
    for (u32 i = 0; i < n; ++i) make(a + (size_t)i * es, es, keys[i], i);
    Str orig((const char*)a, (size_t)n * es);
    v_sort(which, a, (int32_t)n, (int32_t)es, cmp_key);
    called();
    // the outcome of the unstable sorts among equal elements is specified up to permutation only
    if (what & STABLE) obs(a, (size_t)n * es); else for (u32 i = 0; i < n; ++i) obsv(keyof(a + (size_t)i * es));
    auto ctx = [&]() { return fmt("%s sort of %u elements of %u bytes, %s, keys %s", v_sort_name(which), n, es, desc ? "descending" : "ascending", keys_text(keys).c_str()); };
    u32 idb = n <= 256 ? 1u : n <= 65536 ? 2u : 3u;
    u32 idmask = (1u << (8 * idb)) - 1;
    bool ids = es - key_bytes >= idb;
    if (what & ORDERED) {
        for (u32 i = 0; i + 1 < n; ++i) {
            u32 x = keyof(a + (size_t)i * es), y = keyof(a + (size_t)(i + 1) * es);
            CHECK(desc ? x >= y : x <= y, "%s: elements %u and %u are out of order", ctx().c_str(), i, i + 1);
        }
        if (ids) {
            std::vector<char> seen(n, 0);
            for (u32 i = 0; i < n; ++i) {
                u32 id = idof(a + (size_t)i * es, es);
                id &= idmask;
                CHECK(id < n && !seen[id], "%s: element %u afterwards is damaged or a duplicate (%s)", ctx().c_str(), i, hex(a + (size_t)i * es, es).c_str());
                seen[id] = 1;
                CHECK(memcmp(a + (size_t)i * es, orig.data() + (size_t)id * es, es) == 0, "%s: element %u is damaged: %s instead of %s", ctx().c_str(), i, hex(a + (size_t)i * es, es).c_str(), hex(orig.data() + (size_t)id * es, es).c_str());
            }
        } else {
            std::vector<Str> x, y;
            for (u32 i = 0; i < n; ++i) { x.push_back(Str((const char*)a + (size_t)i * es, es)); y.push_back(orig.substr((size_t)i * es, es)); }
            std::sort(x.begin(), x.end());
            std::sort(y.begin(), y.end());
            CHECK(x == y, "%s: the elements afterwards are not those before", ctx().c_str());
        }
    }
    if ((what & STABLE) && ids)
        for (u32 i = 0; i + 1 < n; ++i) {
            if (keyof(a + (size_t)i * es) != keyof(a + (size_t)(i + 1) * es)) continue;
            u32 x = idof(a + (size_t)i * es, es), y = idof(a + (size_t)(i + 1) * es, es);
            x &= idmask; y &= idmask;
            CHECK(x < y, "%s: equal elements %u and %u changed their order", ctx().c_str(), x, y);
        }
}
static void check_sort_m(int w, u32 es, const std::vector<u32>& k, bool d, int what, u32 kb = 1, bool kl = false) {
    size_t mk = arena_mark();
    check_sort(w, es, k, d, what, kb, kl);
    arena_release(mk);
}
static bool allowed(int w, u32 es) { return w != SORT_INSERTION || es <= 64; }
static bool stable(int w) { return w == SORT_BUBBLE || w == SORT_INSERTION; }

static void all_arrays(int what) {
    for (int w = 0; w < SORT_COUNT; ++w) {
        if (what == STABLE && !stable(w)) continue;
        for (u32 es : {1u, 2u, 3u, 4u, 8u, 17u, 64u}) {
            if (what == STABLE && es == 1) continue;
            u32 nmax = es == 4 ? (G.thorough ? 8 : 7) : 6;
            for (u32 n = 0; n <= nmax; ++n) {
                u32 k = n < 2 ? 2 : n <= 6 ? n : n == 7 ? (G.thorough ? 7 : 5) : 4;
                u64 total = 1;
                for (u32 i = 0; i < n; ++i) total *= k;
                for (u64 blk = 0; blk < total; blk += 4096)
                    RUN_CASE({
                        std::vector<u32> keys(n);
                        for (u64 x = blk; x < blk + 4096 && x < total; ++x) {
                            u64 y = x;
                            for (u32 i = 0; i < n; ++i) { keys[i] = (u32)(y % k); y /= k; }
                            at("sort %llu, %llu elements of %llu bytes, keys base-%llu %llu", (u64)w, n, es, k, x);
                            check_sort_m(w, es, keys, (x & 1) != 0, what, 1, es > 1 && (es & 1) == 0);
                            if (n <= 5) check_sort_m(w, es, keys, (x & 1) == 0, what, 1, es > 1 && (es & 1) != 0);
                            ++G.states;
                        }
                    });
            }
        }
    }
}
UNIT(sort_all) { all_arrays(ORDERED); }
UNIT(sort_stable_all) { all_arrays(STABLE); }

static std::vector<std::vector<u32>> shapes(u32 n) {
    std::vector<std::vector<u32>> r;
    std::vector<u32> v(n);
    auto add = [&](std::function<u32(u32)> f) { for (u32 i = 0; i < n; ++i) v[i] = f(i) & 0xffff; r.push_back(v); };
    add([&](u32 i) { return i; });
    add([&](u32 i) { return n - i; });
    add([&](u32) { return 5u; });
    add([&](u32 i) { return i & 1; });
    add([&](u32 i) { return i < n / 2 ? 1u : 0u; });
    add([&](u32 i) { return i < n / 2 ? i : n - i; });
    add([&](u32 i) { return i < n / 2 ? n - i : i; });
    add([&](u32 i) { return (i * 7919u) % n; });
    add([&](u32 i) { return (i * 7919u) % 5; });
    add([&](u32 i) { return (i + n / 3) % n; });
    add([&](u32 i) { return (u32)pat(i, 3) * 256u + pat(i, 4); });
    add([&](u32 i) { return (u32)pat(i, 5); });
    return r;
}
static void sizes(int what) {
    // element sizes
    for (int w = 0; w < SORT_COUNT; ++w) {
        if (what == STABLE && !stable(w)) continue;
        for (u32 es : {2u, 3u, 4u, 5u, 6u, 7u, 8u, 9u, 12u, 15u, 16u, 17u, 24u, 31u, 32u, 33u, 40u, 48u, 63u, 64u, 65u, 66u, 127u, 128u, 129u, 255u, 256u, 257u, 300u, 1000u, 65536u, 65537u}) {
            if (!allowed(w, es)) continue;
            for (u32 n : {2u, 3u, 5u, 9u, 12u}) {
                if (es > 1000 && n > 5) continue;
                RUN_CASE({
                    for (auto& k : shapes(n)) for (int d = 0; d < 2; ++d) { check_sort_m(w, es, k, d != 0, what, es >= 3 ? 2 : 1, d != 0); ++G.states; }
                });
            }
        }
        // element counts
        for (u32 n : {10u, 16u, 31u, 32u, 33u, 63u, 64u, 65u, 100u, 127u, 128u, 129u, 255u, 256u, 257u, 300u, 513u})
            for (u32 es : {4u, 12u})
                RUN_CASE({
                    for (auto& k : shapes(n)) for (int d = 0; d < 2; ++d) { check_sort_m(w, es, k, d != 0, what, 2, d != 0); ++G.states; tick(); }
                });
        // one element out of place, from every position to every extreme
        for (u32 n : {20u, 64u, 130u, 260u})
            RUN_CASE({
                for (u32 p = 0; p < n; ++p)
                    for (u32 to : {0u, n, 2 * n}) {
                        if (n > 100 && !G.thorough && p % 3 && p > 4 && p + 4 < n) continue;
                        std::vector<u32> k(n);
                        for (u32 i = 0; i < n; ++i) k[i] = 1 + 2 * i;
                        k[p] = to;
                        at("sort %llu, one of %llu elements out of place: %llu -> %llu", (u64)w, n, p, to);
                        check_sort_m(w, 4, k, false, what, 2);
                        ++G.states;
                        tick();
                    }
            });
        // offsets beyond 2^15 and 2^16
        for (u32 es : {64u, 300u}) for (u32 n : {257u, 1100u}) {
            if (!allowed(w, es) || (u64)es * n > 100000 || (n > 1000 && es > 64)) continue;
            RUN_CASE({ for (auto& k : shapes(n)) { check_sort_m(w, es, k, false, what, 2); ++G.states; tick(); } });
        }
        for (u32 n : {1000u, 2000u, 5000u})
            RUN_CASE({ auto s = shapes(n); for (size_t i = 0; i < s.size(); i += (n > 2000 ? 4 : 1)) { check_sort_m(w, 4, s[i], false, what, 2); ++G.states; tick(); } });
    }
}
UNIT(sort_sizes) { sizes(ORDERED); }
UNIT(sort_stable_sizes) { sizes(STABLE); }
// Element counts beyond 2^15 and 2^16.
UNIT(sort_big) {
    for (int w = 0; w < SORT_COUNT; ++w)
        for (u32 n : {32769u, 65537u, 70000u}) {
            if (w == SORT_SELECTION && !G.thorough && n != 32769u) continue;
            RUN_CASE({
                std::vector<u32> k(n);
                // nearly sorted, so that the quadratic sorts stay affordable: last element belongs to the middle
                for (u32 i = 0; i < n; ++i) k[i] = i < n / 2 ? 1 : i < n - 1 ? 3 : 2;
                if (w == SORT_HEAP) for (u32 i = 0; i < n; ++i) k[i] = (i * 7919u) % 65521u;
                check_sort(w, 5, k, false, ORDERED, 2);
                ++G.states;
            });
        }
}

// ------------------------------------------------------------------ arbitrary comparison functions
static std::vector<u8> d_choice;   // answers given so far
static size_t d_pos;
static const Str* d_orig;
static u32 d_n, d_es;
static u64 d_max;
static bool answer() {
    if (d_pos < d_choice.size()) return d_choice[d_pos++] != 0;
    d_choice.push_back(0);
    ++d_pos;
    return false;
}
static void check_arg(const void* p, const char* which) {
    CHECK(readable(p, d_es), "comparison %zu: the %s argument is not a readable element", d_pos, which);
    for (u32 i = 0; i < d_n; ++i) if (memcmp(p, d_orig->data() + (size_t)i * d_es, d_es) == 0) return;
    FAIL("comparison %zu: the %s argument (%s) is not an element of the array", d_pos, which, hex(p, d_es).c_str());
}
static bool cmp_tree(void* a, void* b) {
    if (d_n < 2) FAIL("the comparison function was called for %u elements", d_n);
    check_arg(a, "first");
    check_arg(b, "second");
    if (d_pos > d_max) FAIL("more than %llu comparisons of %u elements", (unsigned long long)d_max, d_n);
    return answer();
}
static Str answers() { Str s; for (u8 c : d_choice) s += (char)('0' + c); return s; }
static void check_perm(const u8* a, const Str& orig, u32 n, u32 es) {
    std::vector<char> used(n, 0);
    for (u32 i = 0; i < n; ++i) {
        bool ok = false;
        for (u32 j = 0; j < n && !ok; ++j)
            if (!used[j] && memcmp(a + (size_t)i * es, orig.data() + (size_t)j * es, es) == 0) { used[j] = 1; ok = true; }
        CHECK(ok, "element %u afterwards (%s) is damaged, lost or a duplicate", i, hex(a + (size_t)i * es, es).c_str());
    }
}
// Explores every sequence of answers (depth-first, stateless). Returns the number of executions.
static u64 tree(int w, u32 n, u32 es, const std::vector<u8>& fixed) {
    d_n = n; d_es = es;
    Str orig;
    for (u32 i = 0; i < n; ++i) { Str e(es, 0); for (u32 j = 0; j < es; ++j) e[j] = (char)pat(j, 77 + i); e[es - 1] = (char)(i + 1); orig += e; }
    d_orig = &orig;
    d_max = 8 * (u64)n * n + 16;
    d_choice = fixed;
    u64 runs = 0;
    g_where = [=]() { return fmt("%s sort of %u elements of %u bytes, answers %s", v_sort_name(w), n, es, answers().c_str()); };
    for (;;) {
        d_pos = 0;
        size_t mk = arena_mark();
        u8* a = buf((size_t)n * es);
        memcpy(a, orig.data(), orig.size());
        v_sort(w, a, (int32_t)n, (int32_t)es, cmp_tree);
        called();
        ++runs;
        ++G.states;
        obs(a, (size_t)n * es);
        check_perm(a, orig, n, es);
        arena_release(mk);
        if ((runs & 1023) == 0) tick();
        d_choice.resize(d_pos);
        while (d_choice.size() > fixed.size() && d_choice.back() == 1) d_choice.pop_back();
        if (d_choice.size() <= fixed.size()) break;
        d_choice.back() = 1;
    }
    g_where = nullptr;
    return runs;
}
UNIT(sort_adversarial) {
    for (int w = 0; w < SORT_COUNT; ++w) {
        for (u32 n = 0; n <= 5; ++n)
            for (u32 es : {1u, 2u, 4u, 7u, 64u}) RUN_CASE({
                u64 r = tree(w, n, es, {});
                if (n == 5 && es == 4) report_bfs(fmt("%s sort, 5 elements, all answer sequences", v_sort_name(w)).c_str(), r, r, 0, true);
            });
        for (u32 n : {6u, 7u}) {
            if (n == 7 && !G.thorough && w != SORT_HEAP) continue;
            if (n == 7 && w == SORT_HEAP && !G.thorough) continue;
            // split by the first answers to spread the work
            for (u32 f = 0; f < 64; ++f) RUN_CASE({
                std::vector<u8> fixed;
                for (u32 i = 0; i < 6; ++i) fixed.push_back((f >> i) & 1);
                // only complete prefixes: every sort of 6 and more elements makes at least 5 comparisons
                tree(w, n, 4, fixed);
            });
        }
    }
}
// Larger arrays: constant, alternating, periodic and hostile-but-consistent-looking answers.
static u64 p_kind, p_cnt;
static bool cmp_pattern(void* a, void* b) {
    check_arg(a, "first");
    check_arg(b, "second");
    if (++p_cnt > d_max) FAIL("more than %llu comparisons of %u elements", (unsigned long long)d_max, d_n);
    d_pos = p_cnt;
    switch (p_kind) {
        case 0: return false;
        case 1: return true;
        case 2: return p_cnt & 1;
        case 3: return (p_cnt & 1) == 0;
        case 4: return (p_cnt % 3) == 0;
        case 5: return (p_cnt % 3) != 0;
        case 6: return ((u8*)a)[0] >= ((u8*)b)[0];
        case 7: return ((u8*)a)[0] != ((u8*)b)[0];
        case 8: return a > b;
        case 9: return a < b;
        case 10: return (((u8*)a)[0] - ((u8*)b)[0]) & 4;
        case 11: return p_cnt > d_n;
        case 12: return p_cnt < d_n;
        default: return pat(p_cnt, p_kind) & 1;
    }
}
UNIT(sort_hostile) {
    for (int w = 0; w < SORT_COUNT; ++w)
        for (u32 n : {2u, 3u, 8u, 9u, 17u, 64u, 65u, 128u, 129u, 255u, 256u, 257u})
            for (u32 es : {1u, 4u, 33u, 64u, 65u, 129u, 257u}) {
                if (!allowed(w, es) || (n > 128 && es != 4) || (es > 64 && n > 17)) continue;
                RUN_CASE({
                d_n = n; d_es = es;
                Str orig;
                for (u32 i = 0; i < n; ++i) { Str e(es, 0); for (u32 j = 0; j < es; ++j) e[j] = (char)pat(j, 77 + i); e[es - 1] = (char)i; orig += e; }
                d_orig = &orig;
                d_max = 8 * (u64)n * n + 16;
                for (p_kind = 0; p_kind < 40; ++p_kind) {
                    g_where = [=]() { return fmt("%s sort of %u elements of %u bytes, answer pattern %llu", v_sort_name(w), n, es, (unsigned long long)p_kind); };
                    p_cnt = 0;
                    size_t mk = arena_mark();
                    u8* a = buf((size_t)n * es);
                    memcpy(a, orig.data(), orig.size());
                    v_sort(w, a, (int32_t)n, (int32_t)es, cmp_pattern);
                    called();
                    if (p_kind != 8 && p_kind != 9) obs(a, (size_t)n * es);
                    check_perm(a, orig, n, es);
                    ++G.states;
                    arena_release(mk);
                    tick();
                }
                g_where = nullptr;
                });
            }
}
