// Priority queue: complete reachable state spaces for small configurations (C02: order of removal,
// C03: what a full queue gives up), position-exhaustive walks for larger ones.
#include <algorithm>
#include "mc.hpp"

namespace {
struct Item { u32 prio; int id; };
struct PModel { std::vector<Item> v; };  // in order of insertion
struct PSys {
    u32 cap, es;
    u8* q;
    u32* prio;
    u8* store;
    Snapshotter snap;
    PSys(u32 c, u32 e) : cap(c), es(e) {
        q = buf(v_pq_sizeof(), 0xCD);
        prio = (u32*)buf(sizeof(u32) * (size_t)c, 0x99);
        store = buf((size_t)c * e, 0xEE);
        snap.add(q, v_pq_sizeof());
        snap.add(prio, sizeof(u32) * (size_t)c);
        snap.add(store, (size_t)c * e);
    }
    bool init() { return v_pq_init(q, cap, es, prio, store, false); }
};
}
static Str elem(u64 v, u32 es) {
    Str s;
    for (u32 i = 0; i < es; ++i) s += (char)(u8)(i < 4 ? ((v >> (8 * i)) & 255) + (i ? 0x40 * i + 3 : 1) : pat(i, v));
    return s;
}
static bool enqueue(PSys& s, u32 prio, u64 id) {
    u32* p = (u32*)inbuf(&prio, sizeof prio);
    Str e = elem(id, s.es);
    bool r = v_pq_enqueue(s.q, p, inbuf(e.data(), s.es));
    called(); obsv(r);
    return r;
}
// Returns false / true, element in out.
static bool dequeue(PSys& s, Str& out) {
    u8* o = buf(s.es, 0x77);
    bool r = v_pq_dequeue(s.q, o);
    called(); obsv(r); obs(o, s.es);
    out.assign((const char*)o, s.es);
    return r;
}
static size_t highest(const PModel& m) {
    size_t h = 0;
    for (size_t i = 1; i < m.v.size(); ++i) if (m.v[i].prio > m.v[h].prio) h = i;
    return h;
}
static size_t lowest(const PModel& m) {
    size_t h = 0;
    for (size_t i = 1; i < m.v.size(); ++i) if (m.v[i].prio < m.v[h].prio) h = i;
    return h;
}
static void check_dequeue(PSys& s, PModel& m) {
    Str o;
    bool r = dequeue(s, o);
    CHECK(r == !m.v.empty(), "dequeue returned %d with %zu elements held", r, m.v.size());
    if (!r) {
        CHECK(o == Str(s.es, '\x77'), "refused dequeue changed the caller's element");
        return;
    }
    size_t h = highest(m);
    Str w = elem((u64)m.v[h].id, s.es);
    CHECK(o == w, "dequeue delivered %s, expected %s (element #%d, priority %u)", hexs(o).c_str(), hexs(w).c_str(), m.v[h].id, m.v[h].prio);
    m.v.erase(m.v.begin() + (long)h);
}

static Str pkey(const PModel& m) {
    Str k;
    for (auto& i : m.v) { k.append((const char*)&i.prio, 4); k += (char)i.id; }
    return k;
}

// mode 0: order of removal, insertions only while not full. mode 1: overflow policy.
static void bfs(u32 cap, u32 es, const std::vector<u32>& prios, int ids, int mode) {
    PSys s(cap, es);
    g_where = [=]() { return fmt("priority queue of capacity %u, %u byte elements", cap, es); };
    CHECK(s.init(), "init refused");
    Bfs<PModel> b(s.snap);
    size_t nin = prios.size() * (size_t)ids;
    for (u32 p : prios) for (int i = 0; i < ids; ++i) b.opnames.push_back(fmt("enqueue(priority %u, #%d)", p, i));
    b.opnames.push_back("dequeue");
    b.opnames.push_back("empty");
    b.key = pkey;
    // For the overflow policy: what remains is compared with a fresh queue of the same capacity that was given the
    // expected survivors in order - same order of removal, whatever that order is.
    PSys ref(mode == 1 ? cap : 1, es);
    auto drain_equals = [&](const PModel& m, const char* what) {
        Str before = s.snap.save();
        CHECK(ref.init(), "init refused");
        for (auto& i : m.v) CHECK(enqueue(ref, i.prio, (u64)i.id), "insertion into a queue that is not full was refused");
        std::vector<Str> a, c;
        for (size_t i = 0; i <= cap + 1; ++i) {
            Str o;
            bool r1 = dequeue(s, o); a.push_back(r1 ? o : Str("-"));
            bool r2 = dequeue(ref, o); c.push_back(r2 ? o : Str("-"));
        }
        for (size_t i = 0; i < a.size(); ++i)
            CHECK(a[i] == c[i], "after %s, removal %zu gives %s, from a queue holding exactly the elements expected to remain it gives %s",
                  what, i, a[i] == "-" ? "nothing" : hexs(a[i]).c_str(), c[i] == "-" ? "nothing" : hexs(c[i]).c_str());
        s.snap.load(before);
    };
    b.op = [&](size_t i, PModel& m) {
        if (i < nin) {
            u32 p = prios[i / (size_t)ids];
            int id = (int)(i % (size_t)ids);
            bool full = m.v.size() == cap;
            if (full && mode == 0) return false;
            bool r = enqueue(s, p, (u64)id);
            if (!full) {
                if (mode == 0 && !r) return false;  // judged by the other property
                CHECK(r, "insertion with %zu of %u elements held was refused", m.v.size(), cap);
                m.v.push_back({p, id});
                if (mode == 1) drain_equals(m, "an insertion");
            } else {
                size_t l = lowest(m);
                bool want = m.v[l].prio < p;
                CHECK(r == want, "insertion of priority %u into a full queue whose lowest priority is %u returned %d", p, m.v[l].prio, r);
                if (want) { m.v.erase(m.v.begin() + (long)l); m.v.push_back({p, id}); }
                drain_equals(m, want ? "an insertion that evicts" : "a refused insertion");
            }
            return true;
        }
        if (i == nin) {
            if (mode == 0) { check_dequeue(s, m); return true; }
            // overflow mode: follow the implementation's choice, whatever it is
            Str o;
            if (m.v.empty()) return false;
            if (!dequeue(s, o)) return false;
            size_t h = highest(m);
            if (o != elem((u64)m.v[h].id, es)) return false;
            m.v.erase(m.v.begin() + (long)h);
            return true;
        }
        bool e = v_pq_empty(s.q);
        called(); obsv(e);
        CHECK(e == m.v.empty(), "empty answers %d with %zu elements", e, m.v.size());
        return true;
    };
    b.run(PModel());
    report_bfs(fmt("priority queue capacity=%u element=%u priorities=%zu ids=%d", cap, es, prios.size(), ids).c_str(), b.nstates, b.ntrans, b.depth, b.complete);
}
static const std::vector<std::vector<u32>>& prio_sets() {
    static const std::vector<std::vector<u32>> v = {
        {0, 1, 2}, {0, 127, 128}, {1, 255, 256}, {255, 256, 512}, {0x7FFF, 0x8000, 0xFFFF}, {1, 0xFFFF, 0x10000}, {0, 0x10000, 0x20000},
        {0, 0x7FFFFFFF, 0x80000000}, {1, 0x80000000, 0xFFFFFFFF}, {0, 0xFFFFFFFE, 0xFFFFFFFF}, {0x00FFFFFF, 0x01000000, 0x01000001},
        {0x3FFFFFFF, 0x40000000, 0xC0000000}};
    return v;
}
static void bfs_all(int mode) {
    for (auto& ps : prio_sets())
        for (u32 cap = 1; cap <= 3; ++cap) RUN_CASE({ bfs(cap, 4, ps, 2, mode); g_where = nullptr; });
    for (u32 es : {1u, 2u, 3u, 5u, 8u}) for (u32 cap = 1; cap <= 3; ++cap) RUN_CASE({ bfs(cap, es, {5, 6, 7}, 2, mode); g_where = nullptr; });
    RUN_CASE({ bfs(2, 1, {0, 1, 2, 0xFFFFFFFF}, 4, mode); g_where = nullptr; });
    RUN_CASE({ bfs(3, 1, {0, 0x80000000}, 4, mode); g_where = nullptr; });
    RUN_CASE({ bfs(4, 1, {3, 0xFFFFFFFF}, 2, mode); g_where = nullptr; });
    RUN_CASE({ bfs(4, 2, {3, 4, 5}, mode ? 1 : 2, mode); g_where = nullptr; });
    if (G.thorough) {
        RUN_CASE({ bfs(4, 1, {1, 2, 0x80000000, 0xFFFFFFFF}, mode ? 2 : 2, mode); g_where = nullptr; });
        RUN_CASE({ bfs(5, 1, {3, 4, 5}, mode ? 1 : 2, mode); g_where = nullptr; });
        RUN_CASE({ bfs(5, 1, {3, 4}, 2, mode); g_where = nullptr; });
        RUN_CASE({ bfs(6, 1, {3, 0x80000000}, mode ? 1 : 2, mode); g_where = nullptr; });
    }
}
UNIT(pq_order_bfs) { bfs_all(0); }
UNIT(pq_overflow_bfs) { bfs_all(1); }

// Every multiset-permutation of priorities: all sequences over {0..k-1}^n inserted, then drained completely.
UNIT(pq_order_all) {
    u32 n = G.thorough ? 8 : 7;
    for (u32 len = 1; len <= n; ++len) {
        u32 k = len <= 5 ? len : 4;
        if (len == 8) k = 4;
        u64 total = 1;
        for (u32 i = 0; i < len; ++i) total *= k;
        for (u64 blk = 0; blk < total; blk += 1024)
            RUN_CASE({
                for (u64 x = blk; x < blk + 1024 && x < total; ++x) {
                    at("insert %llu elements, priorities = base-%llu digits of %llu, then drain", len, k, x);
                    size_t mk = arena_mark();
                    PSys s(len + (x & 1), 4);
                    PModel m;
                    if (!s.init()) FAIL("init refused");
                    u64 y = x;
                    for (u32 i = 0; i < len; ++i) {
                        u32 p = (u32)(y % k) * 0x3FFFFFFFu; y /= k;
                        if (!enqueue(s, p, i)) return;  // judged by the other property
                        m.v.push_back({p, (int)i});
                    }
                    for (u32 i = 0; i <= len; ++i) check_dequeue(s, m);
                    ++G.states;
                    arena_release(mk);
                }
            });
    }
}

// Order of removal in histories with evictions, whatever element a full queue gives up: the reference is the
// set of all contents that an arbitrary choice at each accepted insertion into the full queue can have left.
namespace {
struct Possible {
    std::vector<std::vector<Item>> v = {{}};  // sorted, without duplicates
};
bool less_item(const Item& a, const Item& b) { return a.prio != b.prio ? a.prio < b.prio : a.id < b.id; }
bool less_items(const std::vector<Item>& a, const std::vector<Item>& b) { return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end(), less_item); }
bool same_items(const std::vector<Item>& a, const std::vector<Item>& b) { return !less_items(a, b) && !less_items(b, a); }
void normalise(Possible& p) {
    std::sort(p.v.begin(), p.v.end(), less_items);
    p.v.erase(std::unique(p.v.begin(), p.v.end(), same_items), p.v.end());
}
void insert_any(Possible& p, u32 cap, u32 prio, int id) {
    std::vector<std::vector<Item>> n;
    for (auto& m : p.v) {
        if (m.size() < cap) { n.push_back(m); n.back().push_back({prio, id}); continue; }
        for (size_t j = 0; j < m.size(); ++j) {
            n.push_back(m);
            n.back().erase(n.back().begin() + (long)j);
            n.back().push_back({prio, id});
        }
    }
    p.v = n;
    normalise(p);
}
}
static void bfs_evict(u32 cap, u32 es, const std::vector<u32>& prios, int ids) {
    PSys s(cap, es);
    g_where = [=]() { return fmt("priority queue of capacity %u, %u byte elements, with evictions", cap, es); };
    CHECK(s.init(), "init refused");
    Bfs<Possible> b(s.snap);
    size_t nin = prios.size() * (size_t)ids;
    for (u32 p : prios) for (int i = 0; i < ids; ++i) b.opnames.push_back(fmt("enqueue(priority %u, #%d)", p, i));
    b.opnames.push_back("dequeue");
    b.key = [](const Possible& p) { Str k; for (auto& m : p.v) { k += (char)m.size(); for (auto& i : m) { k.append((const char*)&i.prio, 4); k += (char)i.id; } } return k; };
    b.op = [&](size_t i, Possible& p) {
        if (i < nin) {
            u32 prio = prios[i / (size_t)ids];
            int id = (int)(i % (size_t)ids);
            if (!enqueue(s, prio, (u64)id)) return true;  // judged by the other property
            insert_any(p, cap, prio, id);
            return true;
        }
        Str o;
        bool r = dequeue(s, o);
        CHECK(r == !p.v[0].empty(), "dequeue returned %d with %zu elements held", r, p.v[0].size());
        if (!r) return true;
        std::vector<std::vector<Item>> n;
        for (auto& m : p.v) {
            PModel x{m};
            size_t h = highest(x);
            if (o != elem((u64)m[h].id, es)) continue;
            n.push_back(m);
            n.back().erase(n.back().begin() + (long)h);
        }
        CHECK(!n.empty(), "dequeue delivered %s, which is not the first of the highest priority held, whatever elements were given up earlier (%zu possible contents)", hexs(o).c_str(), p.v.size());
        p.v = n;
        normalise(p);
        return true;
    };
    if (cap == 5) b.max_states = 1000000;
    if (cap >= 3 && ids > 1) b.max_depth = bylevel<u64>(6, 8, 11) - (ids > 2);  // the sets of possible contents grow large
    b.run(Possible());
    report_bfs(fmt("priority queue with evictions capacity=%u element=%u priorities=%zu ids=%d", cap, es, prios.size(), ids).c_str(), b.nstates, b.ntrans, b.depth, b.complete);
}
// A drained queue: priorities never rise, equals in order of insertion, nothing twice, nothing made up.
static void evict_walk(u32 cap, u32 es, u32 shape, u32 extra) {
    PSys s(cap, es);
    CHECK(s.init(), "init refused");
    std::vector<u32> prio;
    std::unordered_map<Str, u32> byelem;
    u32 accepted = 0;
    for (u32 i = 0; i < cap + extra; ++i) {
        u32 p = shape == 0 ? 5 + i / 3 : shape == 1 ? 7 + (i * 7) % 5 + (i >= cap ? 100 + i : 0) : shape == 2 ? (i % 3) * 0x40000000u + i : shape == 3 ? (i < cap ? cap - i : cap + i) : 0x7FFFFFF0u + i;
        size_t mk = arena_mark();
        prio.push_back(p);
        byelem[elem(i, es)] = i;
        if (enqueue(s, p, i)) ++accepted;
        else prio.back() = 0, byelem.erase(elem(i, es));
        arena_release(mk);
        tick();
    }
    bool first = true;
    u32 last = 0, n = 0;
    for (;; ++n) {
        Str o;
        size_t mk = arena_mark();
        bool r = dequeue(s, o);
        arena_release(mk);
        tick();
        if (!r) break;
        CHECK(n < cap, "more than %u removals", cap);
        auto f = byelem.find(o);
        CHECK(f != byelem.end(), "removal %u delivered %s, which was not held", n, hexs(o).c_str());
        u32 i = f->second;
        CHECK(first || prio[last] > prio[i] || (prio[last] == prio[i] && last < i),
              "after evictions, removal %u delivered element #%u of priority %u after #%u of priority %u", n, i, prio[i], last, prio[last]);
        byelem.erase(f);
        last = i;
        first = false;
    }
    ++G.states;
}
UNIT(pq_order_evict) {
    for (auto& ps : prio_sets())
        for (u32 cap = 1; cap <= 3; ++cap) RUN_CASE({ bfs_evict(cap, 4, ps, 2); g_where = nullptr; });
    for (u32 es : {1u, 2u, 3u, 5u, 8u}) for (u32 cap = 1; cap <= 3; ++cap) RUN_CASE({ bfs_evict(cap, es, {5, 6, 7}, 2); g_where = nullptr; });
    RUN_CASE({ bfs_evict(3, 1, {0, 0x80000000, 0xFFFFFFFF}, 3); g_where = nullptr; });
    for (auto& ps : prio_sets()) RUN_CASE({ bfs_evict(3, 2, ps, 1); g_where = nullptr; });
    RUN_CASE({ bfs_evict(4, 1, {3, 4, 5}, 1); g_where = nullptr; });
    RUN_CASE({ bfs_evict(4, 1, {3, 0xFFFFFFFF}, 2); g_where = nullptr; });
    if (G.thorough) {
        RUN_CASE({ bfs_evict(4, 1, {1, 0x80000000, 0xFFFFFFFF}, 2); g_where = nullptr; });
        RUN_CASE({ bfs_evict(5, 1, {3, 4, 5}, 1); g_where = nullptr; });
    }
    for (u32 cap : {1u, 2u, 3u, 4u, 6u, 9u, 17u, 33u, 64u, 65u, 128u, 255u, 256u, 257u})
        for (u32 es : {4u, 6u, 260u})
            for (u32 shape = 0; shape < 5; ++shape)
                for (u32 extra : {1u, 2u, 7u, cap, cap + 1, 2 * cap + 3}) {
                    if (cap > 128 && extra > 7 && !G.thorough) continue;
                    RUN_CASE({ evict_walk(cap, es, shape, extra); });
                }
}

// Larger queues: the element that must go first (or be evicted) at every single position.
static void positions(u32 cap, u32 es, u32 pos, bool overflow) {
    PSys s(cap, es);
    if (!s.init()) FAIL("init refused");
    PModel m;
    for (u32 i = 0; i < cap; ++i) {
        size_t mk = arena_mark();
        u32 p = overflow ? (i == pos ? 5u : 7u) : (i == pos ? 7u : 5u);
        bool r = enqueue(s, p, i);
        if (overflow) CHECK(r, "insertion with %u of %u elements held was refused", i, cap);
        if (!r) { return; }
        m.v.push_back({p, (int)i});
        arena_release(mk);
        tick();
    }
    if (overflow) {
        size_t mk = arena_mark();
        CHECK(!enqueue(s, 5, 0x7fff0001), "a priority equal to the lowest was accepted by a full queue");
        CHECK(enqueue(s, 6, 0x7fff0002), "a priority higher than the lowest was refused by a full queue");
        m.v.erase(m.v.begin() + (long)pos);
        m.v.push_back({6, 0x7fff0002});
        // reference: the survivors in a fresh queue
        PSys ref(cap, es);
        if (!ref.init()) FAIL("init refused");
        for (auto& i : m.v) { size_t k2 = arena_mark(); CHECK(enqueue(ref, i.prio, (u64)i.id), "insertion refused"); arena_release(k2); tick(); }
        for (u32 i = 0; i <= cap; ++i) {
            Str a, b;
            size_t k2 = arena_mark();
            bool ra = dequeue(s, a), rb = dequeue(ref, b);
            arena_release(k2);
            tick();
            CHECK(ra == rb && a == b, "after evicting position %u, removal %u gives %s/%s, expected %s/%s", pos, i, ra ? "element" : "nothing", hexs(a).c_str(), rb ? "element" : "nothing", hexs(b).c_str());
        }
        arena_release(mk);
    } else {
        for (u32 i = 0; i <= cap; ++i) { size_t k2 = arena_mark(); check_dequeue(s, m); arena_release(k2); tick(); }
    }
    ++G.states;
}
static void positions_all(bool overflow) {
    for (u32 cap : {6u, 9u, 17u, 33u, 64u, 65u})
        for (u32 es : {1u, 4u, 6u})
            for (u32 pos = 0; pos < cap; ++pos) RUN_CASE({ positions(cap, es, pos, overflow); });
    for (u32 cap : {127u, 128u, 129u, 255u, 256u, 257u, 300u})
        for (u32 pos = 0; pos < cap; pos += (G.thorough || pos < 4 || pos + 4 >= cap || (pos & 127) >= 126 || (pos & 127) <= 2 ? 1u : 5u))
            RUN_CASE({ positions(cap, 2, pos, overflow); });
    for (u32 es : edge_sizes()) for (u32 pos : {0u, 1u, 3u}) RUN_CASE({ positions(4, es, pos, overflow); });
    for (u32 es : {255u, 256u, 257u, 300u}) for (u32 pos : {0u, 150u, 254u, 255u, 256u, 299u}) RUN_CASE({ positions(300, es, pos, overflow); });
    for (u32 es : {32768u, 65535u, 65536u, 65537u}) for (u32 pos : {0u, 1u, 2u}) RUN_CASE({ positions(3, es, pos, overflow); });
}
UNIT(pq_order_positions) { positions_all(false); }
UNIT(pq_overflow_positions) { positions_all(true); }

// Long histories of large queues in which insertions and removals alternate in waves, under several distributions of
// the priorities; every result is compared. With evict, insertions go on when the queue is full.
static void mixed(u32 cap, u32 es, int shape, bool evict) {
    PSys s(cap, es);
    CHECK(s.init(), "init refused");
    PModel m;
    u32 next = 0;
    auto prio = [&](u32 i) -> u32 {
        switch (shape) {
        case 0: return (i * 37) % 11;
        case 1: return i % 2 ? 0xFFFFFFFFu - i % 3 : i % 3;
        case 2: return i;
        case 3: return 0xFFFFFFFFu - i;
        default: return (i / 50) % 4 * 0x40000000u;
        }
    };
    auto put = [&]() {
        size_t mk = arena_mark();
        u32 id = next++, p = prio(id);
        bool full = m.v.size() == cap;
        size_t low = full ? lowest(m) : 0;
        bool want = !full || p > m.v[low].prio;
        bool r = enqueue(s, p, id);
        CHECK(r == want, "insertion of element #%u with priority %u returned %d with %zu of %u elements held", id, p, r, m.v.size(), cap);
        if (want) { if (full) m.v.erase(m.v.begin() + (long)low); m.v.push_back({p, (int)id}); }
        arena_release(mk);
        tick();
    };
    auto take = [&]() { size_t mk = arena_mark(); check_dequeue(s, m); arena_release(mk); tick(); };
    const u32 waves[][2] = {{cap, 9}, {5, cap / 3}, {cap / 2, cap / 4}, {1, cap}, {cap / 3, cap / 5}, {cap, cap / 2}, {cap, cap}};
    for (auto& w : waves) {
        at("capacity %llu, element %llu, distribution %llu, after %llu insertions", cap, es, (u64)shape, next);
        for (u32 i = 0; i < w[0] + (evict ? cap / 4 : 0); ++i) if (evict || m.v.size() < cap) put();
        for (u32 i = 0; i < w[1]; ++i) { take(); if (i % 3 == 1 && m.v.size() > 1 && m.v.size() < cap) put(); }
        ++G.states;
    }
    while (!m.v.empty()) take();
    take();
}

// Full very large queues: the element to give up at places on both sides of 2^8, 2^15 and 2^16.
UNIT(pq_overflow_big) {
    for (u32 cap : {1000u, 32769u, 65537u, 66000u})
        for (u32 pos : {0u, 1u, 254u, 255u, 256u, 257u, 999u, 32766u, 32767u, 32768u, 65534u, 65535u, 65536u, 65999u}) {
            if (pos >= cap) continue;
            RUN_CASE({
                at("capacity %llu, lowest priority at place %llu", cap, pos);
                PSys s(cap, 2);
                if (!s.init()) FAIL("init refused");
                PModel m;
                // the lowest once more behind it, so that the older one is to go first
                u32 again = pos + 300 < cap ? pos + 300 : cap;
                auto put = [&](u32 i, u32 p) { size_t mk = arena_mark(); bool r = enqueue(s, p, i); arena_release(mk); tick(); return r; };
                for (u32 i = 0; i < cap; ++i) CHECK(put(i, i == pos || i == again ? 5u : 7u), "insertion with %u of %u elements held was refused", i, cap);
                CHECK(!put(70000, 5), "a priority equal to the lowest was accepted by a full queue");
                CHECK(put(70001, 6), "a priority higher than the lowest was refused by a full queue");
                if (again < cap) CHECK(put(70002, 6), "a priority higher than the lowest was refused by a full queue");
                CHECK(!put(70003, 6), "a priority equal to the lowest was accepted by a full queue");
                // the most important ones are the fillers, in order of insertion, without the evicted
                u32 n = 0;
                for (u32 i = 0; n < 20 && i < cap; ++i) {
                    if (i == pos || i == again) continue;
                    size_t mk = arena_mark();
                    Str o;
                    bool r = dequeue(s, o);
                    tick();
                    CHECK(r && o == elem(i, 2), "removal %u gives %s instead of element %u", n, hexs(o).c_str(), i);
                    ++n;
                    arena_release(mk);
                }
                ++G.states;
            });
        }
    for (u32 cap : {33u, 65u, 129u, 257u, 300u, 513u, 1000u}) for (int shape = 0; shape < 5; ++shape) RUN_CASE({ mixed(cap, shape % 2 ? 3 : 8, shape, true); });
}

// Descending, ascending, and constant fills of very large queues.
UNIT(pq_big) {
    for (u32 cap : {1000u, 32769u, 65537u})
        for (int shape = 0; shape < 3; ++shape)
            RUN_CASE({
                PSys s(cap, 4);
                if (!s.init()) FAIL("init refused");
                for (u32 i = 0; i < cap; ++i) {
                    size_t mk = arena_mark();
                    if (!enqueue(s, shape == 0 ? cap - i : shape == 1 ? i : 9, i)) return;
                    arena_release(mk);
                    tick();
                }
                u32 n = cap > 2000 ? (shape == 1 ? 40 : 12) : cap;
                for (u32 i = 0; i < n; ++i) {
                    size_t mk = arena_mark();
                    Str o;
                    bool r = dequeue(s, o);
                    u32 want = shape == 1 ? cap - 1 - i : i;
                    CHECK(r && o == elem(want, 4), "capacity %u shape %d: removal %u gives %s instead of element %u", cap, shape, i, hexs(o).c_str(), want);
                    arena_release(mk);
                    tick();
                }
                ++G.states;
            });
    for (u32 cap : {33u, 65u, 129u, 257u, 300u, 513u, 1000u}) for (int shape = 0; shape < 5; ++shape) RUN_CASE({ mixed(cap, shape % 2 ? 3 : 8, shape, false); });
}

// Very long histories: the order among equals must not depend on how many insertions came before.
UNIT(pq_long) {
    for (u32 cap : {2u, 3u, 5u})
        for (int kind = 0; kind < 2; ++kind)  // 0: one in, one out; 1: always full, each insertion evicts
            RUN_CASE({
                PSys s(cap, 4);
                CHECK(s.init(), "init refused");
                bool huge = cap == 3 && kind == 0;
                u64 n = huge ? bylevel<u64>(1000000, 1ULL << 30, (1ULL << 32) + 70000) : bylevel<u64>(200000, 5000000, kind ? (1ULL << 32) - 2 : 100000000);
                u32* p = (u32*)buf(4, 0);
                u32* e = (u32*)buf(4, 0);
                u32* o = (u32*)buf(4, 0);
                u32 held = kind ? cap : cap - 1;
                for (u32 i = 0; i < held; ++i) { *e = i; *p = kind ? i : 5; CHECK(v_pq_enqueue(s.q, p, (u8*)e), "refused"); }
                for (u64 i = held; i < n; ++i) {
                    *e = (u32)i;
                    *p = kind ? (u32)i : 5;
                    bool r = v_pq_enqueue(s.q, p, (u8*)e);
                    bool d = kind || v_pq_dequeue(s.q, (u8*)o);
                    if (__builtin_expect(!r || !d || (!kind && *o != (u32)(i - held)), 0)) {
                        at("capacity %llu, %llu elements held, after %llu insertions", cap, held, i);
                        FAIL("insertion %d, removal %d of element %u", r, d, *o);
                    }
                    if ((i & 0xFFFFF) == 0) { tick(); at("capacity %llu, %llu elements held, after %llu insertions", cap, held, i); }
                }
                called(kind ? n : 2 * n);
                obsv(*o);
                for (u32 i = 0; i < held; ++i) {
                    u32 want = (u32)(kind ? n - 1 - i : n - held + i);
                    CHECK(v_pq_dequeue(s.q, (u8*)o) && *o == want, "wrong element %u at the end: %u instead of %u", i, *o, want);
                }
                CHECK(!v_pq_dequeue(s.q, (u8*)o), "not empty at the end");
            });
}
