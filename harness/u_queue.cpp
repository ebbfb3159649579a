// Bounded queue: complete reachable state space for small configurations, exhaustive
// (offset, fill) grids for larger ones.
#include <deque>
#include "mc.hpp"

// Element number v: es bytes, all of them depending on v.
static Str elem(u64 v, u32 es) {
    Str s;
    for (u32 i = 0; i < es; ++i) s += (char)(u8)(i < 8 ? ((v >> (8 * (i % es))) & 255) ^ (i * 0x35) ^ 0x11 : pat(i, v));
    if (es < 4) { for (u32 i = 0; i < es; ++i) s[i] = (char)(u8)(v + 7 * i + 1); }
    return s;
}

namespace {
struct QModel { std::deque<int> q; };

struct QSys {
    u32 cap, es;
    u8* q;
    u8* store;
    Snapshotter snap;
    QSys(u32 c, u32 e) : cap(c), es(e) {
        q = buf(v_queue_sizeof(), 0xCD);
        store = buf((size_t)c * e, 0xEE);
        snap.add(q, v_queue_sizeof());
        snap.add(store, (size_t)c * e);
    }
};
}

static void check_observers(QSys& s, const QModel& m) {
    bool f = v_queue_full(s.q), e = v_queue_empty(s.q);
    obsv(f); obsv(e);
    CHECK(f == (m.q.size() == s.cap), "full answers %d with %zu of %u elements", f, m.q.size(), s.cap);
    CHECK(e == m.q.empty(), "empty answers %d with %zu of %u elements", e, m.q.size(), s.cap);
}

// One output operation (0 dequeue, 1 front, 2 rear) checked against the model.
static void check_out(QSys& s, QModel& m, int kind) {
    static const char* n[] = {"dequeue", "front", "rear"};
    u8* out = buf(s.es, 0x77);
    bool r = kind == 0 ? v_queue_dequeue(s.q, out) : kind == 1 ? v_queue_front(s.q, out) : v_queue_rear(s.q, out);
    called();
    obsv(r); obs(out, s.es);
    CHECK(r == !m.q.empty(), "%s returned %d with %zu elements held", n[kind], r, m.q.size());
    Str want = m.q.empty() ? Str(s.es, '\x77') : elem((u64)(kind == 2 ? m.q.back() : m.q.front()), s.es);
    CHECK(memcmp(out, want.data(), s.es) == 0, "%s delivered %s instead of %s", n[kind], hex(out, s.es).c_str(), hexs(want).c_str());
    if (kind == 0 && !m.q.empty()) m.q.pop_front();
}

static void bfs(u32 cap, u32 es, int nvals) {
    QSys s(cap, es);
    g_where = [=]() { return fmt("queue of capacity %u, %u byte elements", cap, es); };
    CHECK(v_queue_init(s.q, cap, es, s.store), "init refused capacity %u element size %u", cap, es);
    Bfs<QModel> b(s.snap);
    for (int v = 0; v < nvals; ++v) b.opnames.push_back(fmt("enqueue(#%d)", v));
    for (const char* n : {"dequeue", "front", "rear", "full/empty", "enqueue(NULL)", "dequeue(NULL)", "front(NULL)", "rear(NULL)", "init"}) b.opnames.push_back(n);
    b.key = [](const QModel& m) { Str k; for (int v : m.q) k += (char)('0' + v); return k; };
    b.op = [&](size_t i, QModel& m) {
        if (i < (size_t)nvals) {
            u8* e = inbuf(elem(i, es).data(), es);
            bool r = v_queue_enqueue(s.q, e);
            called(); obsv(r);
            CHECK(r == (m.q.size() < cap), "enqueue returned %d with %zu of %u elements held", r, m.q.size(), cap);
            if (r) m.q.push_back((int)i);
            return true;
        }
        bool r = false;
        switch (i - (size_t)nvals) {
            case 0: case 1: case 2: check_out(s, m, (int)(i - (size_t)nvals)); return true;
            case 3: check_observers(s, m); called(2); return true;
            case 4: r = v_queue_enqueue(s.q, nullptr); break;
            case 5: r = v_queue_dequeue(s.q, nullptr); break;
            case 6: r = v_queue_front(s.q, nullptr); break;
            case 7: r = v_queue_rear(s.q, nullptr); break;
            default: r = !v_queue_init(s.q, cap, es, s.store); m.q.clear(); break;
        }
        called(); obsv(r);
        CHECK(!r, "wrong status");
        return true;
    };
    b.run(QModel());
    report_bfs(fmt("queue capacity=%u element=%u values=%d", cap, es, nvals).c_str(), b.nstates, b.ntrans, b.depth, b.complete);
}

UNIT(queue_bfs) {
    for (u32 cap = 1; cap <= (G.thorough ? 6u : 5u); ++cap)
        for (u32 es : {1u, 2u, 3u, 4u, 5u, 8u})
            RUN_CASE({ bfs(cap, es, cap <= 3 ? 3 : 2); g_where = nullptr; });
    if (G.thorough)
        for (u32 cap = 7; cap <= 9; ++cap) RUN_CASE({ bfs(cap, 1, 2); g_where = nullptr; });
}

// Walks through every (offset, fill) state of a queue of the given capacity with unique elements.
// In each of them all operations are executed and checked.
static void grid(u32 cap, u32 es) {
    QSys s(cap, es);
    CHECK(v_queue_init(s.q, cap, es, s.store), "init refused");
    QModel m;
    u64 seq = 0;
    auto enq = [&]() {
        size_t mk = arena_mark();
        Str e = elem(seq & 0x3fffffff, es);
        bool r = v_queue_enqueue(s.q, inbuf(e.data(), es));
        called(); obsv(r);
        CHECK(r == (m.q.size() < cap), "enqueue returned %d with %zu of %u elements held", r, m.q.size(), cap);
        if (r) m.q.push_back((int)(seq & 0x3fffffff));
        ++seq;
        arena_release(mk);
    };
    auto out = [&](int k) { size_t mk = arena_mark(); check_out(s, m, k); arena_release(mk); };
    for (u32 off = 0; off < cap; ++off) {
        // ascending fill from empty to full (and one too many), then descending to empty
        for (u32 n = 0; n <= cap; ++n) {
            at("capacity %llu element %llu offset %llu fill %llu", cap, es, off, n);
            ++G.states;
            check_observers(s, m); out(1); out(2); enq();
        }
        for (u32 n = 0; n <= cap; ++n) {
            at("capacity %llu element %llu offset %llu draining, %llu out", cap, es, off, n);
            check_observers(s, m); out(2); out(0);
        }
        enq(); out(0);  // advance the offset by one
        tick();
    }
}
UNIT(queue_grid) {
    for (u32 cap = 1; cap <= 40; ++cap)
        for (u32 es : {1u, 3u, 4u}) RUN_CASE({ grid(cap, es); });
    for (u32 cap : {63u, 64u, 65u, 127u, 128u, 129u, 255u, 256u, 257u})
        for (u32 es : {1u, 2u, 4u, 7u, 16u}) if (es <= 4 || G.thorough) RUN_CASE({ grid(cap, es); });
    for (u32 es : edge_sizes()) for (u32 cap : {1u, 2u, 3u, 5u}) RUN_CASE({ grid(cap, es); });
    for (u32 es : {1000u, 32767u, 32768u, 65535u, 65536u, 65537u}) for (u32 cap : {1u, 2u, 3u}) RUN_CASE({ grid(cap, es); });
}

// Large capacities: fill, overflow, take a part, wrap around, drain; every element checked.
static void big(u32 cap, u32 es, u32 part) {
    QSys s(cap, es);
    CHECK(v_queue_init(s.q, cap, es, s.store), "init refused");
    u64 in = 0, out = 0;
    auto enq = [&]() {
        size_t mk = arena_mark();
        bool r = v_queue_enqueue(s.q, inbuf(elem(in, es).data(), es));
        called(); obsv(r);
        CHECK(r == (in - out < cap), "enqueue returned %d with %llu of %u held", r, (unsigned long long)(in - out), cap);
        if (r) ++in;
        arena_release(mk);
    };
    auto deq = [&]() {
        size_t mk = arena_mark();
        u8* o = buf(es, 0x77);
        bool r = v_queue_dequeue(s.q, o);
        called(); obsv(r); obs(o, es);
        CHECK(r == (in != out), "dequeue returned %d with %llu of %u held", r, (unsigned long long)(in - out), cap);
        if (r) { CHECK(memcmp(o, elem(out, es).data(), es) == 0, "dequeue delivered %s instead of element %llu", hex(o, es).c_str(), (unsigned long long)out); ++out; }
        arena_release(mk);
    };
    auto peek = [&]() {
        size_t mk = arena_mark();
        u8* o = buf(es, 0x77);
        if (in != out) {
            CHECK(v_queue_front(s.q, o) && memcmp(o, elem(out, es).data(), es) == 0, "front is not element %llu", (unsigned long long)out);
            CHECK(v_queue_rear(s.q, o) && memcmp(o, elem(in - 1, es).data(), es) == 0, "rear is not element %llu", (unsigned long long)(in - 1));
        }
        CHECK(v_queue_full(s.q) == (in - out == cap) && v_queue_empty(s.q) == (in == out), "full/empty wrong with %llu of %u held", (unsigned long long)(in - out), cap);
        called(4);
        arena_release(mk);
    };
    for (int round = 0; round < 3; ++round) {
        while (in - out < cap) { at("capacity %llu element %llu: element %llu in", cap, es, in); enq(); peek(); tick(); ++G.states; }
        enq(); peek();
        for (u32 i = 0; i < part; ++i) { at("capacity %llu element %llu: element %llu out", cap, es, out); deq(); peek(); tick(); }
    }
    while (in != out) { deq(); peek(); }
    deq(); peek();
    // Empty at other places than the beginning, in use again from there, and filled once more.
    for (u32 k : {1u, 9u, cap / 3, 2u}) {
        at("capacity %llu element %llu: empty at %llu, %llu in and out", cap, es, out % cap, k);
        if (k > cap) continue;
        for (u32 i = 0; i < k; ++i) { enq(); peek(); tick(); }
        for (u32 i = 0; i < k; ++i) { deq(); peek(); tick(); }
        deq(); peek();
        enq(); peek(); deq(); peek();
        ++G.states;
    }
    while (in - out < cap) { at("capacity %llu element %llu: element %llu in", cap, es, in); enq(); tick(); }
    enq(); peek();
    while (in != out) { at("capacity %llu element %llu: element %llu out", cap, es, out); deq(); tick(); }
    deq(); peek();
}
UNIT(queue_big) {
    for (u32 cap : {300u, 1000u, 32767u, 32768u, 65535u, 65536u, 65537u, 70000u})
        for (u32 es : {1u, 4u})
            for (u32 part : {1u, cap / 2, cap - 1, cap}) RUN_CASE({ big(cap, es, part); });
    for (u32 cap : {255u, 256u, 257u, 300u}) for (u32 es : {255u, 256u, 257u}) RUN_CASE({ big(cap, es, cap / 3); });
    if (G.thorough) for (u32 cap : {1u << 20, (1u << 24) + 1}) RUN_CASE({ big(cap, 2, cap / 2 + 1); });
}

// Very long histories of small queues: nothing inside may depend on how many operations came before.
UNIT(queue_long) {
    for (u32 cap : {1u, 2u, 3u, 5u, 6u, 7u, 100u})
        for (u32 held : {0u, 1u, cap - 1}) {
            if (held >= cap || (held == 1 && cap == 2)) continue;
            RUN_CASE({
                QSys s(cap, 4);
                CHECK(v_queue_init(s.q, cap, 4, s.store), "init refused");
                bool huge = (cap == 3 && held == 2) || (G.deep && cap == 7 && held == 0);
                u64 n = huge ? bylevel<u64>(1000000, (1ULL << 32) + 70000, (1ULL << 32) + 70000) : bylevel<u64>(200000, 5000000, 100000000);
                u32* e = (u32*)buf(4, 0);
                u32* o = (u32*)buf(4, 0);
                for (u32 i = 0; i < held; ++i) { *e = i * 0x01010101u; CHECK(v_queue_enqueue(s.q, (u8*)e), "refused"); }
                for (u64 i = held; i < n; ++i) {
                    *e = (u32)i * 0x01010101u;
                    bool r = v_queue_enqueue(s.q, (u8*)e);
                    bool d = v_queue_dequeue(s.q, (u8*)o);
                    u32 want = (u32)(i - held) * 0x01010101u;
                    if (__builtin_expect(!r || !d || *o != want, 0)) {
                        at("capacity %llu, %llu elements held, after %llu insertions", cap, held, i);
                        FAIL("insertion %d, removal %d of %08x instead of %08x", r, d, *o, want);
                    }
                    if ((i & 0xFFFFF) == 0) { tick(); at("capacity %llu, %llu elements held, after %llu insertions", cap, held, i); }
                }
                called(2 * n);
                obsv(*o);
                CHECK(v_queue_full(s.q) == (held == cap) && v_queue_empty(s.q) == (held == 0), "full/empty wrong at the end");
                for (u32 i = 0; i < held; ++i) { CHECK(v_queue_dequeue(s.q, (u8*)o) && *o == (u32)(n - held + i) * 0x01010101u, "wrong element %u at the end", i); }
                CHECK(!v_queue_dequeue(s.q, (u8*)o), "not empty at the end");
            });
        }
}
