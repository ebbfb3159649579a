// C23: an operation that reports failure has no effect. Decided without a reference model: in every
// reachable state in which an operation is refused, the state afterwards and the state before are
// explored side by side under all further operations, until every reachable pair has been compared.
// C27: which configurations are accepted, and what they yield.
#include <deque>
#include <memory>
#include <set>
#include "mc.hpp"

namespace {
struct Sys {
    Snapshotter snap;
    std::vector<Str> names;
    std::vector<bool> observe;                        // operations used to tell states apart (default: all)
    std::function<bool(size_t, Str&, bool&)> op;      // returns its status; out: all that the caller sees; touched: caller's output changed
    u64 max_states = 60000, max_pairs = 4000;
};
}
static void explore(Sys& s) {
    std::unordered_map<Str, u32> seen;
    struct N { Str st; u32 parent; int op; };
    std::vector<N> nodes;
    nodes.push_back({s.snap.save(), 0, -1});
    seen.emplace(nodes[0].st, 0);
    size_t cur = 0;
    Str later;
    int curop = -1;
    auto prev = g_where;
    g_where = [&, prev]() {
        std::vector<int> p;
        if (curop >= 0) p.push_back(curop);
        for (size_t i = cur; nodes[i].op >= 0; i = nodes[i].parent) p.push_back(nodes[i].op);
        Str r = prev ? prev() + ": history: " : Str("history: ");
        for (size_t i = p.size(); i-- > 0;) r += s.names[(size_t)p[i]] + (i ? "; " : "");
        return r + later;
    };
    u64 refused = 0, changed = 0, trans = 0, pairs_total = 0;
    bool complete = true;
    const u64 max_ops = bylevel<u64>(250000, 1500000, 40000000);  // far above what is needed; ends the search of unusual implementations
    u64 ops = 0;
    for (cur = 0; cur < nodes.size(); ++cur) {
        tick();
        if (ops > max_ops) { complete = false; break; }
        for (size_t i = 0; i < s.names.size(); ++i) {
            s.snap.load(nodes[cur].st);
            curop = (int)i;
            later.clear();
            size_t mk = arena_mark();
            Str out;
            bool touched = false, ok;
            try {
                ok = s.op(i, out, touched);
                arena_release(mk);
            } catch (Abort&) {
                try { arena_release(mk); } catch (Abort&) { }
                continue;
            }
            called();
            ++trans;
            ++ops;
            Str after = s.snap.save();
            if (ok) {
                if (!seen.count(after)) {
                    if (nodes.size() >= s.max_states) { complete = false; continue; }
                    seen.emplace(after, (u32)nodes.size());
                    nodes.push_back({after, (u32)cur, (int)i});
                }
                continue;
            }
            ++refused;
            CHECK(!touched, "the refused operation changed the caller's output to %s", hexs(out).c_str());
            if (after == nodes[cur].st) continue;
            ++changed;
            // explore both states side by side
            struct P { Str a, b, path; };
            std::deque<P> todo;
            std::set<std::pair<Str, Str>> known;
            todo.push_back({nodes[cur].st, after, ""});
            known.insert({nodes[cur].st, after});
            while (!todo.empty()) {
                P p = todo.front();
                todo.pop_front();
                ++pairs_total;
                tick();
                for (size_t j = 0; j < s.names.size(); ++j) {
                    Str x, y;
                    bool tx = false, ty = false, rx, ry;
                    later = "; then: " + p.path + s.names[j];
                    size_t m2 = arena_mark();
                    try {
                        s.snap.load(p.a);
                        rx = s.op(j, x, tx);
                        Str na = s.snap.save();
                        s.snap.load(p.b);
                        ry = s.op(j, y, ty);
                        Str nb = s.snap.save();
                        arena_release(m2);
                        called(2);
                        ops += 2;
                        if (rx != ry || x != y)
                            FAIL("the refused operation %s had an effect: later the last operation returns %d with %s, without it %d with %s", s.names[i].c_str(), ry,
                                 hexs(y).c_str(), rx, hexs(x).c_str());
                        if (na != nb && known.size() < (ops < max_ops ? s.max_pairs : 2) && known.insert({na, nb}).second) todo.push_back({na, nb, p.path + s.names[j] + "; "});
                    } catch (Abort&) {
                        try { arena_release(m2); } catch (Abort&) { }
                        todo.clear();
                        break;
                    }
                }
            }
            later.clear();
        }
    }
    G.states += nodes.size() + pairs_total;
    Str w = prev ? prev() : Str();
    G.notes.push_back(fmt("refused operations, %s: %zu states, %llu transitions, %llu refusals, %llu of them leaving other bytes behind (%llu pairs of states compared), %s", w.c_str(), nodes.size(),
                          (unsigned long long)trans, (unsigned long long)refused, (unsigned long long)changed, (unsigned long long)pairs_total, complete ? "complete" : "bounded"));
    g_where = prev;
}
static Str el(u32 id, u32 n) { Str s; for (u32 i = 0; i < n; ++i) s += (char)(u8)(id * 16 + i * 3 + 1); return s; }
static bool filled(const u8* p, size_t n, u8 v) { for (size_t i = 0; i < n; ++i) if (p[i] != v) return false; return true; }

UNIT(refused) {
    for (u32 cap = 1; cap <= (G.thorough ? 4u : 3u); ++cap)
        for (u32 es : {1u, 2u, 3u, 5u})
            RUN_CASE({
                Sys s;
                u8* q = buf(v_queue_sizeof());
                u8* st = buf((size_t)cap * es);
                s.snap.add(q, v_queue_sizeof());
                s.snap.add(st, (size_t)cap * es);
                g_where = [=]() { return fmt("queue of capacity %u, %u byte elements", cap, es); };
                CHECK(v_queue_init(q, cap, es, st), "init refused");
                s.names = {"enqueue(#1)", "enqueue(#2)", "dequeue", "front", "rear", "full", "empty", "enqueue(NULL)", "dequeue(NULL)", "front(NULL)", "rear(NULL)", "init(capacity 0)", "init(no storage)", "init(element size 0)"};
                s.op = [&](size_t i, Str& out, bool& touched) {
                    bool r;
                    if (i < 2) { Str e = el((u32)i + 1, es); return v_queue_enqueue(q, inbuf(e.data(), es)); }
                    if (i < 5) {
                        u8* o = buf(es, 0x77);
                        r = i == 2 ? v_queue_dequeue(q, o) : i == 3 ? v_queue_front(q, o) : v_queue_rear(q, o);
                        out.assign((char*)o, es);
                        touched = !filled(o, es, 0x77);
                        return r;
                    }
                    switch (i) {
                        case 5: out = v_queue_full(q) ? "1" : "0"; return true;
                        case 6: out = v_queue_empty(q) ? "1" : "0"; return true;
                        case 7: return v_queue_enqueue(q, nullptr);
                        case 8: return v_queue_dequeue(q, nullptr);
                        case 9: return v_queue_front(q, nullptr);
                        case 10: return v_queue_rear(q, nullptr);
                        case 11: return v_queue_init(q, 0, es, st);
                        case 12: return v_queue_init(q, cap, es, nullptr);
                        default: return v_queue_init(q, cap, 0, st);
                    }
                };
                explore(s);
                g_where = nullptr;
            });
    for (u32 cap = 1; cap <= 3; ++cap)
        for (u32 es : {1u, 2u, 3u, 5u})
            RUN_CASE({
                Sys s;
                u8* q = buf(v_pq_sizeof());
                u32* pr = (u32*)buf(4 * cap);
                u8* st = buf((size_t)cap * es);
                s.snap.add(q, v_pq_sizeof());
                s.snap.add(pr, 4 * cap);
                s.snap.add(st, (size_t)cap * es);
                g_where = [=]() { return fmt("priority queue of capacity %u, %u byte elements", cap, es); };
                CHECK(v_pq_init(q, cap, es, pr, st, false), "init refused");
                static const u32 PR[] = {0, 1, 0xFFFFFFFFu, 2};
                size_t np = cap < 3 ? 4 : 3;
                for (size_t p = 0; p < np; ++p) for (int e = 1; e <= 2; ++e) s.names.push_back(fmt("enqueue(#%d, priority %u)", e, PR[p]));
                for (const char* n : {"dequeue", "empty", "init(capacity 0)", "init(no items)", "init(element size 0)"}) s.names.push_back(n);
                s.max_states = G.thorough ? 400000 : 30000;
                s.op = [&](size_t i, Str& out, bool& touched) {
                    if (i < np * 2) { Str e = el((u32)(i % 2) + 1, es); return v_pq_enqueue(q, (u32*)inbuf(&PR[i / 2], 4), inbuf(e.data(), es)); }
                    i -= np * 2;
                    if (i == 0) {
                        u8* o = buf(es, 0x77);
                        bool r = v_pq_dequeue(q, o);
                        out.assign((char*)o, es);
                        touched = !filled(o, es, 0x77);
                        return r;
                    }
                    if (i == 1) { out = v_pq_empty(q) ? "1" : "0"; return true; }
                    return i == 2 ? v_pq_init(q, 0, es, pr, st, false) : i == 3 ? v_pq_init(q, cap, es, pr, st, true) : v_pq_init(q, cap, 0, pr, st, false);
                };
                explore(s);
                g_where = nullptr;
            });
    for (int32_t cap = 1; cap <= 3; ++cap)
        for (int32_t ks : {1, 2, 4})
            for (int32_t vs : {1, 3})
                RUN_CASE({
                    Sys s;
                    u8* m = buf(v_map_sizeof());
                    u8* kk = buf((size_t)(cap * ks));
                    u8* vv = buf((size_t)(cap * vs));
                    s.snap.add(m, v_map_sizeof());
                    s.snap.add(kk, (size_t)(cap * ks));
                    s.snap.add(vv, (size_t)(cap * vs));
                    g_where = [=]() { return fmt("map of %d keys of %d bytes, values of %d bytes", cap, ks, vs); };
                    CHECK(v_map_init(m, kk, vv, ks, vs, cap), "init refused");
                    for (int k = 0; k < 4; ++k) for (int v = 0; v < 2; ++v) s.names.push_back(fmt("insert(key %d, value %d)", k, v));
                    for (int k = 0; k < 4; ++k) s.names.push_back(fmt("get(key %d)", k));
                    for (const char* n : {"init(0 keys)", "init(no keys)", "init(value size 0)", "init(-1 keys)"}) s.names.push_back(n);
                    s.op = [&](size_t i, Str& out, bool& touched) {
                        auto key = [&](size_t k) { Str e((size_t)ks, 'k'); e[(size_t)ks - 1 - (k == 3)  * ((size_t)ks - 1)] = (char)('0' + k); return inbuf(e.data(), e.size()); };
                        if (i < 8) { Str v = el((u32)(i % 2) + 5, (u32)vs); return v_map_insert(m, key(i / 2), inbuf(v.data(), v.size())); }
                        if (i < 12) {
                            u8* o = buf((size_t)vs, 0x77);
                            bool r = v_map_get(m, key(i - 8), o);
                            out.assign((char*)o, (size_t)vs);
                            touched = !filled(o, (size_t)vs, 0x77);
                            return r;
                        }
                        return i == 12 ? v_map_init(m, kk, vv, ks, vs, 0) : i == 13 ? v_map_init(m, nullptr, vv, ks, vs, cap) : i == 14 ? v_map_init(m, kk, vv, ks, 0, cap) : v_map_init(m, kk, vv, ks, vs, -1);
                    };
                    explore(s);
                    g_where = nullptr;
                });
    static Str ran;
    static v_fn F[3] = {[]() { ran += 'a'; }, []() { ran += 'b'; }, []() { ran += 'c'; }};
    for (u32 n = 0; n <= 4; ++n)
        RUN_CASE({
            Sys s;
            u8* t = buf(v_task_sizeof() * n, 0);
            s.snap.add(t, v_task_sizeof() * n);
            g_where = [=]() { return fmt("task table of %u slots", n); };
            v_sched_init(t, n);
            for (int f = 0; f < 3; ++f) for (int a = 0; a < 2; ++a) s.names.push_back(fmt("add(%c, %s)", 'a' + f, a ? "active" : "inactive"));
            s.names.push_back("run");
            s.names.push_back("init");
            s.op = [&](size_t i, Str& out, bool&) {
                if (i < 6) {
                    bool r = v_sched_add(t, n, F[i / 2], i % 2);
                    for (u32 k = 0; k < n; ++k) { v_fn f = v_task_fn(t, k); out += (char)(f == F[0] ? 'a' : f == F[1] ? 'b' : f == F[2] ? 'c' : f ? '?' : '-'); out += (char)('0' + v_task_active(t, k)); }
                    return r;
                }
                ran.clear();
                if (i == 6) v_sched_run(t, n); else v_sched_init(t, n);
                out = ran;
                return true;
            };
            explore(s);
            g_where = nullptr;
        });
    for (size_t size = 2; size <= (G.thorough ? 40u : 30u); ++size)
        RUN_CASE({
            Sys s;
            char* b = cbuf(size, 0);
            s.snap.add(b, size);
            g_where = [=]() { return fmt("text in %zu bytes", size); };
            static const char* KV[][2] = {{"", ""}, {"a", "b"}, {"key", "value"}, {"n", "0123456789"}};
            for (auto& p : KV) s.names.push_back(fmt("add(%s,%s)", p[0], p[1]));
            s.names.push_back("end");
            if (!v_json_start(b, size)) return;
            s.op = [&](size_t i, Str& out, bool&) {
                size_t len = strnlen(b, size);
                Str before(b, len);
                if (before.find('}') != Str::npos) return true;  // ended
                bool r = i < 4 ? v_json_add(b, size, instr(KV[i][0]), instr(KV[i][1])) : v_json_end(b, size);
                out.assign(b, strnlen(b, size));
                if (!r) CHECK(out == before, "the refused operation changed the text %s to %s", quote(before).c_str(), quote(out).c_str());
                size_t n = strnlen(b, size);
                if (n < size) memset(b + n, 0, size - n);
                return r;
            };
            explore(s);
            g_where = nullptr;
        });
    RUN_CASE({  // bit positions and exponents
        for (u32 n = 0; n < 256; ++n)
            for (u32 w : WORDS) {
                u32 o = 0xC0FFEE11;
                bool b = n & 1;
                bool ok[5] = {v_bit_test(w, (u8)n, &b), false, false, false, false};
                CHECK(ok[0] || b == (bool)(n & 1), "testing bit %u failed but delivered %d", n, b);
                for (int op = 1; op < 5; ++op) {
                    o = 0xC0FFEE11;
                    ok[op] = op == 1 ? v_bit_set(w, (u8)n, &o) : op == 2 ? v_bit_clear(w, (u8)n, &o) : op == 3 ? v_bit_toggle(w, (u8)n, &o) : v_pow10((u8)n, &o);
                    CHECK(ok[op] || o == 0xC0FFEE11, "operation %d (set, clear, toggle, power of ten) with position %u was refused but delivered %x", op, n, o);
                }
                called(5);
            }
    });
    for (size_t n = 0; n <= 40; ++n)
        RUN_CASE({  // Vernam with every key length
            Str msg(n, 'm');
            for (size_t i = 0; i < n; ++i) msg[i] = (char)(pat(i, n) % 3 == 0 ? 'A' + pat(i, 5) % 26 : pat(i, n) % 3 == 1 ? 'a' + pat(i, 5) % 26 : 1 + pat(i, 5) % 255);
            for (int32_t k = -3; k <= (int32_t)n + 300; ++k)
                for (int d = 0; d < 2; ++d) {
                    size_t m = arena_mark();
                    char* p = strbuf(msg);
                    Str ks(k < 0 ? 4 : (size_t)k, 'K');
                    const char* key = (const char*)inbuf(ks.data(), ks.size());
                    bool r = d ? v_vernam_decrypt(p, key, k) : v_vernam_encrypt(p, key, k);
                    called();
                    CHECK(r || memcmp(p, msg.c_str(), n + 1) == 0, "a %s refused for key length %d changed the message of %zu characters", d ? "decryption" : "encryption", k, n);
                    arena_release(m);
                }
        });
}

// Larger objects: twins with the same history, one of which sees refused operations in between. Everything that
// the two deliver later has to be the same.
namespace {
struct Twin {
    Str log[2];
    int who = 0;
    bool accepted = false;  // what was meant to be refused was accepted: another property's concern
    void refused(bool r) { if (r) accepted = true; }
    void say(const void* p, size_t n) { log[who].append((const char*)p, n); }
    void say(bool b) { log[who] += b ? '1' : '0'; }
    void compare(const char* what) {
        if (accepted) return;
        if (log[0] != log[1]) {
            size_t k = 0;
            while (k < log[0].size() && k < log[1].size() && log[0][k] == log[1][k]) ++k;
            FAIL("%s: later results differ from those without the refused operations (byte %zu of %zu: %s instead of %s)", what, k, log[0].size(),
                 hexs(log[1].substr(k, 16)).c_str(), hexs(log[0].substr(k, 16)).c_str());
        }
        obs(log[0].data(), log[0].size());
        ++G.states;
    }
};
}
static void untouched(const u8* o, size_t n, const char* what) { CHECK(filled(o, n, 0x77), "%s was refused but changed the caller's output", what); }
static void queue_twins(u32 cap, u32 es, u32 off, int where) {
    Twin t;
    for (t.who = 0; t.who < 2; ++t.who) {
        u8* q = buf(v_queue_sizeof());
        u8* st = buf((size_t)cap * es);
        u8* o = buf(es);
        if (!v_queue_init(q, cap, es, st)) return;
        u64 id = 1;
        auto enq = [&]() { size_t m = arena_mark(); Str e = el((u32)id, es); e[0] = (char)id; ++id; t.say(v_queue_enqueue(q, inbuf(e.data(), es))); arena_release(m); };
        auto deq = [&](int k) {
            memset(o, 0x77, es);
            bool r = k == 0 ? v_queue_dequeue(q, o) : k == 1 ? v_queue_front(q, o) : v_queue_rear(q, o);
            t.say(r);
            t.say(o, es);
        };
        auto refuse_full = [&]() {
            if (!t.who || !v_queue_full(q)) return;
            size_t m = arena_mark();
            for (u32 x : {0x91u, 0x92u, 0x93u}) { Str e = el(x, es); t.refused(v_queue_enqueue(q, inbuf(e.data(), es))); }
            t.refused(v_queue_enqueue(q, nullptr));
            arena_release(m);
        };
        auto refuse_empty = [&]() {
            if (!t.who || !v_queue_empty(q)) return;
            for (int k = 0; k < 7; ++k) {
                memset(o, 0x77, es);
                bool r = k % 3 == 0 ? v_queue_dequeue(q, o) : k % 3 == 1 ? v_queue_front(q, o) : v_queue_rear(q, o);
                t.refused(r);
                if (!r) untouched(o, es, "removing from or looking at an empty queue");
            }
        };
        for (u32 i = 0; i < off; ++i) { enq(); deq(0); tick(); }
        if (where & 1) refuse_empty();
        for (u32 i = 0; i < cap; ++i) { enq(); tick(); }
        if (where & 2) refuse_full();
        deq(1); deq(2);
        for (u32 i = 0; i < cap / 2 + 1; ++i) { deq(0); tick(); }
        for (u32 i = 0; i < cap; ++i) { enq(); tick(); }  // up to full again, the last ones may be refused in both
        if (where & 2) refuse_full();
        t.say(v_queue_full(q));
        for (u32 i = 0; i < cap + 1; ++i) { deq(2); deq(0); tick(); }
        if (where & 1) refuse_empty();
        t.say(v_queue_empty(q));
        for (u32 i = 0; i < 3; ++i) { enq(); deq(1); deq(2); }
        called(10 * cap);
    }
    t.compare("queue");
}
static void pq_twins(u32 cap, u32 es, int shape) {
    Twin t;
    for (t.who = 0; t.who < 2; ++t.who) {
        u8* q = buf(v_pq_sizeof());
        u32* pr = (u32*)buf(4 * (size_t)cap);
        u8* st = buf((size_t)cap * es);
        u8* o = buf(es);
        u32* p = (u32*)buf(4);
        if (!v_pq_init(q, cap, es, pr, st, false)) return;
        u64 id = 1;
        auto prio = [&](u64 i) -> u32 {
            switch (shape) {
                case 0: return 0x80000000u;
                case 1: return (u32)i + 1;
                case 2: return 0xFFFFFFF0u - (u32)i;
                case 3: return (i & 1) ? 0x7FFFFFFFu : 0xFFFFFFFFu;
                default: return 256u * (1 + (u32)(i * 7 % 5));
            }
        };
        auto enq = [&](u32 pv) { size_t m = arena_mark(); Str e = el((u32)id, es); e[0] = (char)id; ++id; *p = pv; t.say(v_pq_enqueue(q, p, inbuf(e.data(), es))); arena_release(m); };
        auto deq = [&]() { memset(o, 0x77, es); bool r = v_pq_dequeue(q, o); t.say(r); t.say(o, es); };
        auto refuse_full = [&](u32 low) {
            if (!t.who) return;
            size_t m = arena_mark();
            for (u32 x = 0; x < 4; ++x) {
                Str e = el(0x90 + x, es);
                *p = x == 0 ? 0 : x == 1 ? low : x == 2 ? low - 1 : low / 2;  // never above the lowest held
                t.refused(v_pq_enqueue(q, p, inbuf(e.data(), es)));
            }
            arena_release(m);
        };
        auto refuse_empty = [&]() {
            if (!t.who || !v_pq_empty(q)) return;
            for (int k = 0; k < 3; ++k) { memset(o, 0x77, es); bool r = v_pq_dequeue(q, o); t.refused(r); if (!r) untouched(o, es, "removing from an empty priority queue"); }
        };
        refuse_empty();
        u32 low = ~0u;
        for (u32 i = 0; i < cap; ++i) { low = prio(i) < low ? prio(i) : low; enq(prio(i)); tick(); }
        refuse_full(low);
        for (u32 i = 0; i < cap / 2 + 1; ++i) { deq(); tick(); }
        refuse_empty();
        for (u32 i = 0; i < cap / 2 + 1; ++i) { enq(prio(i)); tick(); }  // full again, all priorities at least low
        refuse_full(low);
        for (u32 i = 0; i < cap + 1; ++i) { deq(); tick(); }
        refuse_empty();
        enq(9);
        deq();
        called(5 * cap);
    }
    t.compare("priority queue");
}
static void map_twins(u32 max, u32 ks, u32 vs) {
    Twin t;
    for (t.who = 0; t.who < 2; ++t.who) {
        u8* m = buf(v_map_sizeof());
        u8* kk = buf((size_t)max * ks);
        u8* vv = buf((size_t)max * vs);
        u8* o = buf(vs);
        if (!v_map_init(m, kk, vv, (int32_t)ks, (int32_t)vs, (int32_t)max)) return;
        auto key = [&](u32 i) { Str k(ks, 'k'); k[ks - 1] = (char)i; if (ks > 1) k[ks / 2 - (ks == 2)] = (char)(i >> 8); return k; };
        auto ins = [&](u32 i, u32 v) { size_t a = arena_mark(); Str k = key(i), e = el(v, vs); e[0] = (char)(v + i); bool r = v_map_insert(m, inbuf(k.data(), ks), inbuf(e.data(), vs)); arena_release(a); return r; };
        auto get = [&](u32 i) { size_t a = arena_mark(); Str k = key(i); memset(o, 0x77, vs); bool r = v_map_get(m, inbuf(k.data(), ks), o); arena_release(a); return r; };
        auto refuse_missing = [&]() { if (t.who) for (u32 i = max; i < max + 3; ++i) { bool r = get(i); t.refused(r); if (!r) untouched(o, vs, "a lookup of an absent key"); } };
        for (u32 i = 0; i < max; ++i) { if (i < 3 || i + 2 >= max) refuse_missing(); t.say(ins(i, i)); tick(); }
        auto refuse_full = [&]() { if (t.who) for (u32 i = max; i < max + 3; ++i) t.refused(ins(i, 0x60 + i)); };
        refuse_full();
        refuse_missing();
        for (u32 i = 0; i <= max; ++i) { t.say(get(i)); t.say(o, vs); tick(); }
        for (u32 i = max; i-- > 0;) { t.say(ins(i, i + 7)); tick(); }
        refuse_full();
        refuse_missing();
        for (u32 i = 0; i <= max; ++i) { t.say(get(i)); t.say(o, vs); tick(); }
        t.say(ins(max, 1));
        called(6 * max);
    }
    t.compare("map");
}
static Str t_ran;
static void t_a() { t_ran += 'a'; }
static void t_b() { t_ran += 'b'; }
static void t_c() { t_ran += 'c'; }
static void sched_twins(u32 n, u32 which) {
    Twin t;
    static const v_fn F[3] = {t_a, t_b, t_c};
    for (t.who = 0; t.who < 2; ++t.who) {
        u8* s = buf(v_task_sizeof() * n);
        v_sched_init(s, n);
        auto refuse = [&]() { if (t.who) for (int k = 0; k < 3; ++k) t.refused(v_sched_add(s, n, t_c, k & 1)); };
        auto look = [&]() {
            for (u32 i = 0; i < n; ++i) { v_fn f = v_task_fn(s, i); t.log[t.who] += (char)(f == t_a ? 'a' : f == t_b ? 'b' : f == t_c ? 'c' : f ? '?' : '-'); t.say(v_task_active(s, i)); }
            t_ran.clear(); v_sched_run(s, n); t.log[t.who] += t_ran;
            tick();
        };
        for (u32 i = 0; i < n; ++i) t.say(v_sched_add(s, n, F[(i * which) % 2], (i * which) % 3 != 0));
        refuse();
        look();
        if (n) { v_task_set(s, n - 1, nullptr, v_task_active(s, n - 1)); t.say(v_sched_add(s, n, t_b, true)); }
        refuse();
        look();
        called(n + 8);
    }
    t.compare("task table");
}
// A text in a buffer of the given size to which a pair (and then the end) is refused or not, depending on the size.
static void json_refusals(size_t size, const std::vector<std::pair<size_t, size_t>>& pairs) {
    size_t mk = arena_mark();
    char* b = cbuf(size, 0x5A);
    bool ok = v_json_start(b, size);
    if (!ok) { arena_release(mk); return; }
    for (auto& p : pairs) {
        Str k(p.first, 'k'), v(p.second, 'v'), before(b, strnlen(b, size));
        bool r = v_json_add(b, size, instr(k), instr(v));
        Str after(b, strnlen(b, size));
        called();
        if (!r) CHECK(before == after, "adding a pair of %zu and %zu characters to a text of %zu in %zu bytes was refused but changed the text from %s to %s", p.first, p.second, before.size(), size,
                      quote(before).c_str(), quote(after).c_str());
        obsv(r);
    }
    Str before(b, strnlen(b, size));
    bool r = v_json_end(b, size);
    Str after(b, strnlen(b, size));
    called();
    if (!r) CHECK(before == after, "ending a text of %zu in %zu bytes was refused but changed it from %s to %s", before.size(), size, quote(before).c_str(), quote(after).c_str());
    obsv(r);
    ++G.states;
    arena_release(mk);
    tick();
}
UNIT(refused_twins) {
    for (u32 es : edge_sizes())
        RUN_CASE({ for (u32 cap : {1u, 2u, 3u, 5u}) for (u32 off = 0; off < cap; ++off) for (int w = 1; w < 4; ++w) { size_t m = arena_mark(); at("queue of capacity %llu, element size %llu, offset %llu, refusals %llu", cap, es, off, (u64)w); queue_twins(cap, es, off, w); arena_release(m); } });
    for (u32 cap : {4u, 6u, 7u, 8u, 15u, 16u, 17u, 63u, 64u, 65u, 127u, 128u, 129u, 255u, 256u, 257u, 300u, 1000u})
        for (u32 es : {1u, 4u, 8u})
            RUN_CASE({ for (u32 off : {0u, 1u, cap / 2, cap - 1}) for (int w = 1; w < 4; ++w) { size_t m = arena_mark(); at("queue of capacity %llu, element size %llu, offset %llu, refusals %llu", cap, es, off, (u64)w); queue_twins(cap, es, off, w); arena_release(m); } });
    for (u32 cap : {32768u, 65535u, 65536u, 65537u}) if (G.thorough) RUN_CASE({ queue_twins(cap, 1, 3, 3); });
    for (u32 es : {32768u, 65535u, 65536u, 65537u}) RUN_CASE({ for (u32 cap : {1u, 2u, 3u}) queue_twins(cap, es, cap - 1, 3); });
    for (u32 es : edge_sizes())
        RUN_CASE({ for (u32 cap : {1u, 2u, 3u, 5u}) for (int s = 0; s < 5; ++s) { size_t m = arena_mark(); at("priority queue of capacity %llu, element size %llu, shape %llu", cap, es, (u64)s); pq_twins(cap, es, s); arena_release(m); } });
    for (u32 cap : {4u, 7u, 8u, 16u, 17u, 64u, 65u, 127u, 128u, 129u, 255u, 256u, 257u, 300u})
        for (u32 es : {1u, 4u, 8u})
            RUN_CASE({ for (int s = 0; s < 5; ++s) { size_t m = arena_mark(); at("priority queue of capacity %llu, element size %llu, shape %llu", cap, es, (u64)s); pq_twins(cap, es, s); arena_release(m); } });
    for (u32 es : {32768u, 65535u, 65536u, 65537u}) RUN_CASE({ for (u32 cap : {1u, 3u}) pq_twins(cap, es, 1); });
    for (u32 sz : edge_sizes())
        RUN_CASE({
            for (u32 max : {1u, 2u, 3u, 5u})
                for (u32 o : {1u, 3u, 8u}) { size_t m = arena_mark(); at("map of %llu entries, sizes %llu and %llu", max, sz, o); map_twins(max, sz, o); map_twins(max, o, sz); arena_release(m); }
        });
    for (u32 max : {4u, 8u, 16u, 17u, 64u, 127u, 128u, 129u, 255u, 256u, 257u, 300u})
        for (u32 ks : {2u, 4u, 9u}) RUN_CASE({ if (max < 256 || ks > 1) map_twins(max, ks, 3); });
    for (u32 vs : {32768u, 65535u, 65536u, 65537u}) RUN_CASE({ map_twins(3, 2, vs); map_twins(2, vs, 2); });
    for (u32 n : {1u, 2u, 5u, 8u, 16u, 17u, 127u, 128u, 129u, 255u, 256u, 257u, 300u, 65535u, 65536u, 65537u})
        RUN_CASE({ for (u32 w = 0; w < 4; ++w) { size_t m = arena_mark(); at("table of %llu slots, kind %llu", n, w); sched_twins(n, w); arena_release(m); } });
    for (size_t k = 0; k <= bylevel<size_t>(40, 300, 600); ++k)
        RUN_CASE({
            for (size_t v : {(size_t)0, (size_t)1, k, (size_t)20, (size_t)253, (size_t)254, (size_t)255, (size_t)256, (size_t)257})
                for (int sw = 0; sw < 2; ++sw) {
                    std::pair<size_t, size_t> p(sw ? v : k, sw ? k : v), q(2, 3);
                    size_t one = 1 + 5 + k + v;
                    for (size_t d = 0; d < 8; ++d) { json_refusals(one - 3 + d, {p}); json_refusals(one - 3 + d, {p, q}); json_refusals(one + 11 - 4 + d, {p, q}); json_refusals(one + 11 - 4 + d, {q, p, {0, 0}}); }
                }
        });
    for (size_t n : {1000u, 4096u, 32767u, 32768u, 65535u, 65536u, 70000u})
        RUN_CASE({ for (size_t d = 0; d < 24; ++d) { json_refusals(n + n / 2 + d, {{n, n / 2}, {1, 1}}); json_refusals(n + n / 2 + d, {{1, 1}, {n / 2, n}}); } });
    RUN_CASE({  // a start that does not fit
        for (size_t size : {(size_t)0, (size_t)1})
            for (int fill : {0x00, 0x41, 0x7B}) {
                size_t m = arena_mark();
                char* b = cbuf(size, fill);
                bool r = v_json_start(b, size);
                called(); obsv(r);
                if (!r) CHECK(filled((u8*)b, size, (u8)fill), "starting a text in %zu bytes was refused but changed the buffer", size);
                ++G.states;
                arena_release(m);
            }
    });
}

// ---- C27
UNIT(init_queue) {
    static const u32 V[] = {0, 1, 2, 3, 7, 16, 255, 256, 257, 65536};
    for (int prior = 0; prior < 5; ++prior)
        for (u32 cap : V)
            for (u32 es : V)
                RUN_CASE({
                    if ((u64)cap * es > 3000000) return;
                    for (int nul = 0; nul < 4; ++nul) {
                        size_t mk = arena_mark();
                        int fill = prior == 0 ? 0 : prior == 1 ? 0xFF : prior == 2 ? 0xA5 : prior == 3 ? 1 : 0x7F;
                        u8* q = buf(v_queue_sizeof(), fill);
                        u8* st = buf((size_t)cap * es, fill);
                        at("capacity %llu, element size %llu, missing %llu, earlier contents %llu", cap, es, (u64)nul, (u64)fill);
                        bool want = cap && es && !nul;
                        if (prior == 4 && want) {  // a queue in use before
                            u8* e = buf(es);
                            CHECK(v_queue_init(q, cap, es, st), "init refused");
                            for (u32 i = 0; i < (cap + 1) / 2; ++i) v_queue_enqueue(q, e);
                            if (cap > 2) v_queue_dequeue(q, e);
                        }
                        bool r = v_queue_init(nul & 1 ? nullptr : q, cap, es, nul & 2 ? nullptr : st);
                        called(); obsv(r);
                        CHECK(r == want, "init returned %d", r);
                        if (!want) { arena_release(mk); continue; }
                        CHECK(v_queue_empty(q), "a new queue is not empty");
                        CHECK(!v_queue_full(q), "a new queue is full");
                        u8* e = buf(es, 0x21);
                        CHECK(!v_queue_dequeue(q, e) && !v_queue_front(q, e) && !v_queue_rear(q, e), "a new queue delivers an element");
                        CHECK(!v_queue_enqueue(q, nullptr) && !v_queue_dequeue(q, nullptr) && !v_queue_front(q, nullptr) && !v_queue_rear(q, nullptr), "a missing element was accepted by an empty queue");
                        u32 n = 0;
                        while (n <= cap && v_queue_enqueue(q, e)) ++n;
                        CHECK(n == cap, "the queue took %u elements", n);
                        CHECK(v_queue_full(q) && !v_queue_empty(q), "the filled queue does not answer full");
                        CHECK(!v_queue_enqueue(q, nullptr) && !v_queue_dequeue(q, nullptr) && !v_queue_front(q, nullptr) && !v_queue_rear(q, nullptr), "a missing element was accepted by a full queue");
                        for (n = 0; n <= cap && v_queue_dequeue(q, e); ++n) { }
                        CHECK(n == cap && v_queue_empty(q), "the queue gave back %u elements", n);
                        CHECK(v_queue_enqueue(q, e), "the emptied queue refuses an element");
                        CHECK(!v_queue_enqueue(q, nullptr) && !v_queue_dequeue(q, nullptr) && !v_queue_front(q, nullptr) && !v_queue_rear(q, nullptr), "a missing element was accepted");
                        CHECK(!v_queue_enqueue(nullptr, e) && !v_queue_dequeue(nullptr, e) && !v_queue_front(nullptr, e) && !v_queue_rear(nullptr, e), "a missing queue was accepted");
                        called(20);
                        arena_release(mk);
                        tick();
                    }
                });
}
UNIT(init_pq) {
    static const u32 V[] = {0, 1, 2, 3, 7, 16, 255, 256, 257};
    for (int prior = 0; prior < 5; ++prior)
        for (u32 cap : V)
            for (u32 es : V)
                RUN_CASE({
                    for (int nul = 0; nul < 16; ++nul) {
                        size_t mk = arena_mark();
                        int fill = prior == 0 ? 0 : prior == 1 ? 0xFF : prior == 2 ? 0xA5 : prior == 3 ? 1 : 0x7F;
                        u8* q = buf(v_pq_sizeof(), fill);
                        u8* st = buf((size_t)cap * es, fill);
                        u32* pr = (u32*)buf(4 * (size_t)cap, fill);
                        at("capacity %llu, element size %llu, missing %llu, earlier contents %llu", cap, es, (u64)nul, (u64)fill);
                        bool want = cap && es && !nul;
                        u8* e = buf(es, 0x21);
                        u32* one = (u32*)buf(4);
                        *one = 5;
                        if (prior == 4 && want) {
                            CHECK(v_pq_init(q, cap, es, pr, st, false), "init refused");
                            for (u32 i = 0; i < (cap + 1) / 2; ++i) v_pq_enqueue(q, one, e);
                        }
                        bool r = v_pq_init(nul & 1 ? nullptr : q, cap, es, nul & 2 ? nullptr : pr, nul & 4 ? nullptr : st, nul & 8);
                        called(); obsv(r);
                        CHECK(r == want, "init returned %d", r);
                        if (!want) { arena_release(mk); continue; }
                        CHECK(v_pq_empty(q), "a new priority queue is not empty");
                        CHECK(!v_pq_dequeue(q, e), "a new priority queue delivers an element");
                        u32 n = 0;
                        while (n <= cap && v_pq_enqueue(q, one, e)) ++n;
                        CHECK(n == cap, "the priority queue took %u elements of equal priority", n);
                        for (n = 0; n <= cap && v_pq_dequeue(q, e); ++n) { }
                        CHECK(n == cap && v_pq_empty(q), "the priority queue gave back %u elements", n);
                        called(6);
                        arena_release(mk);
                        tick();
                    }
                });
}
UNIT(init_map) {
    static const int32_t V[] = {0, 1, 2, 3, 8, 100, 255, 256, 300, -1, -2, -128, -256, -65536, INT32_MIN, INT32_MIN + 1};
    for (int32_t ks : V)
        for (int32_t vs : V)
            RUN_CASE({
                for (int32_t cap : V)
                    for (int nul = 0; nul < 8; ++nul)
                        for (int prior = 0; prior < (nul ? 1 : 4); ++prior) {
                            size_t mk = arena_mark();
                            bool want = ks > 0 && vs > 0 && cap > 0 && !nul;
                            if (want && ((int64_t)cap * ks > 20000 || (int64_t)cap * vs > 20000)) continue;
                            int fill = prior == 0 ? 0 : prior == 1 ? 0xFF : prior == 2 ? 0xA5 : 1;
                            size_t kn = want ? (size_t)cap * (size_t)ks : 64;
                            size_t vn = want ? (size_t)cap * (size_t)vs : 64;
                            u8* m = buf(v_map_sizeof(), fill);
                            u8* k = buf(kn, fill);
                            u8* v = buf(vn, fill);
                            at("key size %llu, value size %llu, %llu keys, missing %llu, earlier contents %llu", (u64)(u32)ks, (u64)(u32)vs, (u64)(u32)cap, (u64)nul, (u64)fill);
                            if (want && prior == 3) {
                                v_map_init(m, k, v, ks, vs, cap);
                                v_map_insert(m, inbuf(Str((size_t)ks, 'a').data(), (size_t)ks), inbuf(Str((size_t)vs, 'b').data(), (size_t)vs));
                            }
                            bool r = v_map_init(nul & 1 ? nullptr : m, nul & 2 ? nullptr : k, nul & 4 ? nullptr : v, ks, vs, cap);
                            called(); obsv(r);
                            CHECK(r == want, "init returned %d", r);
                            if (want) {
                                u8* key = buf((size_t)ks, 0);
                                u8* val = buf((size_t)vs, 0x31);
                                int32_t n = 0;
                                auto setkey = [&](int32_t i) { memset(key, fill, (size_t)ks); key[0] = (u8)(i + fill); if (ks > 1) key[ks - 1] = (u8)(i >> 8); };
                                setkey(0);
                                CHECK(!v_map_get(m, key, val), "a new map knows a key");
                                CHECK(!v_map_get(nullptr, key, val) && !v_map_insert(nullptr, key, val), "a missing map was accepted");
                                int32_t kinds = ks == 1 ? 256 : 65536;
                                while (n <= cap && n < kinds) { setkey(n); if (!v_map_insert(m, key, val)) break; ++n; }
                                CHECK(n == (cap < kinds ? cap : kinds), "the map took %d keys", n);
                                if (prior == 0) for (int32_t i = 0; i < n; ++i) { setkey(i); CHECK(v_map_get(m, key, val), "the map lost key %d", i); }
                                called(3 + (u64)n);
                            }
                            arena_release(mk);
                        }
                tick();
            });
}
