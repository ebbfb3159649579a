// Scheduler: every table, every history of table operations, and every task that changes the table
// while it is being run.
#include "mc.hpp"

static const u32 NF = 4;
static std::vector<int> trace;
namespace {
struct Action { int kind = 0; u32 slot = 0; int f = -1; bool b = false; };
// kinds: 0 nothing, 1 set active flag of slot, 2 empty slot, 3 replace slot (function f, active b),
//        4 add task (f, b), 5 init the whole table
struct Slot { int f = -1; bool active = false; };
struct SModel { std::vector<Slot> t; };
}
static void* g_table;
static u32 g_n;
static Action g_act[NF];
static int g_budget;
static void task(int i);
static void t0() { task(0); }
static void t1() { task(1); }
static void t2() { task(2); }
static void t3() { task(3); }
static const v_fn FN[NF] = {t0, t1, t2, t3};
static v_fn fn(int f) { return f < 0 ? nullptr : FN[f]; }

static void real_action(const Action& a) {
    switch (a.kind) {
        case 1: v_task_set(g_table, a.slot, v_task_fn(g_table, a.slot), a.b); break;
        case 2: v_task_set(g_table, a.slot, nullptr, a.b); break;
        case 3: v_task_set(g_table, a.slot, fn(a.f), a.b); break;
        case 4: v_sched_add(g_table, g_n, fn(a.f), a.b); called(); break;
        case 5: v_sched_init(g_table, g_n); called(); break;
        default: break;
    }
}
static void task(int i) {
    trace.push_back(i);
    if (--g_budget < 0) FAIL("a pass does not end");
    real_action(g_act[i]);
}
static void model_action(SModel& m, const Action& a) {
    switch (a.kind) {
        case 1: m.t[a.slot].active = a.b; break;
        case 2: m.t[a.slot] = {-1, a.b}; break;
        case 3: m.t[a.slot] = {a.f, a.b}; break;
        case 4: for (auto& s : m.t) if (s.f < 0) { s = {a.f, a.b}; break; } break;
        case 5: for (auto& s : m.t) s = Slot(); break;
        default: break;
    }
}
static std::vector<int> model_run(SModel& m, u32 n) {
    std::vector<int> r;
    for (u32 i = 0; i < n; ++i)
        if (m.t[i].f >= 0 && m.t[i].active) { int f = m.t[i].f; r.push_back(f); model_action(m, g_act[f]); }
    return r;
}
static Str show(const std::vector<int>& v) { Str s; for (int i : v) s += fmt("%c", 'A' + i); return "[" + s + "]"; }
static Str show(const SModel& m) { Str s; for (auto& x : m.t) s += (s.empty() ? "" : " ") + (x.f < 0 ? Str("-") : Str(1, (char)('A' + x.f))) + (x.active ? "+" : ""); return "{" + s + "}"; }
static Str show(const Action& a) {
    switch (a.kind) {
        case 1: return fmt("slot %u %s", a.slot, a.b ? "activate" : "deactivate");
        case 2: return fmt("empty slot %u", a.slot);
        case 3: return fmt("slot %u := %c%s", a.slot, 'A' + a.f, a.b ? "+" : "");
        case 4: return fmt("add %c%s", 'A' + a.f, a.b ? "+" : "");
        case 5: return "init";
        default: return "nothing";
    }
}
static void put(void* t, const SModel& m) { for (u32 i = 0; i < m.t.size(); ++i) v_task_set(t, i, fn(m.t[i].f), m.t[i].active); }
static void compare(void* t, const SModel& m, const char* what) {
    for (u32 i = 0; i < m.t.size(); ++i) {
        v_fn f = v_task_fn(t, i);
        bool a = v_task_active(t, i);
        int idx = -2;
        for (u32 k = 0; k < NF; ++k) if (f == FN[k]) idx = (int)k;
        if (!f) idx = -1;
        obsv(idx); obsv(a);
        CHECK(idx == m.t[i].f && a == m.t[i].active, "after %s slot %u holds task %d active %d, expected the table %s", what, i, idx, a, show(m).c_str());
    }
}
static void check_run(void* t, SModel& m, u32 n, const char* what) {
    trace.clear();
    g_table = t;
    g_n = (u32)m.t.size();
    g_budget = 1000000;
    std::vector<int> want = model_run(m, n);
    v_sched_run(t, n);
    called();
    for (int x : trace) obsv(x);
    CHECK(trace == want, "%s: called %s, expected %s", what, show(trace).c_str(), show(want).c_str());
    compare(t, m, "a pass");
}
static void no_actions() { for (auto& a : g_act) a = Action(); }

// Every table of up to 4 (5) slots with 3 tasks: run (all lengths), add, init.
UNIT(sched_tables) {
    for (u32 n = 0; n <= (G.thorough ? 5u : 4u); ++n) {
        u64 total = 1;
        for (u32 i = 0; i < n; ++i) total *= 8;
        for (u64 blk = 0; blk < total; blk += 64)
            RUN_CASE({
                no_actions();
                for (u64 x = blk; x < blk + 64 && x < total; ++x) {
                    at("table of %llu slots, number %llu", n, x);
                    SModel m;
                    for (u32 i = 0; i < n; ++i) { u64 d = (x >> (3 * i)) & 7; m.t.push_back({(int)(d & 3) - 1, (d & 4) != 0}); }
                    size_t mk = arena_mark();
                    u8* t = buf(v_task_sizeof() * n, 0xDB);
                    for (u32 len = 0; len <= n; ++len) {
                        put(t, m);
                        SModel c = m;
                        Str w = "table " + show(m);
                        check_run(t, c, len, w.c_str());
                    }
                    for (int f = 0; f < 3; ++f)
                        for (int b = 0; b < 2; ++b)
                            for (u32 len = 0; len <= n; ++len) {
                                put(t, m);
                                SModel c = m;
                                bool want = false;
                                for (u32 i = 0; i < len && !want; ++i) if (c.t[i].f < 0) { c.t[i] = {f, b != 0}; want = true; }
                                bool r = v_sched_add(t, len, fn(f), b != 0);
                                called(); obsv(r);
                                CHECK(r == want, "adding to the first %u slots of %s returned %d", len, show(m).c_str(), r);
                                compare(t, c, fmt("adding to %s", show(m).c_str()).c_str());
                                check_run(t, c, n, "after an addition");
                            }
                    for (u32 len = 0; len <= n; ++len) {
                        put(t, m);
                        SModel c = m;
                        for (u32 i = 0; i < len; ++i) c.t[i] = Slot();
                        v_sched_init(t, len);
                        called();
                        compare(t, c, "initialising");
                    }
                    ++G.states;
                    arena_release(mk);
                }
            });
    }
}
// Histories from an uninitialised table.
UNIT(sched_bfs) {
    for (u32 n = 1; n <= (G.thorough ? 4u : 3u); ++n)
        RUN_CASE({
            no_actions();
            u8* t = buf(v_task_sizeof() * n, 0xDB);
            Snapshotter snap;
            snap.add(t, v_task_sizeof() * n);
            v_sched_init(t, n);
            g_where = [=]() { return fmt("table of %u slots", n); };
            Bfs<SModel> b(snap);
            struct Op { int k; u32 i; int f; bool a; };
            std::vector<Op> ops;
            for (int f = 0; f < 3; ++f) for (int a = 0; a < 2; ++a) { ops.push_back({0, 0, f, a != 0}); b.opnames.push_back(fmt("add(%c,%d)", 'A' + f, a)); }
            for (u32 i = 0; i < n; ++i) for (int a = 0; a < 2; ++a) { ops.push_back({1, i, 0, a != 0}); b.opnames.push_back(fmt("active[%u]=%d", i, a)); }
            for (u32 i = 0; i < n; ++i) { ops.push_back({2, i, 0, false}); b.opnames.push_back(fmt("function[%u]=NULL", i)); }
            ops.push_back({3, 0, 0, false}); b.opnames.push_back("run");
            ops.push_back({4, 0, 0, false}); b.opnames.push_back("init");
            b.key = [](const SModel& m) { Str k; for (auto& s : m.t) { k += (char)('0' + s.f); k += s.active ? '+' : '-'; } return k; };
            b.op = [&](size_t i, SModel& m) {
                const Op& o = ops[i];
                switch (o.k) {
                    case 0: {
                        bool want = false;
                        for (auto& s : m.t) if (s.f < 0) { s = {o.f, o.a}; want = true; break; }
                        bool r = v_sched_add(t, n, fn(o.f), o.a);
                        called(); obsv(r);
                        CHECK(r == want, "add returned %d", r);
                        compare(t, m, "add");
                        break;
                    }
                    case 1: v_task_set(t, o.i, v_task_fn(t, o.i), o.a); m.t[o.i].active = o.a; break;
                    case 2: v_task_set(t, o.i, nullptr, v_task_active(t, o.i)); m.t[o.i].f = -1; break;
                    case 3: check_run(t, m, n, "run"); break;
                    default: v_sched_init(t, n); called(); for (auto& s : m.t) s = Slot(); compare(t, m, "init"); break;
                }
                return true;
            };
            SModel m0;
            m0.t.resize(n);
            compare(t, m0, "init");
            b.run(m0);
            report_bfs(fmt("task table of %u slots", n).c_str(), b.nstates, b.ntrans, b.depth, b.complete);
            g_where = nullptr;
        });
}
// Tasks that change the table during the pass: all tables x all actions of the tasks.
UNIT(sched_live) {
    for (u32 n = 1; n <= 3; ++n) {
        std::vector<Action> acts(1);
        for (u32 i = 0; i < n; ++i) {
            for (int a = 0; a < 2; ++a) { Action x; x.kind = 1; x.slot = i; x.b = a != 0; acts.push_back(x); }
            { Action x; x.kind = 2; x.slot = i; x.b = true; acts.push_back(x); }
            for (int f = 0; f < 2; ++f) { Action x; x.kind = 3; x.slot = i; x.f = f; x.b = true; acts.push_back(x); }
        }
        for (int f = 0; f < 3; ++f) { Action x; x.kind = 4; x.f = f; x.b = true; acts.push_back(x); }
        { Action x; x.kind = 5; acts.push_back(x); }
        u64 tables = 1;
        for (u32 i = 0; i < n; ++i) tables *= 8;
        for (u64 x = 0; x < tables; ++x)
            RUN_CASE({
                SModel m;
                for (u32 i = 0; i < n; ++i) { u64 d = (x >> (3 * i)) & 7; m.t.push_back({(int)(d & 3) - 1, (d & 4) != 0}); }
                u8* t = buf(v_task_sizeof() * n, 0xDB);
                for (size_t a = 0; a < acts.size(); ++a)
                    for (size_t b = 0; b < acts.size(); ++b)
                        for (size_t c = 0; c < (G.thorough ? acts.size() : 1); ++c) {
                            no_actions();
                            g_act[0] = acts[a]; g_act[1] = acts[b]; g_act[2] = acts[c];
                            put(t, m);
                            SModel w = m;
                            g_where = [&]() { return "table " + show(m) + ", task A does: " + show(acts[a]) + ", B: " + show(acts[b]) + ", C: " + show(acts[c]); };
                            check_run(t, w, n, "pass");
                            check_run(t, w, n, "second pass");
                            ++G.states;
                        }
                g_where = nullptr;
            });
    }
}
// Large tables: one active task at every position; the free slot at every position.
UNIT(sched_big) {
    for (u32 n : {16u, 127u, 128u, 129u, 255u, 256u, 257u, 300u})
        for (u32 p0 = 0; p0 < n; p0 += 32)
            RUN_CASE({
                no_actions();
                u8* t = buf(v_task_sizeof() * n, 0xDB);
                for (u32 p = p0; p < p0 + 32 && p < n; ++p) {
                    at("table of %llu slots, position %llu", n, p);
                    SModel m;
                    m.t.resize(n);
                    for (u32 i = 0; i < n; ++i) m.t[i] = {(int)(i % 3), i == p};
                    put(t, m);
                    check_run(t, m, n, "one active");
                    for (u32 i = 0; i < n; ++i) m.t[i].active = i != p;
                    put(t, m);
                    check_run(t, m, n, "one inactive");
                    m.t[p].f = -1; m.t[p].active = true;
                    put(t, m);
                    check_run(t, m, n, "one free");
                    CHECK(v_sched_add(t, n, FN[3], true), "add refused with slot %u free", p);
                    called();
                    m.t[p] = {3, true};
                    compare(t, m, "add");
                    CHECK(!v_sched_add(t, n, FN[3], true), "add accepted by a full table");
                    compare(t, m, "refused add");
                    check_run(t, m, n, "after add");
                    ++G.states;
                }
            });
    for (u32 n : {32768u, 65535u, 65536u, 65537u})
        RUN_CASE({
            no_actions();
            u8* t = buf(v_task_sizeof() * n, 0xDB);
            v_sched_init(t, n);
            SModel m;
            m.t.resize(n);
            compare(t, m, "init");
            for (u32 p : {0u, 255u, 256u, n - 1}) { m.t[p] = {2, true}; put(t, m); check_run(t, m, n, "big table"); tick(); }
            for (u32 i = 0; i < n; ++i) m.t[i] = {1, (i % 7) == 0};
            m.t[n - 1].f = -1;
            put(t, m);
            CHECK(v_sched_add(t, n, FN[3], true), "add refused with the last slot free");
            m.t[n - 1] = {3, true};
            check_run(t, m, n, "big table");
            ++G.states;
        });
}
