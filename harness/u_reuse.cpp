// C26: one piece of memory used again and again. Every history of operations on objects of any kind
// leaves behind some content of the object, of its storage and of the library's own data; from every such
// left-over the memory is set up for a new object, and everything that can then be done with that object
// has to give what it gives in fresh memory under a fresh library. The two are explored in lock-step.
#include <map>
#include <unordered_map>
#include <unordered_set>
#include "mc.hpp"

namespace {
struct Setup { Str name; int kind; u32 a, b; Str text; };          // kind, two numbers, text for a text
struct Op { Str name; int kind; std::function<Str(const Setup&)> f; };
}
enum { QUEUE, PQ, MAP, TASKS, TEXT };
static const size_t AREA = 256, OBJ = 64;
static u8* mem;      // the object at the beginning, its storage behind it
static u8* store;
static Str ran;
static void ta() { ran += 'a'; }
static void tb() { ran += 'b'; }
static std::vector<Setup> S;
static std::vector<Op> O;
static Str e4(u64 id, size_t n) { Str s(n, '\0'); for (size_t i = 0; i < n; ++i) s[i] = (char)pat(i, id + 77); return s; }
static u8* in(const Str& s) { return inbuf(s.data(), s.size()); }

static Str setup(const Setup& c) {
    switch (c.kind) {
    case QUEUE: return fmt("%d", v_queue_init(mem, c.a, c.b, store));
    case PQ: return fmt("%d", v_pq_init(mem, c.a, c.b, (u32*)store, store + 32, false));
    case MAP: return fmt("%d", v_map_init(mem, store, store + 32, (int32_t)c.b, 2, (int32_t)c.a));
    case TASKS: v_sched_init(store, c.a); return "";
    default:
        if (c.b) { memcpy(mem, c.text.c_str(), c.text.size() + 1); return ""; }  // the caller writes the text
        return fmt("%d", v_json_start((char*)mem, c.a));
    }
}
static void make() {
    if (!S.empty()) return;
    for (u32 cap : {1u, 2u, 3u})
        for (u32 es : {1u, 3u}) {
            if (cap == 2 && es == 1) continue;
            S.push_back({fmt("queue of %u elements of %u bytes", cap, es), QUEUE, cap, es, ""});
            S.push_back({fmt("priority queue of %u elements of %u bytes", cap, es), PQ, cap, es, ""});
            S.push_back({fmt("map of %u entries with keys of %u bytes", cap, es), MAP, cap, es, ""});
        }
    for (u32 n : {1u, 2u, 3u}) S.push_back({fmt("table of %u tasks", n), TASKS, n, 0, ""});
    for (u32 n : {8u, 20u, 26u}) S.push_back({fmt("text in %u bytes", n), TEXT, n, 0, ""});
    for (const char* t : {"{", "{\"q\":\"\"", "{\"a\":\"bc\"", "{\"a\":\"b,c\"", "{\"a\":\"b\",\"c\":\"d\"", "{\"a\":\"b\"}"}) S.push_back({fmt("text %s put there", t), TEXT, 26, 1, t});

    for (u64 id = 0; id < 2; ++id) O.push_back({fmt("enqueue #%d", (int)id), QUEUE, [=](const Setup& c) { return fmt("%d", v_queue_enqueue(mem, in(e4(id, c.b)))); }});
    auto look = [](bool (*f)(const void*, u8*)) { return [=](const Setup& c) { u8* o = buf(c.b, 0x11); bool r = f(mem, o); return fmt("%d", r) + Str((char*)o, c.b); }; };
    O.push_back({"dequeue", QUEUE, [](const Setup& c) { u8* o = buf(c.b, 0x11); bool r = v_queue_dequeue(mem, o); return fmt("%d", r) + Str((char*)o, c.b); }});
    O.push_back({"front", QUEUE, look(v_queue_front)});
    O.push_back({"rear", QUEUE, look(v_queue_rear)});
    O.push_back({"full, empty", QUEUE, [](const Setup&) { return fmt("%d%d", v_queue_full(mem), v_queue_empty(mem)); }});

    for (u32 p : {0u, 5u, 0xFFFFFFFFu})
        for (u64 id = 0; id < (p == 5 ? 2u : 1u); ++id) O.push_back({fmt("enqueue priority %u #%d", p, (int)id), PQ, [=](const Setup& c) { u32 q = p; return fmt("%d", v_pq_enqueue(mem, (u32*)inbuf(&q, 4), in(e4(id, c.b)))); }});
    O.push_back({"dequeue", PQ, [](const Setup& c) { u8* o = buf(c.b, 0x11); bool r = v_pq_dequeue(mem, o); return fmt("%d%d", r, v_pq_empty(mem)) + Str((char*)o, c.b); }});

    for (u64 id = 0; id < 3; ++id) {
        O.push_back({fmt("insert %d", (int)id), MAP, [=](const Setup& c) { return fmt("%d", v_map_insert(mem, in(e4(id % 2 ? id : 0, c.b)), in(e4(id + 9, 2)))); }});
        O.push_back({fmt("look up %d", (int)id), MAP, [=](const Setup& c) { u8* o = buf(2, 0x11); bool r = v_map_get(mem, in(id == 2 ? Str(c.b, '\xA5') : e4(id, c.b)), o); return fmt("%d", r) + Str((char*)o, 2); }});
    }
    O.push_back({"add a", TASKS, [](const Setup& c) { return fmt("%d", v_sched_add(store, c.a, ta, true)); }});
    O.push_back({"add b, inactive", TASKS, [](const Setup& c) { return fmt("%d", v_sched_add(store, c.a, tb, false)); }});
    O.push_back({"activate 0", TASKS, [](const Setup&) { v_task_set(store, 0, v_task_fn(store, 0), true); return Str(); }});
    O.push_back({"free 0", TASKS, [](const Setup&) { v_task_set(store, 0, nullptr, true); return Str(); }});
    O.push_back({"pass", TASKS, [](const Setup& c) { ran.clear(); v_sched_run(store, c.a); return ran; }});

    auto text = [](bool r) { return fmt("%d", r) + Str((char*)mem, strnlen((char*)mem, AREA)); };
    static const std::pair<const char*, const char*> KV[] = {{"a", "b"}, {"", ""}, {"abc", "de"}};
    for (auto& p : KV) { Str k = p.first, v = p.second; O.push_back({"add " + k + ":" + v, TEXT, [=](const Setup& c) { return text(v_json_add((char*)mem, c.a, instr(k), instr(v))); }}); }
    O.push_back({"end", TEXT, [=](const Setup& c) { return text(v_json_end((char*)mem, c.a)); }});
    O.push_back({"look up a", TEXT, [](const Setup& c) { char* o = cbuf(8, 0x11); bool r = v_json_find((char*)mem, c.a, instr("a"), o, 8); return fmt("%d", r) + (r ? Str(o, strnlen(o, 8)) : Str()); }});
}
namespace { struct Left { Str s; int setup; Str how; u32 depth; }; }
static Str guarded(const std::function<Str()>& f) {
    size_t m = arena_mark();
    Str r;
    try { r = f(); } catch (Abort&) { r = "(abort)"; }
    called();
    try { arena_release(m); } catch (Abort&) { r += "(abort)"; }
    return r;
}
UNIT(hist_reuse) {
    make();
    mem = nullptr;
    static u8 M[AREA] __attribute__((aligned(16)));  // the same memory for everything
    mem = M; store = M + OBJ;
    if (v_queue_sizeof() > OBJ || v_pq_sizeof() > OBJ || v_map_sizeof() > OBJ || v_task_sizeof() > 48) { G.notes.push_back("objects too large for this unit"); return; }
    Snapshotter snap;
    snap.add(mem, AREA);
    static Str rw0;
    if (rw0.empty()) rw0 = lib_rw_save();
    lib_rw_load(rw0);
    memset(mem, 0xA5, AREA);
    const Str fresh = snap.save();
    const size_t nleft = bylevel<size_t>(40, 160, 900);
    const u32 dleft = bylevel<u32>(4, 6, 8), dnew = bylevel<u32>(3, 4, 5);

    // The left-overs: for each first setup, breadth first, setting the memory up anew included.
    auto leftovers = [&](size_t first) {
        std::vector<Left> L;
        std::unordered_set<Str> seen;
        std::unordered_map<int, size_t> per;  // set up anew: an equal share for every kind of new object
        snap.load(fresh);
        guarded([&] { return setup(S[first]); });
        L.push_back({snap.save(), (int)first, S[first].name, 0});
        seen.insert(L[0].s);
        for (size_t n = 0; n < L.size() && L.size() < nleft; ++n) {
            Left cur = L[n];
            if (cur.depth >= dleft) continue;
            for (size_t i = 0; i < O.size(); ++i) {
                if (O[i].kind != S[(size_t)cur.setup].kind) continue;
                snap.load(cur.s);
                guarded([&] { return O[i].f(S[(size_t)cur.setup]); });
                Str s = snap.save();
                if (seen.insert(s).second && L.size() < nleft) L.push_back({s, cur.setup, cur.how + "; " + O[i].name, cur.depth + 1});
            }
            tick();
        }
        return L;
    };
    for (size_t first = 0; first < S.size(); ++first)
        RUN_CASE({
            std::vector<Left> L = leftovers(first);
            G.states += L.size();
            for (size_t c = 0; c < S.size(); ++c) {
                // everything the new object does in fresh memory, computed once
                const Setup& cfg = S[c];
                std::vector<size_t> ops;
                for (size_t i = 0; i < O.size(); ++i) if (O[i].kind == cfg.kind) ops.push_back(i);
                struct Node { Str s, obs; std::vector<size_t> next; Str how; u32 depth; };
                std::vector<Node> T;
                snap.load(fresh);
                Str o0 = guarded([&] { return setup(cfg); });
                T.push_back({snap.save(), o0, {}, "", 0});
                std::vector<std::vector<Str>> obsv_;
                {
                    std::unordered_map<Str, size_t> at;
                    at[T[0].s] = 0;
                    for (size_t n = 0; n < T.size(); ++n) {
                        obsv_.push_back({});
                        if (T[n].depth >= dnew) continue;
                        for (size_t i : ops) {
                            snap.load(T[n].s);
                            obsv_[n].push_back(guarded([&] { return O[i].f(cfg); }));
                            Str s = snap.save();
                            auto it = at.find(s);
                            size_t t;
                            if (it == at.end()) { t = T.size(); at[s] = t; T.push_back({s, "", {}, T[n].how + "; " + O[i].name, T[n].depth + 1}); }
                            else t = it->second;
                            T[n].next.push_back(t);
                        }
                    }
                }
                for (auto& l : L) {
                    snap.load(l.s);
                    Str r = guarded([&] { return setup(cfg); });
                    auto what = [&](const Str& how) { return l.how + "; then " + cfg.name + how; };
                    if (r != o0) FAIL("%s: setting up gave %s, in fresh memory %s", what("").c_str(), quote(r).c_str(), quote(o0).c_str());
                    // pairs (memory used before, node in fresh memory), as long as they differ
                    struct P { Str s; size_t n; u32 depth; };
                    std::vector<P> todo(1, P{snap.save(), 0, 0});
                    std::unordered_set<Str> seen;
                    for (size_t k = 0; k < todo.size(); ++k) {
                        P p = todo[k];
                        if (p.depth >= dnew || T[p.n].next.empty()) continue;
                        if (p.s == T[p.n].s) continue;  // the very same: nothing can differ from here on
                        for (size_t i = 0; i < ops.size(); ++i) {
                            snap.load(p.s);
                            Str x = guarded([&] { return O[ops[i]].f(cfg); });
                            if (x != obsv_[p.n][i]) FAIL("%s; %s gave %s, in fresh memory %s", what(T[p.n].how).c_str(), O[ops[i]].name.c_str(), quote(x).c_str(), quote(obsv_[p.n][i]).c_str());
                            Str s = snap.save();
                            Str key = s + fmt("/%zu", T[p.n].next[i]);
                            if (seen.insert(key).second) todo.push_back({s, T[p.n].next[i], p.depth + 1});
                        }
                    }
                    G.states += todo.size();
                    tick();
                }
            }
            lib_rw_load(rw0);
        });
    lib_rw_load(rw0);
    G.notes.push_back(fmt("memory used again: %zu setups of 5 kinds from up to %zu left-overs each (histories of at most %u operations), then every history of at most %u operations", S.size(), nleft, dleft, dnew));
}
