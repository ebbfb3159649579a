// Core of the explorers: case enumeration and sharding, exactly-sized buffers, state snapshots,
// breadth-first search over the real code, failure reporting.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include "shim.h"

typedef uint8_t u8;
typedef uint16_t u16;
typedef uint32_t u32;
typedef uint64_t u64;
typedef std::string Str;

enum Cls { FUNC, MEM, RULE };  // results; memory accesses; rules of the builds that watch for something else

struct Abort {};  // thrown to leave a case whose failure class is not judged in this run

struct Ctx {
    const char* unit = "";
    u64 shard = 0, nshards = 1;
    bool thorough = false;     // level 1 or more
    bool deep = false;         // level 2
    bool judge_func = true, judge_mem = true, judge_rule = true;
    bool hashing = false;      // record a digest of all observations (configuration comparison)
    int64_t only = -1;         // replay: run / describe this case only
    bool tracing = false;
    u64 caseno = 0;            // running number over all shards
    volatile u64 cur = 0;      // case being executed
    volatile u64 ticks = 0;    // progress, watched by the hang detector
    u64 cases = 0, calls = 0, states = 0, ignored = 0;
    u64 d[6] = {0, 0, 0, 0, 0, 0};  // cheap description of the running inner iteration
    const char* dfmt = nullptr;
    u64 h = 1469598103934665603ULL;
    FILE* hashlog = nullptr;
    bool want = false;         // write out the next checked execution of this case
    std::vector<Str> notes, samples;
};
extern Ctx G;
template <class T> inline T bylevel(T l0, T l1, T l2) { return G.deep ? l2 : G.thorough ? l1 : l0; }
extern std::function<Str()> g_where;  // describes the running step (path of a search)

// Next case: true if it belongs to this shard (and, in a replay, is the wanted one).
bool take();
inline void tick() { G.ticks = G.ticks + 1; }
inline void called(u64 n = 1) { G.calls += n; }
inline void at(const char* fmt, u64 a = 0, u64 b = 0, u64 c = 0, u64 d = 0, u64 e = 0, u64 f = 0) {
    G.dfmt = fmt;
    G.d[0] = a; G.d[1] = b; G.d[2] = c; G.d[3] = d; G.d[4] = e; G.d[5] = f;
}
void failv(Cls c, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
#define FAIL(...) failv(FUNC, __VA_ARGS__)
#define FAILMEM(...) failv(MEM, __VA_ARGS__)
#define CHECK(cond, ...) do { if (__builtin_expect(!(cond), 0)) failv(FUNC, __VA_ARGS__); } while (0)
void sample(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
#define SAMPLE(...) do { if (__builtin_expect(G.want, 0)) sample(__VA_ARGS__); } while (0)
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // replay commentary

// Observations, for comparing build configurations.
inline void obs_u64(u64 v) {
    if (G.hashing) { G.h = (G.h ^ v) * 1099511628211ULL; G.h ^= G.h >> 29; }
}
void obs(const void* p, size_t n);
template <class T> inline T obsv(T v) { obs_u64((u64)v); return v; }

// Run f for the next case; swallows failures that are not judged in this run.
template <class F> void run_case(F f) {
    if (!take()) return;
    extern volatile int v_inside;
    v_inside = 0;
    try { f(); } catch (Abort&) { }
    extern void arena_end();
    try { arena_end(); } catch (Abort&) { }
    extern void case_done();
    case_done();
}
// For cases made of a huge inner loop: same, but inner iterations are reported through at().
#define RUN_CASE(...) run_case([&]() __VA_ARGS__)

// ---- exactly sized buffers -------------------------------------------------------------
// Under the address sanitizer everything around a buffer is poisoned, otherwise it is surrounded by canaries.
u8* buf(size_t n, int fill = 0xA5, size_t misalign = 0);        // output / in-out buffer
u8* inbuf(const void* data, size_t n, size_t misalign = 0);     // input buffer, must stay unchanged
inline char* cbuf(size_t n, int fill = 0xA5) { return (char*)buf(n, fill); }
inline const char* instr(const Str& s) { return (const char*)inbuf(s.c_str(), s.size() + 1); }
inline const char* inraw(const Str& s) { return (const char*)inbuf(s.data(), s.size()); }
inline char* strbuf(const Str& s) { char* p = cbuf(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); return p; }
void arena_verify();   // canaries and inputs intact?
void arena_end();      // verify and release everything
const u64 ANY_CALL = 1000000000ull;  // steps in which every call of the explorers must have returned
extern u64 v_steps, v_steps_most, v_steps_limit;
size_t arena_mark();
void arena_release(size_t mark);  // verify and release what was allocated since mark
bool readable(const void* p, size_t n);  // false if the sanitizer knows that [p,p+n) is not

// ---- hidden state of the library ---------------------------------------------------------
struct Region { u8* p; size_t n; };
const std::vector<Region>& lib_rw();  // writable data segment(s) of the library
Str lib_rw_save();
void lib_rw_load(const Str& s);

Str hex(const void* p, size_t n, size_t max = 48);
inline Str hexs(const Str& s) { return hex(s.data(), s.size()); }
Str quote(const Str& s);
Str fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));

// ---- breadth-first search over the real implementation -----------------------------------
// The state of the real system is the content of `regions` plus the library's own writable data.
// M is the reference model; op(i, m) performs operation i on both and reports any disagreement.
struct Snapshotter {
    std::vector<Region> regions;
    void add(void* p, size_t n) { regions.push_back({(u8*)p, n}); }
    Str save() const;
    void load(const Str& s) const;
};

template <class M> struct Bfs {
    Snapshotter& snap;
    std::vector<Str> opnames;
    std::function<bool(size_t, M&)> op;         // returns false: operation not applicable here
    std::function<Str(const M&)> key;
    u64 max_states = bylevel<u64>(40000, 100000, 1500000);  // above what the searches need; ends those of unusual implementations
    u64 max_bytes = bylevel<u64>(100ull << 20, 300ull << 20, 1ull << 30), bytes = 0;
    u64 max_depth = ~0ULL;
    bool complete = true;
    u64 nstates = 0, ntrans = 0, depth = 0;
    struct Node { Str s; M m; u32 parent; int op; u32 depth; };
    std::vector<Node> nodes;
    Bfs(Snapshotter& s) : snap(s) { }
    Str path(size_t n, int last) {
        std::vector<int> ops;
        if (last >= 0) ops.push_back(last);
        for (size_t i = n; nodes[i].op >= 0; i = nodes[i].parent) ops.push_back(nodes[i].op);
        Str r;
        for (size_t i = ops.size(); i-- > 0;) r += (r.empty() ? "" : "; ") + opnames[(size_t)ops[i]];
        return r;
    }
    void run(const M& init) {
        std::unordered_map<Str, u32> seen;
        nodes.clear();
        nodes.push_back({snap.save(), init, 0, -1, 0});
        // Between builds the searches have to be the same whatever the memory looks like: there, states are told apart by
        // reference state and depth, so one history represents each of them.
        const u64 depth_limit = G.hashing ? 12 : max_depth;
        if (G.hashing && max_states > 3000) max_states = 3000;
        seen.emplace(G.hashing ? "0|" + key(init) : nodes[0].s + key(init), 0);
        size_t cur = 0;
        int curop = -1;
        // Observations are compared between builds as the set of (reference state, operation, observation).
        std::unordered_set<u64> observed;
        const u64 h0 = G.h;
        auto prev = g_where;
        g_where = [&, prev]() { return (prev ? prev() + ": " : Str()) + "history: " + path(cur, curop); };
        for (cur = 0; cur < nodes.size(); ++cur) {
            tick();
            if (nodes[cur].depth >= depth_limit) { complete = false; continue; }
            for (size_t i = 0; i < opnames.size(); ++i) {
                snap.load(nodes[cur].s);
                M m = nodes[cur].m;
                curop = (int)i;
                bool ok;
                size_t mark = arena_mark();
                G.h = 1469598103934665603ULL;
                try {
                    ok = op(i, m);
                    arena_release(mark);
                } catch (Abort&) {
                    try { arena_release(mark); } catch (Abort&) { }
                    ok = false;
                }
                if (G.hashing) { Str k = key(nodes[cur].m); obs(k.data(), k.size()); obs_u64(i); observed.insert(G.h); }
                if (!ok) continue;
                ++ntrans;
                Str s = snap.save();
                Str k = G.hashing ? fmt("%llu|", (unsigned long long)nodes[cur].depth + 1) + key(m) : s + key(m);
                if (seen.count(k)) continue;
                if (nodes.size() >= max_states || (bytes >= max_bytes && !G.hashing)) { complete = false; continue; }
                bytes += 3 * k.size() + 200;
                seen.emplace(std::move(k), (u32)nodes.size());
                nodes.push_back({std::move(s), m, (u32)cur, (int)i, nodes[cur].depth + 1});
                if (nodes.back().depth > depth) depth = nodes.back().depth;
            }
        }
        G.h = h0;
        if (G.hashing) { u64 sum = observed.size(); for (u64 x : observed) sum += x * 0x9E3779B97F4A7C15ULL; obs_u64(sum); }
        nstates = nodes.size();
        G.states += nstates;
        g_where = prev;
    }
};
void report_bfs(const char* what, u64 states, u64 trans, u64 depth, bool complete);

// ---- units ---------------------------------------------------------------------------
typedef void (*UnitFn)();
struct Reg {
    Reg(const char* name, UnitFn f);
};
#define UNIT(name) static void unit_##name(); static Reg reg_##name(#name, unit_##name); static void unit_##name()

// deterministic content generators
inline u8 pat(u64 i, u64 salt = 0) {  // pairwise distinct neighbours, no short period
    u64 x = (i + 1) * 0x9E3779B97F4A7C15ULL + salt * 0xD1B54A32D192ED03ULL;
    return (u8)(x >> 56);
}
extern const std::vector<u32> WORDS;  // structured 32-bit words: 0, ~0, single bits, complements, boundaries
const std::vector<u32>& edge_sizes(); // sizes around powers of two up to 300
