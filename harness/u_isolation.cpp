// C25: separate objects never influence each other. Actors perform a fixed sequence of calls on
// their own objects; their results under every interleaving, and when performed from inside a
// comparison function or a task, are compared with the results they have alone.
#include <memory>
#include "mc.hpp"

namespace {
struct Actor {
    virtual ~Actor() { }
    virtual Str step(int i) = 0;  // i = 0..5
};
typedef std::function<Actor*(int seed)> Make;
struct Kind { Str name; Make make; };
}
static Str el(int seed, u64 id, size_t n) { Str s(n, '\0'); for (size_t i = 0; i < n; ++i) s[i] = (char)pat(i, id * 31 + (u64)seed * 1009); return s; }
static u8* in(const Str& s) { return inbuf(s.data(), s.size()); }

// One comparison function per nesting level, each with its own hook.
static const int LEVELS = 3;
static struct Level { u64 count = 0, when = 0; std::function<void()> hook; } lv[LEVELS];
template <int L> static bool cmp_lv(void* a, void* b) {
    // a different order at every level: a sort must not go on with the comparison function of another one
    u8 x = *(u8*)a, y = *(u8*)b;
    bool r = L == 0 ? x > y : L == 1 ? x < y : (u8)(x * 167) > (u8)(y * 167);
    Level& l = lv[L];
    if (++l.count > 100000) FAIL("a sort does not end");
    if (l.hook && (l.when == 0 || l.count == l.when)) l.hook();
    return r;
}
static v_cmp CMP[LEVELS] = {cmp_lv<0>, cmp_lv<1>, cmp_lv<2>};

// The actors work at a nesting level: their own comparison functions must not carry the host's hook.
static int g_level = 1;

namespace {
struct QueueA : Actor {
    int s; u32 es; u8 *q, *st; bool ok;
    QueueA(int seed) : s(seed), es(1 + (u32)seed % 5) { q = buf(v_queue_sizeof()); st = buf(2 * es); ok = v_queue_init(q, 2, es, st); }
    Str step(int i) override {
        u8* o = buf(es, 0x77);
        bool r;
        switch (i) {
            case 0: case 1: r = v_queue_enqueue(q, in(el(s, (u64)i, es))); break;
            case 2: r = v_queue_rear(q, o); break;
            case 3: r = v_queue_dequeue(q, o); break;
            case 4: r = v_queue_enqueue(q, in(el(s, (u64)i, es))); break;
            default: r = v_queue_front(q, o); r = v_queue_dequeue(q, o) && r; break;
        }
        return fmt("%d%d%d", r, v_queue_full(q), v_queue_empty(q)) + Str((char*)o, es);
    }
};
struct PqA : Actor {
    int s; u32 es; u8 *q, *st; u32* pr;
    PqA(int seed) : s(seed), es(1 + (u32)seed % 5) { q = buf(v_pq_sizeof()); st = buf(2 * es); pr = (u32*)buf(8); v_pq_init(q, 2, es, pr, st, false); }
    Str step(int i) override {
        u8* o = buf(es, 0x77);
        u32 p[] = {3, 3, 9, 0, 1, 0};
        bool r = i == 3 || i == 5 ? v_pq_dequeue(q, o) : v_pq_enqueue(q, (u32*)inbuf(&p[i], 4), in(el(s, (u64)i, es)));
        return fmt("%d%d", r, v_pq_empty(q)) + Str((char*)o, es);
    }
};
struct MapA : Actor {
    int s; u8 *m, *k, *v;
    MapA(int seed) : s(seed) { m = buf(v_map_sizeof()); k = buf(6); v = buf(4); v_map_init(m, k, v, 3, 2, 2); }
    Str step(int i) override {
        u8* o = buf(2, 0x77);
        bool r;
        switch (i) {
            case 0: r = v_map_insert(m, in(el(s, 1, 3)), in(el(s, 10, 2))); break;
            case 1: r = v_map_insert(m, in(el(s, 2, 3)), in(el(s, 11, 2))); break;
            case 2: r = v_map_insert(m, in(el(s, 1, 3)), in(el(s, 12, 2))); break;
            case 3: r = v_map_get(m, in(el(s, 1, 3)), o); break;
            case 4: r = v_map_insert(m, in(el(s, 3, 3)), in(el(s, 13, 2))); break;
            default: r = v_map_get(m, in(el(s, 2, 3)), o); break;
        }
        return fmt("%d", r) + Str((char*)o, 2);
    }
};
}
static Str g_ran;
static void ta() { g_ran += 'a'; }
static void tb() { g_ran += 'b'; }
static void tc() { g_ran += 'c'; }
namespace {
struct SchedA : Actor {
    int s; u8* t;
    SchedA(int seed) : s(seed) { t = buf(3 * v_task_sizeof(), 0); v_sched_init(t, 3); }
    Str step(int i) override {
        v_fn f[] = {ta, tb, tc};
        if (i == 2 || i == 4) {
            Str keep = g_ran;
            g_ran.clear();
            v_sched_run(t, 3);
            std::swap(keep, g_ran);
            return keep;
        }
        return fmt("%d", v_sched_add(t, 3, f[(i + s) % 3], (i + s) % 2));
    }
};
struct TextA : Actor {
    int s; char* b; size_t n;
    TextA(int seed) : s(seed), n(36) { b = cbuf(n, 0); }
    Str step(int i) override {
        bool r;
        Str k = fmt("k%d", s), w = fmt("value%d", s * 7);
        if (i == 0) r = v_json_start(b, n);
        else if (i == 1) r = v_json_add(b, n, instr(k), instr(w));
        else if (i == 2) r = v_json_add(b, n, instr("x"), instr(fmt("%d", s)));
        else if (i == 3) r = v_json_add(b, n, instr("too long"), instr("to fit the buffer"));
        else if (i == 4) r = v_json_end(b, n);
        else { char* v = cbuf(12, 0); r = v_json_find(b, n, instr(k), v, 12); return fmt("%d", r) + (r ? Str(v, strnlen(v, 12)) : ""); }
        return fmt("%d", r) + Str(b, strnlen(b, n));
    }
};
struct SortA : Actor {
    int s, w; u32 es;
    SortA(int seed, int which, u32 size) : s(seed), w(which), es(size) { }
    Str step(int i) override {
        u32 n = 3 + (u32)(i % 3);
        u8* a = buf(n * es);
        for (u32 k = 0; k < n; ++k) { Str e = el(s, k * 7 + (u64)i, es); memcpy(a + k * es, e.data(), es); a[k * es] = (u8)((k * 5 + (u32)i * 3 + (u32)s) % 7); }
        int l = g_level;
        v_sort(w, a, (int32_t)n, (int32_t)es, CMP[l]);
        return Str((char*)a, n * es);
    }
};
struct CrcA : Actor {
    int s; const v_crc_t* c; u32 last = 0; u8* tab;
    CrcA(int seed, int width) : s(seed) {
        int k = seed;
        for (int i = 0; i < v_crc_count; ++i) if (v_crcs[i].width == width && k-- >= 0) c = &v_crcs[i];
        tab = buf(1024);
    }
    Str step(int i) override {
        Str d = el(s, (u64)i, (size_t)i * 2 + 1);
        if (i == 4) {  // a table and a run of the generic engine
            v_crc_table(c->width, c->poly, tab);
            return fmt("%x", v_crc_engine(c->width, tab, in(d), (u32)d.size(), c->init, c->xorout, c->refl, c->refl, true));
        }
        last = c->call(in(d), (u32)d.size(), i == 5, i ? &last : nullptr);
        return fmt("%x", last);
    }
};
struct ChachaA : Actor {
    int s;
    ChachaA(int seed) : s(seed) { }
    Str step(int i) override {
        size_t n = (size_t)(i == 0 ? 64 : i == 1 ? 128 : i == 2 ? 5 : i == 3 ? 200 : i * 13);
        u8* o = buf(n);
        v_chacha(in(el(s, (u64)i, n)), (u32)n, in(el(s, 50, 32)), in(el(s, 51, 12)), (u32)(s + i), o);
        return Str((char*)o, n);
    }
};
struct CipherA : Actor {
    int s; char* m;
    CipherA(int seed) : s(seed) { m = strbuf(fmt("Message No. %d, xyz XYZ", seed)); }
    Str step(int i) override {
        Str key;
        for (size_t k = 0; k < strlen(m); ++k) key += (char)((k & 1 ? 'a' : 'A') + (k * 3 + (size_t)s) % 26);
        bool r = true;
        switch (i) {
            case 0: v_caesar_encrypt(m, (u8)(s * 5 + 3)); break;
            case 1: r = v_vernam_encrypt(m, (const char*)in(key), (int32_t)key.size()); break;
            case 2: r = v_vernam_encrypt(m, (const char*)in(key), (int32_t)key.size() - 1); break;
            case 3: r = v_vernam_decrypt(m, (const char*)in(key), (int32_t)key.size()); break;
            case 4: v_caesar_decrypt(m, (u8)(s * 5 + 3)); break;
            default: v_caesar_decrypt(m, 1); break;
        }
        return fmt("%d", r) + m;
    }
};
struct B64A : Actor {
    int s; Str text;
    B64A(int seed) : s(seed) { }
    Str step(int i) override {
        size_t n = (size_t)(3 * (i / 2) + s % 3 + 1);
        if (i % 2 == 0) {
            char* o = cbuf(40, 0);
            int r = v_b64_encode((const char*)in(el(s, (u64)i, n)), n, o, 40);
            text.assign(o, strnlen(o, 40));
            return fmt("%d", r) + text;
        }
        u8* o = buf(n, 0);
        int r = v_b64_decode((const char*)inraw(text), text.size(), o, n);
        return fmt("%d", r) + Str((char*)o, r == 0 ? n : 0);
    }
};
struct NumA : Actor {
    int s;
    NumA(int seed) : s(seed) { }
    Str step(int i) override {
        u32 r = 0;
        bool ok = true;
        u8* b = buf(4, 0);
        if (i == 0) { Str t = fmt("%d", 123456 * (s + 1)); ok = v_str2u32(inraw(t), (u8)t.size(), &r); }
        else if (i == 1) ok = v_pow10((u8)(s + 2), &r);
        else if (i == 2) { v_ser(32, s % 2, b, 0x01020304u * (u32)(s + 1)); r = v_deser(24, !(s % 2), b); }
        else if (i == 3) { ok = v_bit_set(0x55, (u8)(s + 3), &r); r = v_rotl(r, (u32)(s + 1)) ^ v_reflect(r, (u8)(s + 9)); }
        else if (i == 4) { u8* c = buf(4, s); v_ser_blob(s % 2, b, in(el(s, 4, 4)), 4); v_swap(b, c, 4); return Str((char*)b, 4) + Str((char*)c, 4); }
        else { Str t = "9x"; ok = v_str2u32(inraw(t), 2, &r); r = 0; }
        return fmt("%d %u", ok, r) + Str((char*)b, 4);
    }
};
}
static const std::vector<Kind>& kinds() {
    static std::vector<Kind> k;
    if (k.empty()) {
        k.push_back({"queue", [](int s) { return new QueueA(s); }});
        k.push_back({"priority queue", [](int s) { return new PqA(s); }});
        k.push_back({"map", [](int s) { return new MapA(s); }});
        k.push_back({"task table", [](int s) { return new SchedA(s); }});
        k.push_back({"JSON text", [](int s) { return new TextA(s); }});
        for (int w = 0; w < SORT_COUNT; ++w)
            for (u32 es : {1u, 4u, 64u, 260u}) if (es <= 64 || w != SORT_INSERTION) k.push_back({fmt("%s sort of %u byte elements", v_sort_name(w), es), [w, es](int s) { return new SortA(s, w, es); }});
        for (int w : {8, 16, 32}) k.push_back({fmt("CRC-%d stream", w), [w](int s) { return new CrcA(s, w); }});
        k.push_back({"ChaCha20 stream", [](int s) { return new ChachaA(s); }});
        k.push_back({"ciphered message", [](int s) { return new CipherA(s); }});
        k.push_back({"Base64 conversion", [](int s) { return new B64A(s); }});
        k.push_back({"number conversion", [](int s) { return new NumA(s); }});
    }
    return k;
}
// What the actor answers alone.
static std::vector<Str> alone(const Kind& k, int seed, int steps) {
    static std::unordered_map<Str, std::vector<Str>> memo;
    Str id = k.name + fmt("#%d/%d", seed, steps);
    auto it = memo.find(id);
    if (it != memo.end()) return it->second;
    size_t m = arena_mark();
    for (auto& l : lv) l = Level();
    std::unique_ptr<Actor> a(k.make(seed));
    std::vector<Str> r;
    for (int i = 0; i < steps; ++i) { r.push_back(a->step(i)); called(); }
    arena_release(m);
    memo[id] = r;
    return r;
}
static void interleave(const std::vector<std::pair<const Kind*, int>>& who, int steps) {
    std::vector<std::vector<Str>> want;
    for (auto& w : who) want.push_back(alone(*w.first, w.second, steps));
    std::vector<int> order;  // sequence of actor numbers, all permutations of the multiset
    for (size_t a = 0; a < who.size(); ++a) order.insert(order.end(), (size_t)steps, (int)a);
    u64 n = 0;
    auto names = [&]() { Str s; for (auto& w : who) s += (s.empty() ? "" : " and ") + w.first->name; s += ", order "; for (int o : order) s += (char)('A' + o); return s; };
    g_where = names;
    do {
        size_t m = arena_mark();
        for (auto& l : lv) l = Level();
        std::vector<std::unique_ptr<Actor>> act;
        for (auto& w : who) act.emplace_back(w.first->make(w.second));
        std::vector<int> pos(who.size(), 0);
        for (int o : order) {
            Str r = act[(size_t)o]->step(pos[(size_t)o]);
            called();
            if (r != want[(size_t)o][(size_t)pos[(size_t)o]])
                FAIL("step %d of %c gave %s, alone %s", pos[(size_t)o], 'A' + o, hexs(r).c_str(), hexs(want[(size_t)o][(size_t)pos[(size_t)o]]).c_str());
            ++pos[(size_t)o];
        }
        arena_release(m);
        if ((++n & 63) == 0) tick();
    } while (std::next_permutation(order.begin(), order.end()));
    G.states += n;
    g_where = nullptr;
}
UNIT(iso_interleave) {
    auto& k = kinds();
    for (size_t a = 0; a < k.size(); ++a)
        for (size_t b = a; b < k.size(); ++b)
            RUN_CASE({
                g_level = 1;
                interleave({{&k[a], 0}, {&k[b], 1}}, G.thorough ? 6 : 5);
                if (a != b) interleave({{&k[a], 3}, {&k[b], 3}}, 4);
            });
    for (size_t a = 0; a < k.size(); ++a)
        for (size_t b = a; b < k.size(); ++b)
            for (size_t c = b; c < k.size(); ++c)
                RUN_CASE({ g_level = 1; interleave({{&k[a], 0}, {&k[b], 1}, {&k[c], 2}}, G.thorough ? 3 : 2); });
}
// The guest works inside a comparison function of the host, at every comparison.
static Str host_sort(int w, u32 es, u32 n, int seed, u64 when, std::function<void()> hook, u64* count = nullptr) {
    u8* a = buf(n * es);
    for (u32 k = 0; k < n; ++k) { Str e = el(seed, k + 900, es); memcpy(a + k * es, e.data(), es); a[k * es] = (u8)((k * 3 + (u32)seed) % n); }
    for (auto& l : lv) l = Level();
    lv[0].when = when;
    lv[0].hook = hook;
    v_sort(w, a, (int32_t)n, (int32_t)es, CMP[0]);
    lv[0].hook = nullptr;
    called();
    if (count) *count = lv[0].count;
    return Str((char*)a, n * es);
}
UNIT(iso_nested) {
    auto& k = kinds();
    for (int w = 0; w < SORT_COUNT; ++w)
        for (u32 es : {1u, 3u, 8u, 64u, 260u})
            for (size_t g = 0; g < k.size(); ++g)
                if (es <= 64 || w != SORT_INSERTION) RUN_CASE({
                    g_level = 1;
                    for (u32 n = 2; n <= (G.thorough ? 7u : 5u); ++n) {
                        u64 total = 0;
                        Str want = host_sort(w, es, n, 1, 0, nullptr, &total);
                        std::vector<Str> gw = alone(k[g], 2, 6);
                        for (u64 at_ = 0; at_ <= total; ++at_) {  // 0: one step per comparison
                            size_t m = arena_mark();
                            at("%llu elements of %llu bytes, inside comparison %llu (0: one step in each)", n, es, at_);
                            g_where = [&]() { return fmt("%s sort with a comparison function using a %s", v_sort_name(w), k[g].name.c_str()); };
                            std::unique_ptr<Actor> a(k[g].make(2));
                            int pos = 0;
                            auto stepper = [&]() {
                                if (pos >= 6) return;
                                lv[1].count = 0;
                                Str r = a->step(pos);
                                if (r != gw[(size_t)pos]) FAIL("step %d inside the comparison function gave %s, alone %s", pos, hexs(r).c_str(), hexs(gw[(size_t)pos]).c_str());
                                ++pos;
                                called();
                            };
                            Str r = host_sort(w, es, n, 1, at_, [&]() { if (at_) while (pos < 6) stepper(); else stepper(); });
                            CHECK(r == want, "the outer sort gave %s, undisturbed %s", hexs(r).c_str(), hexs(want).c_str());
                            arena_release(m);
                            ++G.states;
                        }
                        tick();
                    }
                    g_where = nullptr;
                });
    // sorts inside sorts inside sorts
    for (int w = 0; w < SORT_COUNT; ++w)
        for (int w2 = 0; w2 < SORT_COUNT; ++w2)
            for (int w3 = 0; w3 < SORT_COUNT; ++w3)
                RUN_CASE({
                    for (u32 es : {1u, 8u, 64u}) {
                        u64 total = 0;
                        Str want = host_sort(w, es, 4, 5, 0, nullptr, &total);
                        Str iwant;
                        {
                            u8* c = buf(4 * es);
                            for (u32 i = 0; i < 4; ++i) { Str e = el(7, i, es); memcpy(c + i * es, e.data(), es); c[i * es] = (u8)(3 - i); }
                            lv[2] = Level();
                            v_sort(w3, c, 4, (int32_t)es, CMP[2]);
                            iwant.assign((char*)c, 4 * es);
                        }
                        auto mid = [&](u64 when, bool inner) {  // second level, maybe with a third
                            u8* a = buf(4 * es);
                            for (u32 i = 0; i < 4; ++i) { Str e = el(6, i, es); memcpy(a + i * es, e.data(), es); a[i * es] = (u8)((i * 3 + 2) % 4); }
                            lv[1] = Level();
                            lv[1].when = when;
                            if (inner) lv[1].hook = [&]() {
                                u8* c = buf(4 * es);
                                for (u32 i = 0; i < 4; ++i) { Str e = el(7, i, es); memcpy(c + i * es, e.data(), es); c[i * es] = (u8)(3 - i); }
                                lv[2] = Level();
                                v_sort(w3, c, 4, (int32_t)es, CMP[2]);
                                Str r((char*)c, 4 * es);
                                CHECK(r == iwant, "the innermost sort left %s, alone %s", hexs(r).c_str(), hexs(iwant).c_str());
                            };
                            v_sort(w2, a, 4, (int32_t)es, CMP[1]);
                            lv[1].hook = nullptr;
                            called(2);
                            return Str((char*)a, 4 * es);
                        };
                        Str mwant = mid(1, false);
                        u64 mtotal = lv[1].count;
                        for (u64 x = 1; x <= total; ++x)
                            for (u64 y = 1; y <= mtotal; ++y) {
                                size_t m = arena_mark();

                                at("outer comparison %llu, inner comparison %llu, %llu byte elements, sorts %llu %llu %llu", x, y, es, (u64)w, (u64)w2, (u64)w3);
                                Str r = host_sort(w, es, 4, 5, x, [&]() { Str q = mid(y, true); CHECK(q == mwant, "the middle sort gave %s, alone %s", hexs(q).c_str(), hexs(mwant).c_str()); });
                                CHECK(r == want, "the outer sort gave %s, undisturbed %s", hexs(r).c_str(), hexs(want).c_str());
                                arena_release(m);
                                ++G.states;
                            }
                        tick();
                    }
                });
}
// The guest works inside the tasks of a scheduler pass.
static std::function<void(int)> g_task;
static void h0() { g_task(0); }
static void h1() { g_task(1); }
static void h2() { g_task(2); }
UNIT(iso_tasks) {
    auto& k = kinds();
    v_fn f[3] = {h0, h1, h2};
    for (size_t g = 0; g < k.size(); ++g)
        for (size_t g2 = 0; g2 < k.size(); ++g2)
            RUN_CASE({
                g_level = 1;
                for (u32 act = 0; act < 8; ++act)
                    for (int how = 0; how < 3; ++how) {
                        size_t m = arena_mark();
                        at("active tasks %llx, way %llu", act, (u64)how);
                        g_where = [&]() { return "a pass whose tasks use a " + k[g].name + " and a " + k[g2].name; };
                        std::vector<Str> w1 = alone(k[g], 1, 6), w2 = alone(k[g2], 4, 6);
                        std::unique_ptr<Actor> a(k[g].make(1)), b(k[g2].make(4));
                        int p1 = 0;
                        int p2 = 0;
                        u8* t = buf(3 * v_task_sizeof(), 0);
                        u8* inner = buf(3 * v_task_sizeof(), 0);
                        v_sched_init(t, 3);
                        v_sched_init(inner, 3);
                        for (u32 i = 0; i < 3; ++i) v_sched_add(t, 3, f[i], act >> i & 1);
                        v_sched_add(inner, 3, ta, true);
                        v_sched_add(inner, 3, tb, false);
                        v_sched_add(inner, 3, tc, true);
                        Str ran;
                        g_task = [&](int i) { ran += (char)('0' + i); CHECK(ran.size() < 100, "a pass does not end"); };
                        v_sched_run(t, 3);
                        Str once = ran;
                        ran.clear();
                        g_ran.clear();
                        v_sched_run(inner, 3);
                        Str inner_once = g_ran;
                        g_task = [&](int i) {
                            ran += (char)('0' + i);
                            CHECK(ran.size() < 100, "a pass does not end");
                            lv[1].count = 0;
                            if (p1 < 6 && (how != 1 || i != 1)) { Str r = a->step(p1); CHECK(r == w1[(size_t)p1], "step %d gave %s, alone %s", p1, hexs(r).c_str(), hexs(w1[(size_t)p1]).c_str()); ++p1; }
                            if (p2 < 6 && (how != 1 || i == 1)) { Str r = b->step(p2); CHECK(r == w2[(size_t)p2], "step %d gave %s, alone %s", p2, hexs(r).c_str(), hexs(w2[(size_t)p2]).c_str()); ++p2; }
                            if (how == 2) { g_ran.clear(); v_sched_run(inner, 3); CHECK(g_ran == inner_once, "the pass over the inner table called %s, alone %s", g_ran.c_str(), inner_once.c_str()); }
                        };
                        Str want;
                        for (int pass = 0; pass < 2; ++pass) {
                            want += once;
                            v_sched_run(t, 3);
                            called(2);
                            CHECK(ran == want, "the outer pass called %s, undisturbed %s", ran.c_str(), want.c_str());
                        }
                        g_task = nullptr;
                        arena_release(m);
                        ++G.states;
                    }
                g_where = nullptr;
                tick();
            });
}

// Product search: every reachable state of two containers used side by side, under every interleaving of all their
// operations. What a container answers has to be what it answers when it is the only one: its behaviour alone is
// explored first, and the product is compared with that in every transition.
namespace {
struct Machine {
    Str name;
    Snapshotter mem;                               // its own memory
    std::vector<Str> ops;
    std::function<void()> reset;                   // set up from scratch
    std::function<Str(size_t)> op;                 // everything that the caller sees
};
struct Solo {
    struct Edge { Str out; u32 to; };
    std::vector<std::vector<Edge>> edge;           // empty: not explored
    bool complete = true;
};
}
static std::shared_ptr<Machine> machine(int kind, int seed) {
    auto mp = std::make_shared<Machine>();
    Machine* m = mp.get();
    switch (kind) {
        case 0: {
            u32 cap = 2 + (u32)seed % 2, es = 1 + (u32)seed;
            u8* q = buf(v_queue_sizeof(), 0);
            u8* st = buf(cap * es, 0);
            m->name = fmt("queue of %u", cap);
            m->mem.add(q, v_queue_sizeof());
            m->mem.add(st, cap * es);
            m->reset = [=]() { v_queue_init(q, cap, es, st); };
            m->ops = {"enqueue(#1)", "enqueue(#2)", "dequeue", "front", "rear", "init"};
            m->op = [=](size_t i) {
                u8* o = buf(es, 0x77);
                bool r = true;
                switch (i) {
                    case 0: case 1: r = v_queue_enqueue(q, in(el(seed, i, es))); break;
                    case 2: r = v_queue_dequeue(q, o); break;
                    case 3: r = v_queue_front(q, o); break;
                    case 4: r = v_queue_rear(q, o); break;
                    default: r = v_queue_init(q, cap, es, st); break;
                }
                return fmt("%d%d%d", r, v_queue_full(q), v_queue_empty(q)) + (r ? Str((char*)o, es) : Str());
            };
            break;
        }
        case 1: {
            u32 cap = 2, es = 1 + (u32)seed;
            u8* q = buf(v_pq_sizeof(), 0);
            u8* st = buf(cap * es, 0);
            u32* pr = (u32*)buf(4 * cap, 0);
            m->name = fmt("priority queue of %u", cap);
            m->mem.add(q, v_pq_sizeof());
            m->mem.add(st, cap * es);
            m->mem.add(pr, 4 * cap);
            m->reset = [=]() { v_pq_init(q, cap, es, pr, st, false); };
            m->ops = {"enqueue(#1,1)", "enqueue(#2,1)", "enqueue(#1,2)", "enqueue(#2,2)", "dequeue", "init"};
            m->op = [=](size_t i) {
                u8* o = buf(es, 0x77);
                u32 p = 1 + (u32)(i >> 1);
                bool r = i < 4 ? v_pq_enqueue(q, (u32*)inbuf(&p, 4), in(el(seed, i & 1, es))) : i == 4 ? v_pq_dequeue(q, o) : v_pq_init(q, cap, es, pr, st, false);
                return fmt("%d%d", r, v_pq_empty(q)) + (r ? Str((char*)o, es) : Str());
            };
            break;
        }
        case 2: {
            int32_t ks = 1 + seed, vs = 2 - seed;
            u8* p = buf(v_map_sizeof(), 0);
            u8* k = buf((size_t)ks * 2, 0);
            u8* v = buf((size_t)vs * 2, 0);
            m->name = "map of 2";
            m->mem.add(p, v_map_sizeof());
            m->mem.add(k, (size_t)ks * 2);
            m->mem.add(v, (size_t)vs * 2);
            m->reset = [=]() { v_map_init(p, k, v, ks, vs, 2); };
            m->ops = {"insert(a,1)", "insert(a,2)", "insert(b,1)", "insert(b,2)", "insert(c,1)", "get(a)", "get(b)", "get(c)", "init"};
            m->op = [=](size_t i) {
                u8* o = buf((size_t)vs, 0x77);
                auto key = [&](size_t n) { Str s((size_t)ks, 'x'); s[(size_t)ks - 1] = (char)('a' + n); return in(s); };  // the same keys in both maps
                bool r = i < 5 ? v_map_insert(p, key(i / 2), in(el(seed, i & 1, (size_t)vs))) : i < 8 ? v_map_get(p, key(i - 5), o) : v_map_init(p, k, v, ks, vs, 2);
                return fmt("%d", r) + (r ? Str((char*)o, (size_t)vs) : Str());
            };
            break;
        }
        case 3: {
            u32 n = 2 + (u32)seed;
            u8* t = buf(n * v_task_sizeof(), 0);
            m->name = fmt("task table of %u", n);
            m->mem.add(t, n * v_task_sizeof());
            m->reset = [=]() { v_sched_init(t, n); };
            m->ops = {"add(a,1)", "add(b,0)", "add(c,1)", "free(0)", "toggle(last)", "run", "init"};
            m->op = [=](size_t i) {
                Str keep = g_ran;
                g_ran.clear();
                bool r = true;
                if (i < 3) r = v_sched_add(t, n, i == 0 ? ta : i == 1 ? tb : tc, i != 1);
                else if (i == 3) v_task_set(t, 0, nullptr, v_task_active(t, 0));
                else if (i == 4) v_task_set(t, n - 1, v_task_fn(t, n - 1), !v_task_active(t, n - 1));
                else if (i == 5) v_sched_run(t, n);
                else v_sched_init(t, n);
                std::swap(keep, g_ran);
                for (u32 j = 0; j < n; ++j) { v_fn f = v_task_fn(t, j); keep += f == ta ? 'a' : f == tb ? 'b' : f == tc ? 'c' : f ? '?' : '-'; keep += v_task_active(t, j) ? '+' : '-'; }
                return fmt("%d", r) + keep;
            };
            break;
        }
        default: {
            size_t n = 18 + 3 * (size_t)seed;
            char* b = cbuf(n, 0);
            m->name = fmt("text in %zu bytes", n);
            m->mem.add(b, n);
            m->reset = [=]() { v_json_start(b, n); };
            m->ops = {"add(a,1)", "add(,xy)", "end", "lookup(a)", "start"};
            m->op = [=](size_t i) {
                bool ended = strchr(b, '}') != nullptr;
                bool r = false;
                Str out;
                if (i < 2) { if (ended) return Str(); r = v_json_add(b, n, instr(i ? "" : "a"), instr(i ? "xy" : "1")); }
                else if (i == 2) { if (ended) return Str(); r = v_json_end(b, n); }
                else if (i == 3) { char* v = cbuf(4, 0); if (!ended) return Str(); r = v_json_find(b, n, instr("a"), v, 4); out = r ? Str(v, strnlen(v, 4)) : ""; }
                else r = v_json_start(b, n);
                size_t l = strnlen(b, n);
                memset(b + l, 0, n - l);  // what stands behind the text belongs to nobody
                return fmt("%d", r) + out + "/" + Str(b, l);
            };
            break;
        }
    }
    return mp;
}
static Solo solo(Machine& m, const Str& fresh) {
    Solo g;
    std::unordered_map<Str, u32> seen;
    std::vector<Str> st;
    lib_rw_load(fresh);
    m.reset();
    st.push_back(m.mem.save());
    seen.emplace(st[0], 0);
    const size_t limit = bylevel<size_t>(600, 2000, 6000);
    for (size_t n = 0; n < st.size(); ++n) {
        if (n >= limit) { g.complete = false; break; }
        std::vector<Solo::Edge> e;
        for (size_t i = 0; i < m.ops.size(); ++i) {
            size_t mk = arena_mark();
            m.mem.load(st[n]);
            Str out = m.op(i);
            Str s = m.mem.save();
            arena_release(mk);
            called();
            auto x = seen.emplace(s, (u32)st.size());
            if (x.second) st.push_back(s);
            e.push_back({out, x.first->second});
        }
        g.edge.push_back(e);
        tick();
    }
    return g;
}
UNIT(iso_product) {
    const int kinds_n = 5;
    for (int a = 0; a < kinds_n; ++a)
        for (int b = a; b < kinds_n; ++b)
            for (int same = 0; same < 2; ++same)
                RUN_CASE({
                    Str fresh = lib_rw_save();
                    auto A = machine(a, 0);
                    auto B = machine(b, same ? 0 : 1);
                    Solo ga = solo(*A, fresh);
                    Solo gb = solo(*B, fresh);
                    Snapshotter both;
                    for (auto& r : A->mem.regions) both.add(r.p, r.n);
                    for (auto& r : B->mem.regions) both.add(r.p, r.n);
                    struct Node { Str st; u32 x, y, parent; int op; };
                    std::vector<Node> nodes;
                    std::unordered_set<Str> seen;
                    lib_rw_load(fresh);
                    A->reset();
                    B->reset();
                    nodes.push_back({both.save(), 0, 0, 0, -1});
                    seen.insert(nodes[0].st + fmt("|%u|%u", 0u, 0u));
                    size_t cur = 0;
                    int curop = -1;
                    const size_t na = A->ops.size();
                    g_where = [&]() {
                        std::vector<int> p;
                        if (curop >= 0) p.push_back(curop);
                        for (size_t i = cur; nodes[i].op >= 0; i = nodes[i].parent) p.push_back(nodes[i].op);
                        Str r = "A: " + A->name + ", B: " + B->name + ", history: ";
                        for (size_t i = p.size(); i-- > 0;) r += ((size_t)p[i] < na ? "A." + A->ops[(size_t)p[i]] : "B." + B->ops[(size_t)p[i] - na]) + (i ? "; " : "");
                        return r;
                    };
                    const size_t limit = bylevel<size_t>(30000, 300000, 3000000);
                    bool complete = ga.complete && gb.complete;
                    u64 trans = 0;
                    for (cur = 0; cur < nodes.size(); ++cur) {
                        tick();
                        for (size_t i = 0; i < na + B->ops.size(); ++i) {
                            bool isa = i < na;
                            u32 x = nodes[cur].x, y = nodes[cur].y;
                            Solo& g = isa ? ga : gb;
                            if ((isa ? x : y) >= g.edge.size()) { complete = false; continue; }
                            const Solo::Edge& e = g.edge[isa ? x : y][isa ? i : i - na];
                            curop = (int)i;
                            size_t mk = arena_mark();
                            both.load(nodes[cur].st);
                            Str out = isa ? A->op(i) : B->op(i - na);
                            Str s = both.save();
                            arena_release(mk);
                            called();
                            ++trans;
                            if (out != e.out) FAIL("the last operation answered %s, alone %s", hexs(out).c_str(), hexs(e.out).c_str());
                            (isa ? x : y) = e.to;
                            if (!seen.insert(s + fmt("|%u|%u", x, y)).second) continue;
                            if (nodes.size() >= limit) { complete = false; continue; }
                            nodes.push_back({s, x, y, (u32)cur, (int)i});
                        }
                    }
                    curop = -1;
                    lib_rw_load(fresh);
                    G.states += nodes.size();
                    report_bfs(fmt("side by side: %s, %s", A->name.c_str(), B->name.c_str()).c_str(), nodes.size(), trans, 0, complete);
                    g_where = nullptr;
                });
}

// Two checksums computed in pieces, side by side: all pairs of variants, all interleavings of four pieces each.
UNIT(iso_crc) {
    for (int v = 0; v < v_crc_count; ++v)
        RUN_CASE({
            for (int w = v; w < v_crc_count; ++w) {
                at("variants %llu and %llu", (u64)v, (u64)w);
                const v_crc_t* c[2] = {&v_crcs[v], &v_crcs[w]};
                size_t mk = arena_mark();
                u8* piece[2][4];
                u32 len[4] = {1, 5, 0, 9};
                u32 want[2][4];
                for (int s = 0; s < 2; ++s) {
                    u32 last = 0;
                    for (int i = 0; i < 4; ++i) {
                        piece[s][i] = in(el(s + 3, (u64)i, len[i]));
                        want[s][i] = last = c[s]->call(piece[s][i], len[i], i == 3, i ? &last : nullptr);
                    }
                }
                for (u32 m = 0; m < 256; ++m) {
                    if (__builtin_popcount(m) != 4) continue;
                    u32 last[2] = {0, 0};
                    int pos[2] = {0, 0};
                    for (int k = 0; k < 8; ++k) {
                        int s = m >> k & 1, i = pos[s]++;
                        last[s] = c[s]->call(piece[s][i], len[i], i == 3, i ? &last[s] : nullptr);
                        if (last[s] != want[s][i])
                            FAIL("%s and %s side by side, order %x: piece %d of stream %d gives %x, alone %x", c[0]->name, c[1]->name, m, i, s, last[s], want[s][i]);
                    }
                    called(8);
                    ++G.states;
                }
                arena_release(mk);
                tick();
            }
        });
}
