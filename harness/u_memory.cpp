// The library works within the memory it is given: the stack a call needs does not grow with the amount of data.
// (That no call asks for dynamic memory is watched during all explorations, see v_allocating in mc.cpp.)
#include "mc.hpp"
#include <sys/mman.h>
#include <ucontext.h>

static const size_t STACK = 4u << 20;
static u8* stk;
static ucontext_t here, there;
static std::function<void()>* todo;
static void entry() { (*todo)(); }

// Bytes of stack f touches (beyond those of an empty function).
static size_t depth_of(std::function<void()> f) {
    if (!stk) {
        stk = (u8*)mmap(nullptr, STACK + 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (stk == MAP_FAILED) { perror("mmap"); _Exit(99); }
        mprotect(stk, 65536, PROT_NONE);
        stk += 65536;
    }
    madvise(stk, STACK, MADV_DONTNEED);  // all zero again
    getcontext(&there);
    there.uc_stack.ss_sp = stk;
    there.uc_stack.ss_size = STACK;
    there.uc_link = &here;
    todo = &f;
    makecontext(&there, entry, 0);
    swapcontext(&here, &there);
    const u64* w = (const u64*)stk;
    size_t i = 0;
    while (i < STACK / 8 && w[i] == 0) ++i;
    return STACK - 8 * i;
}
static bool up(void* a, void* b) { return *(u8*)a > *(u8*)b; }
static bool down(void* a, void* b) { return *(u8*)a < *(u8*)b; }
static bool yes(void*, void*) { return true; }
static void nop() { }
static size_t width;  // of the keys compared by `wide`
static bool wide(void* a, void* b) { return memcmp(a, b, width < 4 ? width : 4) > 0; }

typedef std::function<void()> F;
struct Op { Str name; size_t max; std::function<F(size_t)> make; };
static u8* data(size_t n, u64 salt) { u8* p = buf(n); for (size_t i = 0; i < n; ++i) p[i] = pat(i, salt); return p; }
static char* letters(size_t n, u64 salt) { char* p = cbuf(n + 1); for (size_t i = 0; i < n; ++i) p[i] = (char)('a' + pat(i, salt) % 26); p[n] = 0; return p; }

static std::vector<Op> ops() {
    std::vector<Op> r;
    const size_t BIG = 200000, MID = 20000, SQ = bylevel<size_t>(1000, 2500, 5000);
    auto add = [&](const Str& n, size_t max, std::function<F(size_t)> f) { r.push_back({n, max, f}); };
    for (int w = 0; w < SORT_COUNT; ++w) {
        size_t many = w == SORT_HEAP ? 50000 : SQ;
        for (int order = 0; order < 4; ++order)
            add(fmt("%s sort, n elements, %s", v_sort_name(w), order == 0 ? "mixed" : order == 1 ? "ascending" : order == 2 ? "descending, sorted downwards" : "descending"), many, [=](size_t n) -> F {
                u8* b = data(n * 2, 1);
                if (order) for (size_t i = 0; i < n; ++i) b[2 * i] = (u8)((order == 1 ? i : n - i) * 255 / n);
                return [=]() { v_sort(w, b, (int32_t)n, 2, order == 2 ? down : up); };
            });
        add(fmt("%s sort, n elements, two of them out of order", v_sort_name(w)), many, [=](size_t n) -> F {
            u8* b = buf(n * 2);
            for (size_t i = 0; i < n; ++i) b[2 * i] = (u8)(i * 255 / n);
            b[2 * (n - 1)] = 0;
            return [=]() { v_sort(w, b, (int32_t)n, 2, up); };
        });
        if (w != SORT_BUBBLE)
            add(fmt("%s sort, n elements, comparison always true", v_sort_name(w)), many, [=](size_t n) -> F { u8* b = data(n, 21); return [=]() { v_sort(w, b, (int32_t)n, 1, yes); }; });
        add(fmt("%s sort, elements of n bytes", v_sort_name(w)), (size_t)v_sort_max_size(w) < MID ? (size_t)v_sort_max_size(w) : MID, [=](size_t n) -> F {
            u8* b = data(n * 5, 2);
            return [=]() { width = n; v_sort(w, b, 5, (int32_t)n, wide); };
        });
    }
    for (int k = 0; k < 2; ++k) {
        add(k ? "queue, elements of n bytes" : "queue, capacity n", k ? MID : BIG, [=](size_t n) -> F {
            u32 cap = k ? 3 : (u32)n, es = k ? (u32)n : 1;
            u8* q = buf(v_queue_sizeof()); u8* st = buf((size_t)cap * es); u8* e = data(es, 3); u8* o = buf(es);
            return [=]() {
                v_queue_init(q, cap, es, st);
                for (u32 i = 0; i < cap; ++i) v_queue_enqueue(q, e);
                v_queue_front(q, o); v_queue_rear(q, o); v_queue_full(q);
                for (u32 i = 0; i <= cap; ++i) v_queue_dequeue(q, o);
                v_queue_empty(q);
            };
        });
        for (int o3 = 0; o3 < 4; ++o3)
        add(fmt("priority queue, %s n, priorities %s", k ? "elements of" : "capacity", o3 == 0 ? "mixed" : o3 == 1 ? "rising" : o3 == 2 ? "falling" : "equal"), k ? MID : SQ, [=](size_t n) -> F {
            u32 cap = k ? 3 : (u32)n, es = k ? (u32)n : 1;
            u8* q = buf(v_pq_sizeof()); u32* pr = (u32*)buf(4 * (size_t)cap); u8* st = buf((size_t)cap * es); u8* e = data(es, 4); u8* o = buf(es);
            u32* p = (u32*)buf(4);
            return [=]() {
                v_pq_init(q, cap, es, pr, st, false);
                for (u32 i = 0; i < cap + 2; ++i) { *p = o3 == 0 ? i * 2654435761u : o3 == 1 ? i : o3 == 2 ? ~i : 7u; v_pq_enqueue(q, p, e); }
                for (u32 i = 0; i <= cap; ++i) v_pq_dequeue(q, o);
                v_pq_empty(q);
            };
        });
    }
    for (int k = 0; k < 3; ++k)
        add(k == 0 ? "map, n entries" : k == 1 ? "map, keys of n bytes" : "map, values of n bytes", k ? MID : SQ, [=](size_t n) -> F {
            int32_t cap = k ? 3 : (int32_t)n, ks = k == 1 ? (int32_t)n : 4, vs = k == 2 ? (int32_t)n : 2;
            u8* m = buf(v_map_sizeof()); u8* kk = buf((size_t)cap * ks); u8* vv = buf((size_t)cap * vs); u8* key = data(ks, 5); u8* val = data(vs, 6); u8* o = buf(vs);
            return [=]() {
                v_map_init(m, kk, vv, ks, vs, cap);
                for (int32_t i = 0; i <= cap; ++i) { memcpy(key, &i, ks < 4 ? ks : 4); v_map_insert(m, key, val); v_map_insert(m, key, val); v_map_get(m, key, o); }
            };
        });
    for (int k = 0; k < 3; ++k)
    add(fmt("task table, n tasks, %s active", k == 0 ? "some" : k == 1 ? "all" : "none"), MID / 4, [=](size_t n) -> F {
        u8* t = buf(v_task_sizeof() * n);
        return [=]() {
            v_sched_init(t, (u32)n);
            for (size_t i = 0; i < n; ++i) v_task_set(t, (u32)i, nop, k == 0 ? i % 3 != 0 : k == 1);
            v_sched_add(t, (u32)n, nop, true);
            v_sched_run(t, (u32)n);
        };
    });
    for (int k = 0; k < 4; ++k)
        add(fmt("Base64 decoding of n times '%c'", "=A\n-"[k]), BIG, [=](size_t n) -> F { char* e = cbuf(n, "=A\n-"[k]); u8* o = buf(n); return [=]() { v_b64_decode(e, n, o, n); v_b64_decode(e, n, o, n / 2); }; });
    add("Base64, n bytes", BIG, [=](size_t n) -> F {
        u8* d = data(n, 7);
        size_t need = (n + 2) / 3 * 4 + 1;
        char* e = cbuf(need);
        u8* o = buf(n);
        return [=]() { v_b64_encode((const char*)d, n, e, need); v_b64_decode(e, need - 1, o, n); v_b64_decode(e, need - 1, o, n - 1); v_b64_encode((const char*)d, n, e, need / 2); };
    });
    for (int k = 0; k < 3; ++k)
        add(k == 0 ? "JSON, n pairs" : k == 1 ? "JSON, names of n bytes" : "JSON, values of n bytes", k ? BIG : SQ, [=](size_t n) -> F {
            size_t size = 100 + 3 * n * (k ? 1 : 30);
            char* b = cbuf(size);
            char* name = letters(k == 1 ? n : 3, 8);
            char* val = letters(k == 2 ? n : 3, 9);
            size_t vcap = (k == 2 ? n : 3) + 1;
            char* v = cbuf(vcap);
            return [=]() {
                v_json_start(b, size);
                for (size_t i = 0; i < (k ? 2 : n); ++i) v_json_add(b, size, k == 1 ? name : i + 1 == n || k ? "last" : "name", val);
                v_json_add(b, size, name, val);
                v_json_end(b, size);
                v_json_find(b, size, k == 1 ? name : "last", v, vcap);
                v_json_find(b, size, "none", v, vcap);
            };
        });
    // texts made of a piece, n times the next, another piece, n times the next, ...
    static const std::vector<std::vector<Str>> T = {
        {"{", " ", "\"a\"", "\n", ":", "\t", "\"x\"}"}, {"", " ", "{\"a\":\"x\"}"}, {"", "\n", "{\"a\":\"x\"}"}, {"", "\t", "", "\r", "{\"a\":\"x\"}", " "},
        {"", "{", "\"a\":\"x\"", "}"}, {"", "[", "\"a\"", "]"}, {"", "\"", "a"}, {"", "\"\"", ""}, {"", "\"\":", "\"x\""}, {"", "\"a\":", ""}, {"", "\"a\" ", ":\"x\""},
        {"{\"b\":", "1", ",\"a\":\"x\"}"}, {"", ":", "\"a\":\"x\""}, {"", ",", "\"a\":\"x\""}, {"{", "\"b\":\"a\",", "\"a\":\"x\"}"}, {"{", "\"a\":1,", "\"a\":\"x\"}"},
        {"", "\"a\",", "\"a\":\"x\""}, {"", "a", ""}, {"", "\x80", ""}, {"{\"a\":", "\\", "}"}, {"{\"a\":\"", "\\", "\"}"}, {"{\"a\":\"", "\\\"", "\"}"}, {"", "\n\"", ""}};
    for (size_t k = 0; k < T.size(); ++k)
        for (size_t cap : {(size_t)2, (size_t)0})
            add(fmt("JSON lookup, text %zu of n pieces, %s value buffer", k, cap ? "small" : "large"), k == 0 || cap == 0 ? BIG : MID * 3, [=](size_t n) -> F {
                Str t;
                for (size_t i = 0; i < T[k].size(); ++i) for (size_t j = 0; j < (i % 2 ? n : 1); ++j) t += T[k][i];
                const char* b = inraw(t);
                size_t len = t.size(), vcap = cap ? cap : len + 1;
                char* v = cbuf(vcap);
                return [=]() { v_json_find(b, len, "a", v, vcap); v_json_find(b, len, "none", v, vcap); v_json_find(b, len, "", v, vcap); };
            });
    for (int k = 0; k < 3; ++k)
    add(fmt("Caesar, n %s", k == 0 ? "letters" : k == 1 ? "spaces" : "equal letters"), BIG, [=](size_t n) -> F { char* m = letters(n, 10); if (k) memset(m, k == 1 ? ' ' : 'Z', n); return [=]() { v_caesar_encrypt(m, 3); v_caesar_decrypt(m, 3); v_caesar_encrypt(m, 255); }; });
    for (int k = 0; k < 2; ++k)
    add(fmt("Vernam, n %s", k ? "digits" : "letters"), BIG, [=](size_t n) -> F { char* m = letters(n, 11); if (k) memset(m, '5', n); char* k = letters(n, 12); return [=]() { v_vernam_encrypt(m, k, (int32_t)n); v_vernam_decrypt(m, k, (int32_t)n); v_vernam_encrypt(m, k, (int32_t)n - 1); }; });
    add("ChaCha20, n bytes", BIG, [=](size_t n) -> F { u8* p = data(n, 13); u8* k = data(32, 14); u8* no = data(12, 15); u8* o = buf(n); return [=]() { v_chacha(p, (u32)n, k, no, 1, o); v_chacha(p, (u32)n, k, no, ~0u, p); }; });
    for (int k = 0; k < 3; ++k)
    add(fmt("decimal text, n %s", k == 0 ? "zeros" : k == 1 ? "nines" : "letters"), 255, [=](size_t n) -> F { char* t = cbuf(n); memset(t, k == 0 ? '0' : k == 1 ? '9' : 'a', n); u32* o = (u32*)buf(4); return [=]() { v_str2u32(t, (u8)n, o); }; });
    add("powers of ten up to n", 255, [=](size_t n) -> F { u32* o = (u32*)buf(4); return [=]() { for (size_t i = 0; i <= n; ++i) v_pow10((u8)i, o); }; });
    add("exchange of n bytes", BIG, [=](size_t n) -> F { u8* a = data(n, 16); u8* b = data(n, 17); return [=]() { v_swap(a, b, (u32)n); }; });
    for (int le = 0; le < 2; ++le)
        add(fmt("blob of n bytes, %s-endian", le ? "little" : "big"), BIG, [=](size_t n) -> F { u8* a = data(n, 18); u8* b = buf(n); return [=]() { v_ser_blob(le, b, a, (u32)n); v_deser_blob(le, b, a, (u32)n); }; });
    for (int i = 0; i < v_crc_count; ++i)
        add(fmt("%s of n bytes", v_crcs[i].name), 70000, [=](size_t n) -> F { u8* d = data(n, 19); return [=]() { v_crcs[i].call(d, (u32)n, true, nullptr); u32 l = 5; v_crcs[i].call(d, (u32)n, false, &l); }; });
    for (int w = 8; w <= 32; w *= 2)
        for (int o = 0; o < 4; ++o)
            add(fmt("CRC engine, %d bits, options %d, n bytes", w, o), 70000, [=](size_t n) -> F {
                u8* d = data(n, 20);
                u8* t = buf(1024);
                return [=]() { v_crc_table(w, 0x1021, t); v_crc_engine(w, t, d, (u32)n, 5, 6, o & 1, o & 2, true); };
            });
    add("bit operations, position n", 255, [=](size_t n) -> F {
        u32* r = (u32*)buf(4); bool* b = (bool*)buf(1);
        return [=]() { v_reflect(0x12345678, (u8)(n % 33)); v_bit_test(5, (u8)n, b); v_bit_set(5, (u8)n, r); v_bit_clear(5, (u8)n, r); v_bit_toggle(5, (u8)n, r); v_rotl(9, (u32)n % 33); };
    });
    return r;
}
UNIT(stack) {
    std::vector<size_t> sizes;
    for (size_t n = 1; n <= bylevel<size_t>(16, 64, 600); ++n) sizes.push_back(n);
    for (size_t n : {17u, 31u, 32u, 33u, 63u, 64u, 65u, 100u, 127u, 128u, 129u, 200u, 255u, 256u, 257u, 400u, 512u, 600u, 1000u, 1024u, 1025u, 2000u, 2500u, 4095u, 4096u, 4097u, 5000u,
                     8192u, 10000u, 16384u, 20000u, 32768u, 40000u, 50000u, 65535u, 65536u, 65537u, 70000u, 100000u, 131072u, 200000u})
        if (n > sizes.back()) sizes.push_back(n);
    std::vector<Op> all = ops();
    for (auto& o : all)
        RUN_CASE({
            size_t small = 0, most = 0, at_n = 0;
            for (size_t n : sizes) {
                if (n > o.max) break;
                size_t m = arena_mark();
                F f = o.make(n);
                at("size %llu", n);
                size_t d = depth_of(f);
                called();
                arena_release(m);
                if (n <= 16 && d > small) small = d;
                if (d > most) { most = d; at_n = n; }
                if (d > small + 8192) failv(RULE, "%s: with n = %zu the stack grew by %zu bytes, with n up to 16 by no more than %zu", o.name.c_str(), n, d, small);
                SAMPLE("%s: n = %zu needed %zu bytes of stack", o.name.c_str(), n, d);
                tick();
            }
            if (most > small + 512) G.notes.push_back(fmt("%s: stack %zu bytes for n up to 16, %zu for n = %zu", o.name.c_str(), small, most, at_n));
        });
}

// Every call returns, after a number of steps that the sizes bound: what it may take for n is derived from what the
// calls for small n take, with ample room for other ways to write the same algorithm.
UNIT(effort) {
    std::vector<size_t> sizes;
    for (size_t n = 1; n <= bylevel<size_t>(40, 130, 600); ++n) sizes.push_back(n);
    for (size_t n : {63u, 64u, 65u, 100u, 127u, 128u, 129u, 200u, 254u, 255u, 256u, 257u, 300u, 511u, 512u, 513u, 600u, 1000u, 1023u, 1024u, 1025u, 2000u, 2500u, 4095u, 4096u, 4097u, 5000u,
                     8192u, 10000u, 16384u, 20000u, 32767u, 32768u, 32769u, 40000u, 50000u, 65535u, 65536u, 65537u, 70000u, 100000u, 131071u, 131072u, 131073u, 200000u})
        if (n > sizes.back()) sizes.push_back(n);
    std::vector<Op> all = ops();
    for (int k = 0; k < 3; ++k)
        all.push_back({k == 0 ? "filled queue of capacity n" : k == 1 ? "queue of capacity n holding one" : "wrapped queue of capacity n", 200000, [=](size_t n) -> F {
            u8* q = buf(v_queue_sizeof()); u8* st = buf(n); u8* e = data(1, 3); u8* o = buf(1);
            v_queue_init(q, (u32)n, 1, st);
            for (size_t i = 0; i < (k == 1 ? 1 : n); ++i) v_queue_enqueue(q, e);
            if (k == 2) for (size_t i = 0; i < n / 2 + 1; ++i) { v_queue_dequeue(q, o); v_queue_enqueue(q, e); }
            return [=]() {
                v_queue_enqueue(q, e); v_queue_front(q, o); v_queue_rear(q, o); v_queue_full(q); v_queue_empty(q); v_queue_dequeue(q, o); v_queue_enqueue(q, e); v_queue_dequeue(q, o); v_queue_dequeue(q, o);
            };
        }});
    for (auto& o : all)
        RUN_CASE({
            enum { CONST, LINEAR, NLOGN, SQUARE } cls = o.name.find("queue of capacity") != Str::npos ? CONST : o.name.find("sort, n elements") == Str::npos ? LINEAR : o.name.find("heap") == 0 || o.name.find("Heap") == 0 ? NLOGN : SQUARE;
            u64 unit = 0, worst = 0, worst_n = 0;
            g_where = [&]() { return o.name; };
            for (size_t n : sizes) {
                if (n > o.max) break;
                size_t m = arena_mark();
                v_steps_limit = ANY_CALL;
                F f = o.make(n);
                double x = n <= 16 ? 0 : n / 16.0;
                double lg = 0;
                for (size_t k = n; k > 16; k /= 2) lg += 1;
                double grown = cls == CONST ? 1 : cls == LINEAR ? 1 + x : cls == NLOGN ? 1 + x * (1 + lg) : 1 + x * x;
                u64 limit = n <= 16 ? 1000000 : (u64)(20000 + 8 * grown * (unit + 100));
                v_steps_limit = limit;
                v_steps_most = 0;
                at("size %llu, at most %llu steps", n, limit);
                f();
                called();
                v_steps_limit = ANY_CALL;
                arena_release(m);
                if (n <= 16 && v_steps_most > unit) unit = v_steps_most;
                if (v_steps_most * 1000 / limit > worst) { worst = v_steps_most * 1000 / limit; worst_n = n; }
                SAMPLE("%s: n = %zu took a call %llu steps", o.name.c_str(), n, (unsigned long long)v_steps_most);
                tick();
            }
            if (worst > 200) G.notes.push_back(fmt("%s: %llu/1000 of the steps allowed were taken for n = %llu", o.name.c_str(), (unsigned long long)worst, (unsigned long long)worst_n));
            g_where = nullptr;
        });
}
