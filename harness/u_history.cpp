// C26: outcomes depend on the arguments only. A large alphabet of calls (and short histories on
// freshly initialised objects) is executed in every order of two (and three), with every earlier
// content of output buffers, unused storage and stack, and from every reachable state of the
// library's own writable data; the outcome has to be the one of the fresh library every time.
#include <map>
#include "mc.hpp"
Str ref_b64(const Str& in, bool url = false, bool pad = true);

namespace { struct Call { Str name; std::function<Str(int)> f; }; }  // argument: filling of outputs and storage
static std::vector<Call> C;
static void add(const Str& n, std::function<Str(int)> f) { C.push_back({n, f}); }

static Str el(u64 id, size_t n) { Str s(n, '\0'); for (size_t i = 0; i < n; ++i) s[i] = (char)pat(i, id + 400); return s; }
static u8* in(const Str& s) { return inbuf(s.data(), s.size()); }
static bool gt(void* a, void* b) { return *(u8*)a > *(u8*)b; }
static bool lt(void* a, void* b) { return *(u8*)a < *(u8*)b; }
static Str ran;
static void ta() { ran += 'a'; }
static void tb() { ran += 'b'; }

static void alphabet() {
    if (!C.empty()) return;
    for (size_t n : {0u, 1u, 2u, 3u, 4u, 6u, 31u})
        for (int fit = 0; fit < 2; ++fit)
            add(fmt("Base64 encode %zu bytes, %s", n, fit ? "fitting" : "too small"), [=](int p) {
                size_t need = (n + 2) / 3 * 4 + 1, cap = fit ? need : need - 1;
                char* o = cbuf(cap, p);
                int r = v_b64_encode((const char*)in(el(n, n)), n, o, cap);
                return fmt("%d", r == 0) + (r == 0 ? Str(o, need) : Str());
            });
    for (size_t n : {1u, 2u, 3u, 4u, 5u, 31u})
        for (int form = 0; form < 3; ++form)
            add(fmt("Base64 decode %zu bytes, form %d", n, form), [=](int p) {
                Str t = ref_b64(el(n + 7, n), form == 1, form != 2);
                u8* o = buf(n, p);
                int r = v_b64_decode((const char*)inraw(t), t.size(), o, n);
                return fmt("%d", r == 0) + (r == 0 ? Str((char*)o, n) : Str());
            });
    add("Base64 decode nothing", [](int p) { return fmt("%d", v_b64_decode((const char*)in(""), 0, buf(3, p), 3) == 0); });
    add("Base64 decode too small", [](int p) { return fmt("%d", v_b64_decode((const char*)inraw("QUJD"), 4, buf(2, p), 2) == 0); });
    for (int i = 0; i < v_crc_count; ++i)
        add(fmt("%s", v_crcs[i].name), [=](int) {
            const v_crc_t& c = v_crcs[i];
            Str a = el(1, 9), b = el(2, 4);
            u32 x = c.call(in(a), 9, false, nullptr);
            u32 y = c.call(in(b), 4, true, &x);
            return fmt("%x %x %x %x", x, y, c.call(in(a), 9, true, nullptr), c.call(in(a), 0, true, nullptr));
        });
    for (int w : {8, 16, 32})
        for (u32 poly : {0x07u, 0x1Du, 0x31u})
            add(fmt("CRC table %d/%x and engine", w, poly), [=](int p) {
                u8* t = buf(256 * (size_t)w / 8, p);
                v_crc_table(w, poly, t);
                Str r((char*)t, 256 * (size_t)w / 8);
                for (int f = 0; f < 8; ++f) r += fmt(" %x", v_crc_engine(w, t, in(el(3, 5)), 5, 0x5A, 0x33, f & 1, f & 2, f & 4));
                return r;
            });
    for (size_t n : {0u, 1u, 63u, 64u, 65u, 130u})
        add(fmt("ChaCha20 %zu bytes", n), [=](int p) {
            u8* o = buf(n, p);
            v_chacha(in(el(4, n)), (u32)n, in(el(5, 32)), in(el(6, 12)), (u32)n, o);
            return Str((char*)o, n);
        });
    add("ChaCha20 other key", [](int p) { u8* o = buf(70, p); v_chacha(in(el(4, 70)), 70, in(el(7, 32)), in(el(6, 12)), ~0u, o); return Str((char*)o, 70); });
    for (u32 s : {0u, 3u, 26u, 200u})
        for (int d = 0; d < 2; ++d)
            add(fmt("Caesar %s %u", d ? "decrypt" : "encrypt", s), [=](int) { char* m = strbuf("abc XYZ \x80 zzz"); if (d) v_caesar_decrypt(m, (u8)s); else v_caesar_encrypt(m, (u8)s); return Str(m); });
    for (int d = 0; d < 2; ++d)
        for (int k = 0; k < 3; ++k)
            add(fmt("Vernam %s key %d", d ? "decrypt" : "encrypt", k), [=](int) {
                char* m = strbuf("abC xYZ!");
                Str key = k == 0 ? "lemonLEM" : k == 1 ? "l\x80" "m9 L\x01M" : "short";
                bool r = d ? v_vernam_decrypt(m, (const char*)in(key), (int32_t)key.size()) : v_vernam_encrypt(m, (const char*)in(key), (int32_t)key.size());
                return fmt("%d", r) + m;
            });
    for (size_t n : {1u, 2u, 10u, 20u, 40u})
        add(fmt("JSON build in %zu bytes", n), [=](int p) {
            char* b = cbuf(n, p);
            if (!v_json_start(b, n)) return Str("0");
            bool a = v_json_add(b, n, instr("key"), instr("v")), c = v_json_add(b, n, instr(""), instr("")), d = v_json_add(b, n, instr("n"), instr("long value")), e = v_json_end(b, n);
            return fmt("%d%d%d%d", a, c, d, e) + Str(b, strnlen(b, n));
        });
    for (const char* k : {"a", "ab", "b", "", "x"})
        for (size_t cap : {0u, 2u, 3u, 9u})
            add(fmt("JSON lookup of %s into %zu bytes", k, cap), [=](int p) {
                Str t = "{\"ab\":\"a\", \"a\" : \"vv\",\n\"b\":12,\"\":\"\"}";
                char* v = cbuf(cap, p);
                bool r = v_json_find(instr(t), t.size() + 1, instr(k), v, cap);
                return fmt("%d", r) + (r ? Str(v, strnlen(v, cap)) : Str());
            });
    for (const char* s : {"", "0", "7", "0123456789", "4294967295", "4294967296", "9999999999", "12x", "x", "00000000001", "999999999"})
        add(Str("convert ") + s, [=](int p) { u32 r; memset(&r, p, 4); Str t = s; bool ok = v_str2u32(inraw(t), (u8)t.size(), &r); return fmt("%d %u", ok, ok ? r : 0); });
    for (u32 e : {0u, 5u, 9u, 10u, 255u})
        add(fmt("10^%u", e), [=](int p) { u32 r; memset(&r, p, 4); bool ok = v_pow10((u8)e, &r); return fmt("%d %u", ok, ok ? r : 0); });
    for (size_t n : {0u, 1u, 7u})
        add(fmt("exchange %zu", n), [=](int) { u8* a = buf(n); u8* b = buf(n); memcpy(a, el(8, n).data(), n); memcpy(b, el(9, n).data(), n); v_swap(a, b, (u32)n); return Str((char*)a, n) + Str((char*)b, n); });
    for (int w : {8, 16, 24, 32})
        for (int le = 0; le < 2; ++le)
            add(fmt("serialise %d %d", w, le), [=](int p) { u8* b = buf((size_t)w / 8, p); v_ser(w, le, b, 0x89ABCDEF); return Str((char*)b, (size_t)w / 8) + fmt("%x", v_deser(w, le, in(el(10, 4)))); });
    for (int le = 0; le < 2; ++le)
        add(fmt("blob %d", le), [=](int p) { u8* a = buf(9, p); u8* b = buf(9, p); v_ser_blob(le, a, in(el(11, 9)), 9); v_deser_blob(le, in(el(12, 9)), b, 9); return Str((char*)a, 9) + Str((char*)b, 9); });
    add("letters", [](int) { Str r; for (char c : Str("aZ@[`{\x80\xC1 0")) r += fmt("%d%d%d", v_is_upper(c), v_is_lower(c), v_is_alpha(c)); return r; });
    for (u32 n : {0u, 1u, 31u, 32u, 255u})
        add(fmt("bit %u", n), [=](int p) {
            Str r;
            for (int op = 0; op < 3; ++op) { u32 o; memset(&o, p, 4); bool ok = op == 0 ? v_bit_set(0xF0F0, (u8)n, &o) : op == 1 ? v_bit_clear(0xF0F1, (u8)n, &o) : v_bit_toggle(0xF0F1, (u8)n, &o); r += fmt("%d %x ", ok, ok ? o : 0); }
            bool b = p & 1;
            bool ok = v_bit_test(0x80000001u, (u8)n, &b);
            r += fmt("%d %d ", ok, ok && b);
            if (n <= 32) r += fmt("%x %x", v_rotl(0x80000011u, n), v_reflect(0x80000011u, (u8)n));
            return r;
        });
    for (int w = 0; w < SORT_COUNT; ++w)
        for (u32 es : {1u, 4u, 64u})
            for (u32 n : {0u, 1u, 2u, 5u})
                add(fmt("%s sort of %u elements of %u bytes", v_sort_name(w), n, es), [=](int) {
                    u8* a = buf(n * es);
                    for (u32 i = 0; i < n; ++i) { memcpy(a + i * es, el(20 + i, es).data(), es); a[i * es] = (u8)((i * 3 + 1) % 4); }
                    v_sort(w, a, (int32_t)n, (int32_t)es, es == 4 ? lt : gt);
                    Str keys;  // equal elements may come in any order where no order is promised, but always in the same
                    return keys + Str((char*)a, n * es);
                });
    for (u32 cap : {1u, 2u, 3u})
        for (u32 es : {1u, 3u, 8u}) {
            add(fmt("queue %u x %u", cap, es), [=](int p) {
                u8* q = buf(v_queue_sizeof(), p);
                u8* st = buf(cap * es, p);
                Str r = fmt("%d", v_queue_init(q, cap, es, st));
                u8* o = buf(es, 0);
                for (int i = 0; i < 12; ++i) {
                    if (i % 5 == 4 || i == 7) { bool k = v_queue_dequeue(q, o); r += fmt("d%d", k); if (k) r += Str((char*)o, es); }
                    else if (i == 6) { bool k = v_queue_front(q, o); r += fmt("f%d", k); if (k) r += Str((char*)o, es); k = v_queue_rear(q, o); r += fmt("r%d", k); if (k) r += Str((char*)o, es); }
                    else r += fmt("e%d", v_queue_enqueue(q, in(el((u64)i, es))));
                    r += fmt("%d%d", v_queue_full(q), v_queue_empty(q));
                }
                return r;
            });
            add(fmt("priority queue %u x %u", cap, es), [=](int p) {
                u8* q = buf(v_pq_sizeof(), p);
                u8* st = buf(cap * es, p);
                u32* pr = (u32*)buf(4 * cap, p);
                Str r = fmt("%d", v_pq_init(q, cap, es, pr, st, false));
                u8* o = buf(es, 0);
                static const u32 PR[] = {4, 4, 7, 0, 0, 9, 1, 4, 4, 0xFFFFFFFF, 2, 2};
                for (int i = 0; i < 12; ++i) {
                    if (i == 3 || i == 8 || i > 9) { bool k = v_pq_dequeue(q, o); r += fmt("d%d", k); if (k) r += Str((char*)o, es); }
                    else r += fmt("e%d", v_pq_enqueue(q, (u32*)inbuf(&PR[i], 4), in(el((u64)i, es))));
                    r += fmt("%d", v_pq_empty(q));
                }
                return r;
            });
            add(fmt("map %u x %u", cap, es), [=](int p) {
                u8* m = buf(v_map_sizeof(), p);
                u8* k = buf(cap * es, p);
                u8* v = buf(cap * 2, p);
                Str r = fmt("%d", v_map_init(m, k, v, (int32_t)es, 2, (int32_t)cap));
                u8* o = buf(2, 0);
                for (int i = 0; i < 12; ++i) {
                    Str key = i == 2 ? Str(es, (char)p == 1 ? 'z' : 'z') : el((u64)(i * i % 5), es);
                    if (i % 3 == 2) { bool g = v_map_get(m, in(key), o); r += fmt("g%d", g); if (g) r += Str((char*)o, 2); }
                    else r += fmt("i%d", v_map_insert(m, in(key), in(el((u64)i + 60, 2))));
                }
                // keys that look like unused storage
                for (int x : {0, 0xFF, 0xA5, 1, 0x20, 0x22}) r += fmt("u%d", v_map_get(m, in(Str(es, (char)x)), o));
                return r;
            });
        }
    for (u32 n : {0u, 1u, 3u})
        add(fmt("task table of %u", n), [=](int p) {
            u8* t = buf(v_task_sizeof() * n, p);
            v_sched_init(t, n);
            Str r;
            v_fn f[] = {ta, tb};
            for (int i = 0; i < 4; ++i) { r += fmt("%d", v_sched_add(t, n, f[i % 2], i != 1)); ran.clear(); v_sched_run(t, n); r += ran + ","; }
            return r;
        });
}
static __attribute__((noinline)) void paint(int v, size_t n) {
    volatile u8* p = (volatile u8*)__builtin_alloca(n);
    for (size_t i = 0; i < n; ++i) p[i] = (u8)v;
}
static Str run(size_t i, int fill, int stack) {
    size_t m = arena_mark();
    if (stack >= 0) paint(stack, 6000);
    Str r;
    try { r = C[i].f(fill); } catch (Abort&) { r = "(abort)"; }
    called();
    arena_release(m);
    return r;
}
static Str rw_fresh;
static std::vector<Str> base() {
    alphabet();
    if (rw_fresh.empty()) rw_fresh = lib_rw_save();
    std::vector<Str> b;
    for (size_t i = 0; i < C.size(); ++i) { lib_rw_load(rw_fresh); b.push_back(run(i, 0xA5, 0xA5)); }
    lib_rw_load(rw_fresh);
    return b;
}
static void differ(size_t i, const Str& got, const Str& want, const Str& why) {
    if (got == want) return;
    size_t k = 0;
    while (k < got.size() && k < want.size() && got[k] == want[k]) ++k;
    FAIL("%s: %s %s, on its own %s (first difference at %zu)", C[i].name.c_str(), why.c_str(), hexs(got).c_str(), hexs(want).c_str(), k);
}
UNIT(hist_pairs) {
    std::vector<Str> b = base();
    G.notes.push_back(fmt("alphabet of %zu calls and short histories", C.size()));
    for (size_t i = 0; i < C.size(); ++i)
        RUN_CASE({
            for (size_t j = 0; j < C.size(); ++j) {
                lib_rw_load(rw_fresh);
                run(i, 0x33, -1);
                differ(j, run(j, 0xA5, -1), b[j], "after " + C[i].name + " it gave");
                differ(j, run(j, 0xA5, -1), b[j], "the second time in a row it gave");
                tick();
            }
            lib_rw_load(rw_fresh);
        });
    if (G.thorough)
        for (size_t i = 0; i < C.size(); ++i)
            RUN_CASE({
                for (size_t k = 0; k < C.size(); ++k) {
                    lib_rw_load(rw_fresh);
                    for (size_t j = 0; j < C.size(); ++j) {
                        // a history i, k, j from the state that the previous j left: longer and longer histories
                        run(i, 0x33, -1);
                        run(k, 0x44, -1);
                        differ(j, run(j, 0xA5, -1), b[j], "after ..., " + C[i].name + ", " + C[k].name + " it gave");
                    }
                    tick();
                }
                lib_rw_load(rw_fresh);
            });
}
UNIT(hist_paint) {
    std::vector<Str> b = base();
    static const int P[] = {0x00, 0xFF, 0xA5, 0x01, 0x20, 0x22, 0x7D, 0x80, 0x30, 0x7B, 0x5A};
    for (size_t i = 0; i < C.size(); ++i)
        RUN_CASE({
            for (int f : P)
                for (int s : P) {
                    lib_rw_load(rw_fresh);
                    differ(i, run(i, f, s), b[i], fmt("with output and storage holding %02x and the stack %02x it gave", f, s));
                    tick();
                }
        });
}
// Everything reachable in the library's own writable data, from where every call is tried.
UNIT(hist_hidden) {
    std::vector<Str> b = base();
    RUN_CASE({
        std::map<Str, Str> seen;  // state -> how it was reached
        std::vector<Str> todo(1, rw_fresh);
        seen[rw_fresh] = "";
        size_t limit = G.thorough ? 3000 : 300;
        for (size_t n = 0; n < todo.size(); ++n) {
            Str st = todo[n];
            for (size_t i = 0; i < C.size(); ++i) {
                lib_rw_load(st);
                differ(i, run(i, 0xA5, -1), b[i], "after" + seen[st] + " it gave");
                Str a = lib_rw_save();
                if (a != st && seen.size() < limit && !seen.count(a)) { seen[a] = seen[st] + " [" + C[i].name + "]"; todo.push_back(a); }
                tick();
            }
        }
        lib_rw_load(rw_fresh);
        G.states += seen.size();
        size_t bytes = 0;
        for (auto& r : lib_rw()) bytes += r.n;
        G.notes.push_back(fmt("library keeps %zu bytes of writable data; %zu states reachable%s", bytes, seen.size(), seen.size() >= limit ? " (bounded)" : ""));
    });
}

// Neighbouring calls: after a call with arguments x, a call with arguments y that differ from x in a
// single byte of a single argument (and lie at the same addresses), or are the same at other
// addresses, has to give what it gives on its own. This is where a result kept from an earlier call
// would be taken for the wrong arguments.
namespace {
typedef std::vector<Str> Args;
struct Near { Str name; Args base; std::function<Str(const Args&, size_t)> f; };  // second argument: misalignment
}
static std::vector<Near> N;
static u32 le32(const Str& s) { u32 v = 0; for (size_t i = 0; i < 4 && i < s.size(); ++i) v |= (u32)(u8)s[i] << (8 * i); return v; }
static Str w32(u32 v) { Str s(4, '\0'); for (int i = 0; i < 4; ++i) s[(size_t)i] = (char)(v >> (8 * i)); return s; }
static Str noz(Str s) { for (auto& c : s) if (!c) c = '?'; return s; }
static u8* in(const Str& s, size_t mis) { return inbuf(s.data(), s.size(), mis); }
static char* zbuf(const Str& s, size_t mis) { char* p = (char*)buf(s.size() + 1, 0, mis); memcpy(p, s.c_str(), s.size() + 1); return p; }

static void near_alphabet() {
    if (!N.empty()) return;
    for (size_t n : {1u, 16u, 63u, 64u, 100u, 128u})
        N.push_back({fmt("ChaCha20 of %zu bytes", n), {el(1, n), el(2, 32), el(3, 12), w32(n == 100 ? 0xFFFFFFFF : (u32)n)}, [](const Args& a, size_t m) {
            u8* o = buf(a[0].size(), 0xA5, m);
            v_chacha(in(a[0], m), (u32)a[0].size(), in(a[1], m), in(a[2], m), le32(a[3]), o);
            return Str((char*)o, a[0].size());
        }});
    N.push_back({"ChaCha20 in place", {el(1, 70), el(2, 32), el(3, 12), w32(5)}, [](const Args& a, size_t m) {
        u8* o = buf(a[0].size(), 0xA5, m);
        memcpy(o, a[0].data(), a[0].size());
        v_chacha(o, (u32)a[0].size(), in(a[1], m), in(a[2], m), le32(a[3]), o);
        return Str((char*)o, a[0].size());
    }});
    for (size_t n : {1u, 2u, 3u, 17u})
        N.push_back({fmt("Base64 encode %zu bytes", n), {el(4, n)}, [](const Args& a, size_t m) {
            size_t cap = (a[0].size() + 2) / 3 * 4 + 1;
            char* o = (char*)buf(cap, 0xA5, m);
            int r = v_b64_encode((const char*)in(a[0], m), a[0].size(), o, cap);
            return fmt("%d", r == 0) + Str(o, cap);
        }});
    for (size_t n : {1u, 2u, 3u, 17u})
        N.push_back({fmt("Base64 decode %zu bytes", n), {el(5, n)}, [](const Args& a, size_t m) {
            Str t = ref_b64(a[0], false, true);
            u8* o = buf(a[0].size(), 0xA5, m);
            int r = v_b64_decode((const char*)in(t, m), t.size(), o, a[0].size());
            return fmt("%d", r == 0) + Str((char*)o, a[0].size());
        }});
    for (int i = 0; i < v_crc_count; ++i)
        for (int k = 0; k < 4; ++k)
            N.push_back({fmt("%s%s%s", v_crcs[i].name, k & 1 ? " final" : "", k & 2 ? " resumed" : ""), {el(6, 9), w32(0x12345678)}, [=](const Args& a, size_t m) {
                u32 last = le32(a[1]);
                if (v_crcs[i].width < 32) last &= (1u << v_crcs[i].width) - 1;
                return fmt("%x", v_crcs[i].call(in(a[0], m), (u32)a[0].size(), k & 1, k & 2 ? &last : nullptr));
            }});
    for (int w : {8, 16, 32})
        for (int k = 0; k < 8; ++k)
            N.push_back({fmt("%d-bit engine, options %d", w, k), {el(7, 256 * (size_t)w / 8), el(8, 3), w32(0x5A5A5A5A), w32(0x77665544)}, [=](const Args& a, size_t m) {
                // results for all first bytes, so that every table entry matters
                Str r;
                u8* t = (u8*)inbuf(a[0].data(), a[0].size(), m & ~3u);
                u32 mask = w == 32 ? ~0u : (1u << w) - 1;
                for (int b = 0; b < 256; b += a[0].size() > 300 ? 5 : 1) {
                    size_t mk = arena_mark();
                    Str d = a[1];
                    d[0] = (char)(d[0] ^ b);
                    r += fmt("%x ", v_crc_engine(w, t, in(d, m), (u32)d.size(), le32(a[2]) & mask, le32(a[3]) & mask, k & 1, k & 2, k & 4));
                    arena_release(mk);
                }
                return r;
            }});
    for (int w : {8, 16, 32})
        N.push_back({fmt("%d-bit table", w), {w32(0x04C11DB7)}, [=](const Args& a, size_t m) {
            u8* t = buf(256 * (size_t)w / 8, 0xA5, m & ~3u);
            v_crc_table(w, w == 32 ? le32(a[0]) : le32(a[0]) & ((1u << w) - 1), t);
            return Str((char*)t, 256 * (size_t)w / 8);
        }});
    for (int d = 0; d < 2; ++d) {
        N.push_back({fmt("Caesar %d", d), {"Hello, World Zz", Str(1, '\x07')}, [=](const Args& a, size_t m) {
            char* s = zbuf(noz(a[0]), m);
            if (d) v_caesar_decrypt(s, (u8)a[1][0]); else v_caesar_encrypt(s, (u8)a[1][0]);
            return Str(s);
        }});
        N.push_back({fmt("Vernam %d", d), {"Hello, World Zz", "KeyForOneMsgAbc"}, [=](const Args& a, size_t m) {
            char* s = zbuf(noz(a[0]), m);
            bool r = d ? v_vernam_decrypt(s, (char*)in(a[1], m), (int32_t)a[1].size()) : v_vernam_encrypt(s, (char*)in(a[1], m), (int32_t)a[1].size());
            return fmt("%d", r) + s;
        }});
    }
    N.push_back({"JSON lookup", {"{\"ab\":\"a\", \"b\" : \"vv\",\"abc\":\"b\"}", "b"}, [](const Args& a, size_t m) {
        char* v = (char*)buf(8, 0xA5, m);
        bool r = v_json_find((char*)in(noz(a[0]) + Str(1, '\0'), m), a[0].size(), zbuf(noz(a[1]), m), v, 8);
        return fmt("%d", r) + (r ? Str(v, strnlen(v, 8)) : Str());
    }});
    N.push_back({"JSON building", {"name", "value", "n", "2", w32(33)}, [](const Args& a, size_t m) {
        size_t n = (u8)a[4][0];
        char* b = (char*)buf(n, 0xA5, m);
        Str r;
        if (!v_json_start(b, n)) return Str("0");
        r += fmt("%d", v_json_add(b, n, zbuf(noz(a[0]), m), zbuf(noz(a[1]), m)));
        r += fmt("%d", v_json_add(b, n, zbuf(noz(a[2]), m), zbuf(noz(a[3]), m)));
        r += fmt("%d", v_json_end(b, n));
        return r + Str(b, strnlen(b, n));
    }});
    for (const char* t : {"7", "123456789", "4294967295", "0000000000", "2999999999"})
        N.push_back({fmt("convert %s", t), {t}, [](const Args& a, size_t m) { u32 v = 0; bool r = v_str2u32((char*)in(a[0], m), (u8)a[0].size(), &v); return fmt("%d %u", r, r ? v : 0); }});
    N.push_back({"power of ten", {Str(1, '\x04')}, [](const Args& a, size_t) { u32 v = 5; bool r = v_pow10((u8)a[0][0], &v); return fmt("%d %u", r, v); }});
    for (int w : {8, 16, 24, 32})
        for (int le = 0; le < 2; ++le)
            N.push_back({fmt("serialise %d %d", w, le), {el(9, 4)}, [=](const Args& a, size_t m) { u8* b = buf((size_t)w / 8, 0xA5, m); v_ser(w, le, b, le32(a[0])); return Str((char*)b, (size_t)w / 8) + fmt(" %x", v_deser(w, le, in(a[0], m))); }});
    for (int le = 0; le < 2; ++le)
        N.push_back({fmt("blob %d", le), {el(10, 21)}, [=](const Args& a, size_t m) { u8* b = buf(21, 0xA5, m); v_ser_blob(le, b, in(a[0], m), 21); u8* c = buf(21, 0xA5, m); v_deser_blob(le, in(a[0], m), c, 21); return Str((char*)b, 21) + Str((char*)c, 21); }});
    N.push_back({"exchange", {el(11, 9), el(12, 9)}, [](const Args& a, size_t m) { u8* x = buf(9, 0, m); u8* y = buf(9, 0, m); memcpy(x, a[0].data(), 9); memcpy(y, a[1].data(), 9); v_swap(x, y, 9); return Str((char*)x, 9) + Str((char*)y, 9); }});
    N.push_back({"bits", {w32(0x80F00F01), Str(1, '\x05')}, [](const Args& a, size_t) {
        u32 d = le32(a[0]), o = 1;
        u8 n = (u8)a[1][0];
        bool t = false;
        Str r = fmt("%d", v_bit_test(d, n, &t)) + fmt("%d", t);
        r += fmt(" %d", v_bit_set(d, n, &o)) + fmt("%x", o);
        r += fmt(" %d", v_bit_clear(d, n, &o)) + fmt("%x", o);
        r += fmt(" %d", v_bit_toggle(d, n, &o)) + fmt("%x", o);
        if (n <= 32) r += fmt(" %x %x", v_rotl(d, n), v_reflect(d, n));
        return r;
    }});
    for (int w = 0; w < SORT_COUNT; ++w)
        for (u32 es : {1u, 3u})
            N.push_back({fmt("%s sort of %u byte elements", v_sort_name(w), es), {el(13, 6 * es)}, [=](const Args& a, size_t m) {
                u8* b = buf(6 * es, 0, m);
                memcpy(b, a[0].data(), 6 * es);
                v_sort(w, b, 6, (int32_t)es, gt);
                return Str((char*)b, 6 * es);
            }});
    // whole histories of an object, one step of which changes
    for (u32 es : {1u, 3u}) {
        N.push_back({fmt("queue history, %u byte elements", es), {"\x01\x05\x09\x02\x0D\x11\x15\x02\x02\x03\x02"}, [=](const Args& a, size_t m) {
            u8* q = buf(v_queue_sizeof(), 0xA5);
            u8* st = buf(3 * es, 0xA5, m);
            u8* o = buf(es, 0, m);
            Str r = fmt("%d", v_queue_init(q, 3, es, st));
            for (char c : a[0]) {
                bool k = (c & 3) == 1 ? v_queue_enqueue(q, in(el((u8)c >> 2, es), m)) : (c & 3) == 2 ? v_queue_dequeue(q, o) : (c & 3) == 3 ? v_queue_front(q, o) : v_queue_rear(q, o);
                r += fmt("%d%d%d", k, v_queue_full(q), v_queue_empty(q)) + Str((char*)o, es);
            }
            return r;
        }});
        N.push_back({fmt("priority queue history, %u byte elements", es), {"\x05\x0D\x05\x02\x09\x11\x0D\x02\x02\x02"}, [=](const Args& a, size_t m) {
            u8* q = buf(v_pq_sizeof(), 0xA5);
            u8* st = buf(3 * es, 0xA5, m);
            u32* pr = (u32*)buf(12, 0xA5);
            u8* o = buf(es, 0, m);
            Str r = fmt("%d", v_pq_init(q, 3, es, pr, st, false));
            int i = 0;
            for (char c : a[0]) {
                u32 p = ((u8)c >> 2) * 0x20000001u;
                bool k = (c & 3) == 1 ? v_pq_enqueue(q, (u32*)inbuf(&p, 4), in(el((u64)++i, es), m)) : v_pq_dequeue(q, o);
                r += fmt("%d%d", k, v_pq_empty(q)) + Str((char*)o, es);
            }
            return r;
        }});
        N.push_back({fmt("map history, %u byte keys", es), {"\x01\x11\x03\x21\x31\x03\x01\x13\x23\x33"}, [=](const Args& a, size_t m) {
            u8* mp = buf(v_map_sizeof(), 0xA5);
            u8* ks = buf(3 * es, 0xA5, m);
            u8* vs = buf(6, 0xA5, m);
            u8* o = buf(2, 0, m);
            Str r = fmt("%d", v_map_init(mp, ks, vs, (int32_t)es, 2, 3));
            int i = 0;
            for (char c : a[0]) {
                Str key = el((u8)c >> 4, es);
                bool k = (c & 3) == 1 ? v_map_insert(mp, in(key, m), in(el((u64)++i, 2), m)) : v_map_get(mp, in(key, m), o);
                r += fmt("%d", k) + Str((char*)o, 2);
            }
            return r;
        }});
    }
    N.push_back({"task table history", {"\x01\x02\x05\x03\x09\x02\x0B\x03"}, [](const Args& a, size_t) {
        u8* t = buf(v_task_sizeof() * 3);
        v_sched_init(t, 3);
        Str r;
        for (char c : a[0]) {
            u32 s = ((u8)c >> 2) % 3;
            if ((c & 3) == 1) r += fmt("%d", v_sched_add(t, 3, c & 4 ? ta : tb, !(c & 8)));
            else if ((c & 3) == 2) { ran.clear(); v_sched_run(t, 3); r += ran + ","; }
            else if (v_task_fn(t, s)) v_task_set(t, s, v_task_fn(t, s), !v_task_active(t, s));
        }
        ran.clear(); v_sched_run(t, 3);
        return r + ran;
    }});
}
static Str near_run(const Near& n, const Args& a, size_t mis) {
    size_t m = arena_mark();
    Str r;
    try { r = n.f(a, mis); } catch (Abort&) { r = "(abort)"; }
    called();
    arena_release(m);
    return r;
}
UNIT(hist_near) {
    near_alphabet();
    if (rw_fresh.empty()) rw_fresh = lib_rw_save();
    u64 pairs = 0;
    for (const Near& n : N)
        RUN_CASE({
            lib_rw_load(rw_fresh);
            Str x = near_run(n, n.base, 0);
            for (size_t mis : {0u, 4u})
                for (size_t g = 0; g < n.base.size(); ++g)
                    for (size_t i = 0; i < n.base[g].size(); ++i)
                        for (int flip : {0x00, 0x01, 0x04, 0x10, 0x20, 0x80}) {
                            if (flip == 0 && (g || i)) continue;
                            Args y = n.base;
                            y[g][i] = (char)(y[g][i] ^ flip);
                            at("argument %llu, byte %llu changed by %02llx, misaligned by %llu", g, i, (u64)flip, mis);
                            lib_rw_load(rw_fresh);
                            Str cold = near_run(n, y, mis);
                            lib_rw_load(rw_fresh);
                            near_run(n, n.base, 0);
                            Str warm = near_run(n, y, mis);
                            Str back = near_run(n, n.base, 0);
                            obs(cold.data(), cold.size());
                            CHECK(warm == cold, "%s: after a call with neighbouring arguments it gives %s, on its own %s", n.name.c_str(), hexs(warm).c_str(), hexs(cold).c_str());
                            CHECK(back == x, "%s: repeated after a call with neighbouring arguments it gives %s, at first %s", n.name.c_str(), hexs(back).c_str(), hexs(x).c_str());
                            ++pairs;
                            tick();
                        }
            lib_rw_load(rw_fresh);
        });
    G.notes.push_back(fmt("%zu calls and histories, %llu pairs with a neighbour", N.size(), (unsigned long long)pairs));
}

// The same call over and over without any reset: what it gives never changes.
UNIT(hist_repeat) {
    std::vector<Str> b = base();
    const int n = bylevel(300, 20000, 140000);
    for (size_t i = 0; i < C.size(); ++i)
        RUN_CASE({
            lib_rw_load(rw_fresh);
            for (int k = 1; k <= n; ++k) {
                at("call number %llu", (u64)k);
                differ(i, run(i, 0xA5, -1), b[i], fmt("repeated it gave"));
                if ((k & 63) == 0) tick();
            }
            lib_rw_load(rw_fresh);
        });
}
