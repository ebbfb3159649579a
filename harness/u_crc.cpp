// Checksums: catalogue variants, generic engines, table generators, chunking, error detection.
#include "mc.hpp"

static u32 mask_of(int w) { return w == 32 ? ~0u : (1u << w) - 1; }
static u32 refl(u32 v, int n) {
    u32 r = 0;
    for (int i = 0; i < n; ++i) if (v >> i & 1) r |= 1u << (n - 1 - i);
    return r;
}
static u8 REFL8[256];
static struct Init { Init() { for (u32 i = 0; i < 256; ++i) REFL8[i] = (u8)refl(i, 8); } } init_;

// One byte into the bit-serial register (most significant bit first).
static inline u32 step_bits(int w, u32 poly, u32 reg, u8 b) {
    reg ^= (u32)b << (w - 8);
    for (int i = 0; i < 8; ++i) {
        bool top = reg >> (w - 1) & 1;
        reg <<= 1;
        if (top) reg ^= poly;
    }
    return reg & mask_of(w);
}
struct Ref {  // the same with a table computed by step_bits
    int w; u32 poly; u32 t[256];
    Ref(int w_, u32 p) : w(w_), poly(p) { for (u32 i = 0; i < 256; ++i) t[i] = step_bits(w, p, 0, (u8)i); }
    u32 step(u32 reg, u8 b) const {
        u32 idx = ((reg >> (w - 8)) ^ b) & 255;
        return ((w == 8 ? 0 : reg << 8) ^ t[idx]) & mask_of(w);
    }
    u32 run(const u8* d, size_t n, u32 reg, bool ri) const {
        for (size_t i = 0; i < n; ++i) reg = step(reg, ri ? REFL8[d[i]] : d[i]);
        return reg;
    }
};
static u32 catalogue(const v_crc_t& c, const Ref& r, const u8* d, size_t n) {
    u32 v = r.run(d, n, c.init, c.refl);
    if (c.refl) v = refl(v, c.width);
    return (v ^ c.xorout) & mask_of(c.width);
}
static const Ref& ref_of(int i) {
    static std::vector<Ref*> v((size_t)v_crc_count, nullptr);
    if (!v[(size_t)i]) v[(size_t)i] = new Ref(v_crcs[i].width, v_crcs[i].poly);
    return *v[(size_t)i];
}
static u32 oneshot(const v_crc_t& c, const u8* d, size_t n) { called(); return obsv(c.call(d, (u32)n, true, nullptr)); }

static void one(int vi, const u8* d, size_t n) {
    const v_crc_t& c = v_crcs[vi];
    u32 got = oneshot(c, d, n), want = catalogue(c, ref_of(vi), d, n);
    SAMPLE("%s of %zu bytes %s is %x", c.name, n, hex(d, n).c_str(), got);
    CHECK(got == want, "%s of %zu bytes %s is %x, not %x", c.name, n, hex(d, n).c_str(), got, want);
}
static void content(u8* p, size_t n, int kind) {
    for (size_t i = 0; i < n; ++i)
        p[i] = kind == 0 ? pat(i, n) : kind == 1 ? 0 : kind == 2 ? 0xFF : kind == 3 ? (u8)i : kind == 4 && i >= n / 4 && i < n - n / 4 ? 0 : pat(i, 1000 + (u64)kind);
}

UNIT(crc_oneshot) {
    for (int v = 0; v < v_crc_count; ++v) {
        const v_crc_t& c = v_crcs[v];
        RUN_CASE({  // catalogue check value, binding both the reference and the library to it
            const u8* d = inbuf("123456789", 9);
            u32 w = catalogue(c, ref_of(v), d, 9);
            if (w != c.check) { fprintf(stderr, "reference for %s is wrong\n", c.name); _Exit(99); }
            one(v, d, 9);
        });
        RUN_CASE({  // every length, several contents, every alignment
            for (size_t n = 0; n <= (G.thorough ? 1100u : 300u); ++n)
                for (int k = 0; k < (n <= 64 ? 7 : 5); ++k) {
                    size_t m = arena_mark();
                    u8* p = buf(n, 0, (size_t)k + n % 3);
                    content(p, n, k);
                    at("length %llu content %llu", n, (u64)k);
                    one(v, inbuf(p, n, n % 8), n);
                    arena_release(m);
                }
        });
        RUN_CASE({  // all one and two byte messages
            u8* p = buf(1);
            for (u32 x = 0; x < 256; ++x) { p[0] = (u8)x; one(v, p, 1); }
            u8* q = buf(2);
            for (u32 x = 0; x < 65536; ++x) { q[0] = (u8)(x >> 8); q[1] = (u8)x; one(v, q, 2); if ((x & 4095) == 0) tick(); }
        });
        RUN_CASE({  // all messages of a few special bytes: repetitions, runs and alternations of every kind
            static const u8 A[] = {0x00, 0xFF, 0x31, 0x80};
            for (size_t n = 1; n <= (G.thorough ? 9u : 7u); ++n) {
                u32 base = n <= 7 ? 4 : 3, total = 1;
                for (size_t i = 0; i < n; ++i) total *= base;
                u8* p = buf(n);
                for (u32 x = 0; x < total; ++x) { for (u32 i = 0, y = x; i < n; ++i, y /= base) p[i] = A[y % base]; one(v, p, n); if ((x & 1023) == 0) tick(); }
            }
        });
        RUN_CASE({  // every byte value at every place of a 40 byte message
            u8* p = buf(40);
            for (int bg = 0; bg < 3; ++bg)
                for (size_t i = 0; i < 40; ++i) {
                    content(p, 40, bg);
                    for (u32 x = 0; x < 256; ++x) { p[i] = (u8)x; one(v, p, 40); }
                    tick();
                }
        });
        for (size_t n : {511u, 512u, 513u, 1023u, 1024u, 1025u, 4095u, 4096u, 4097u, 32767u, 32768u, 32769u, 65535u, 65536u, 65537u, 131072u, 262147u})
            RUN_CASE({ u8* p = buf(n); content(p, n, 0); at("length %llu", n); one(v, p, n); });
        if (G.thorough) {
            for (size_t n : {1u << 20, (1u << 24) - 1, 1u << 24, (1u << 24) + 1})
                RUN_CASE({ u8* p = buf(n); content(p, n, 0); at("length %llu", n); one(v, p, n); });
            // all three byte messages: every register of the 8 and 16-bit variants meets every byte
            for (u32 a = 0; a < 256; ++a)
                RUN_CASE({
                    u8* q = buf(3);
                    q[0] = (u8)a;
                    for (u32 x = 0; x < 65536; ++x) { q[1] = (u8)(x >> 8); q[2] = (u8)x; one(v, q, 3); if ((x & 4095) == 0) tick(); }
                });
        }
    }
}

// ---- chunking: compared with the one-shot result of the library itself
static u32 pieces(const v_crc_t& c, const u8* d, const std::vector<size_t>& cut) {
    u32 last = 0;
    size_t pos = 0;
    for (size_t i = 0; i < cut.size(); ++i) {
        bool fin = i + 1 == cut.size();
        last = c.call(d + pos, (u32)cut[i], c.has_final ? fin : true, i ? &last : nullptr);
        called();
        pos += cut[i];
    }
    return obsv(last);
}
static void chunk(const v_crc_t& c, const u8* d, size_t n, const std::vector<size_t>& cut) {
    u32 a = oneshot(c, d, n), b = pieces(c, d, cut);
    if (a != b || G.want) {
        Str s;
        for (size_t x : cut) s += fmt("%zu ", x);
        SAMPLE("%s of %zu bytes %s is %x at once and %x in pieces of %s", c.name, n, hex(d, n).c_str(), a, b, s.c_str());
        if (a != b)
            FAIL("%s of %zu bytes %s is %x at once but %x in pieces of %s", c.name, n, hex(d, n).c_str(), a, b, s.c_str());
    }
}
// A 4-byte message that leads the 32-bit register from init to the wanted value.
static bool reach32(const v_crc_t& c, const Ref& r, u32 want, u8 out[4]) {
    u8 z[4] = {0, 0, 0, 0};
    u32 base = r.run(z, 4, c.init, c.refl), col[32], comb[32];
    u32 target = want ^ base, sol = 0;
    for (int i = 0; i < 32; ++i) {
        u8 m[4] = {0, 0, 0, 0};
        m[i / 8] = (u8)(1 << (i % 8));
        col[i] = r.run(m, 4, c.init, c.refl) ^ base;
        comb[i] = 1u << i;
    }
    u32 used = 0;
    for (int bit = 31; bit >= 0; --bit) {
        int piv = -1;
        for (int i = 0; i < 32 && piv < 0; ++i) if (!(used >> i & 1) && (col[i] >> bit & 1)) piv = i;
        if (piv < 0) { if (target >> bit & 1) return false; continue; }
        used |= 1u << piv;
        for (int i = 0; i < 32; ++i) if (i != piv && !(used >> i & 1) && (col[i] >> bit & 1)) { col[i] ^= col[piv]; comb[i] ^= comb[piv]; }
        if (target >> bit & 1) { target ^= col[piv]; sol ^= comb[piv]; }
    }
    for (int i = 0; i < 4; ++i) out[i] = (u8)(sol >> (8 * i));
    return true;
}
UNIT(crc_chunk) {
    for (int v = 0; v < v_crc_count; ++v) {
        const v_crc_t& c = v_crcs[v];
        for (size_t n = 1; n <= (G.thorough ? 14u : 11u); ++n)  // every composition of n
            RUN_CASE({
                for (int k = 0; k < 4; ++k) {
                    u8* p = buf(n);
                    content(p, n, k);
                    for (u32 m = 0; m < 1u << (n - 1); ++m) {
                        std::vector<size_t> cut(1, 1);
                        for (size_t i = 1; i < n; ++i) if (m >> (i - 1) & 1) cut.push_back(1); else ++cut.back();
                        chunk(c, p, n, cut);
                        if (n <= 8)  // with empty pieces at every place
                            for (size_t e = 0; e <= cut.size(); ++e) {
                                std::vector<size_t> x = cut;
                                x.insert(x.begin() + (long)e, 0);
                                chunk(c, p, n, x);
                                x.insert(x.begin() + (long)e, 0);
                                chunk(c, p, n, x);
                                x.push_back(0);
                                chunk(c, p, n, x);
                            }
                    }
                    tick();
                }
            });
        RUN_CASE({ u8* p = buf(0); for (size_t k = 1; k < 5; ++k) chunk(c, p, 0, std::vector<size_t>(k, 0)); });
        RUN_CASE({  // all splits in two for every length, all splits in three for short ones
            for (size_t n = 1; n <= (G.thorough ? 600u : 200u); ++n) {
                size_t m = arena_mark();
                u8* p = buf(n);
                content(p, n, 0);
                for (size_t i = 0; i <= n; ++i) {
                    chunk(c, p, n, {i, n - i});
                    if (n <= 32) for (size_t j = i; j <= n; ++j) chunk(c, p, n, {i, j - i, n - j});
                }
                arena_release(m);
                tick();
            }
        });
        for (size_t n : {512u, 4096u, 65535u, 65536u, 65537u, 131073u})
            RUN_CASE({
                u8* p = buf(n);
                content(p, n, 0);
                for (size_t i : {(size_t)0, (size_t)1, (size_t)255, (size_t)256, n / 2, n - 256, n - 1, n}) chunk(c, p, n, {i, n - i});
                tick();
            });
        if (c.width == 8) RUN_CASE({  // every register value as the previous one, before every byte
            u8* p = buf(2);
            for (u32 x = 0; x < 65536; ++x) { p[0] = (u8)(x >> 8); p[1] = (u8)x; chunk(c, p, 2, {1, 1}); }
        });
        if (c.width == 16)
            for (u32 a = 0; a < 256; a += 16)
                RUN_CASE({
                    u8* p = buf(3);
                    for (u32 x = a << 8; x < (a + 16) << 8; ++x)
                        for (u32 b = 0; b < 256; b += G.thorough ? 1 : 51) {
                            p[0] = (u8)(x >> 8); p[1] = (u8)x; p[2] = (u8)b;
                            chunk(c, p, 3, {2, 1});
                        }
                    tick();
                });
        if (c.width == 32)
            RUN_CASE({
                u8* p = buf(6);
                for (u32 w : WORDS)
                    for (u32 b = 0; b < 256; ++b) {
                        if (!reach32(c, ref_of(v), w, p)) break;
                        p[4] = (u8)b; p[5] = (u8)(b * 5 + 1);
                        chunk(c, p, 6, {4, 2});
                        chunk(c, p, 4, {4, 0});
                        if (w == c.init) break;
                    }
            });
    }
}

// ---- generic engines and table generators
static u8* make_table(int w, u32 poly, u8* at_) {
    Ref r(w, poly);
    for (u32 i = 0; i < 256; ++i) {
        if (w == 8) at_[i] = (u8)r.t[i];
        else if (w == 16) ((u16*)at_)[i] = (u16)r.t[i];
        else ((u32*)at_)[i] = r.t[i];
    }
    return at_;
}
static void table_check(int w, u32 poly, u8* t) {
    memset(t, 0xA5, 256 * (size_t)w / 8);
    v_crc_table(w, poly, t);
    called();
    obs(t, 256 * (size_t)w / 8);
    // the rows of single bits by long division, the others because the table is linear
    u32 e[256];
    e[0] = 0;
    for (u32 i = 1; i < 256; ++i) {
        u32 low = i & (0u - i);
        e[i] = low == i ? step_bits(w, poly, 0, (u8)i) : e[low] ^ e[i ^ low];
        u32 got = w == 8 ? t[i] : w == 16 ? ((u16*)t)[i] : ((u32*)t)[i];
        if (got != e[i]) FAIL("%d-bit table of polynomial %x has %x at %u, not %x", w, poly, got, i, e[i]);
    }
    u32 z = w == 8 ? t[0] : w == 16 ? ((u16*)t)[0] : ((u32*)t)[0];
    CHECK(z == 0, "%d-bit table of polynomial %x starts with %x", w, poly, z);
}
UNIT(crc_tables) {
    RUN_CASE({ u8* t = buf(256); for (u32 p = 0; p < 256; ++p) table_check(8, p, t); });
    for (u32 hi = 0; hi < 256; ++hi)
        RUN_CASE({ u8* t = buf(512); for (u32 lo = 0; lo < 256; ++lo) { table_check(16, hi << 8 | lo, t); if (lo % 64 == 0) tick(); } });
    RUN_CASE({ u8* t = buf(1024); for (u32 p : WORDS) table_check(32, p, t); });
    RUN_CASE({
        u8* t = buf(1024);
        for (int i = 0; i < 32; ++i) for (int j = i; j < 32; ++j) for (int k = j; k < 32; ++k) table_check(32, 1u << i | 1u << j | 1u << k, t);
    });
    RUN_CASE({ u8* t = buf(1024); for (int i = 0; i < v_crc_count; ++i) if (v_crcs[i].width == 32) { table_check(32, v_crcs[i].poly, t); table_check(32, refl(v_crcs[i].poly, 32), t); } });
    if (G.thorough)
        for (u32 hi = 0; hi < 256; ++hi)
            RUN_CASE({
                u8* t = buf(1024);
                for (u32 lo = 0; lo < 256; ++lo) {
                    table_check(32, hi << 24 | lo << 16, t);
                    table_check(32, hi << 8 | lo, t);
                    table_check(32, hi << 24 | lo, t);
                    table_check(32, 0x04C11DB7u ^ (hi << 12 | lo << 4), t);
                    tick();
                }
            });
}
static void engine(int w, const Ref& r, const u8* tab, const u8* d, size_t n, u32 init, u32 xo, int flags) {
    bool ro = flags & 1, ri = flags & 2, fin = flags & 4;
    u32 got = v_crc_engine(w, tab, d, (u32)n, init, xo, ro, ri, fin);
    called();
    obsv(got);
    u32 want = r.run(d, n, init & mask_of(w), ri);
    if (ro) want = refl(want, w);
    if (fin) want = (want ^ xo) & mask_of(w);
    SAMPLE("%d-bit engine, polynomial %x, %zu bytes %s, initial %x, xor %x, output reflection %d, input reflection %d, final xor %d: %x", w, r.poly, n, hex(d, n).c_str(), init, xo, ro, ri, fin, got);
    CHECK(got == want, "%d-bit engine, polynomial %x, %zu bytes %s, initial %x, xor %x, output reflection %d, input reflection %d, final xor %d: %x, not %x",
          w, r.poly, n, hex(d, n).c_str(), init, xo, ro, ri, fin, got, want);
}
UNIT(crc_engines) {
    for (int w : {8, 16, 32}) {
        std::vector<u32> polys;
        for (u32 p : WORDS) { p &= mask_of(w); bool dup = false; for (u32 q : polys) dup |= q == p; if (!dup) polys.push_back(p); }
        for (int i = 0; i < v_crc_count; ++i) if (v_crcs[i].width == w) polys.push_back(v_crcs[i].poly);
        for (u32 poly : polys)
            RUN_CASE({  // structured initial and xor values, all options, short messages
                Ref r(w, poly);
                u8* tab = make_table(w, poly, buf(256 * (size_t)w / 8));
                std::vector<u32> in;
                for (u32 x : WORDS) if ((x & mask_of(w)) == x || w == 32) in.push_back(x);
                for (size_t n = 0; n <= 9; ++n) {
                    size_t m = arena_mark();
                    u8* p = buf(n, 0, n);
                    content(p, n, 0);
                    const u8* d = inbuf(p, n, n % 4);
                    for (size_t i = 0; i < in.size(); ++i)
                        for (int f = 0; f < 8; ++f) {
                            engine(w, r, tab, d, n, in[i], in[(i * 7 + n) % in.size()], f);
                            engine(w, r, tab, d, n, in[(i * 5 + 3) % in.size()], in[i], f);
                        }
                    arena_release(m);
                    tick();
                }
            });
        RUN_CASE({  // all lengths
            Ref r(w, w == 8 ? 0x07 : w == 16 ? 0x1021 : 0x04C11DB7);
            u8* tab = make_table(w, r.poly, buf(256 * (size_t)w / 8));
            for (size_t n = 0; n <= 300; ++n) {
                size_t m = arena_mark();
                u8* p = buf(n);
                content(p, n, 0);
                for (int f = 0; f < 8; ++f) engine(w, r, tab, p, n, 0x12345678u & mask_of(w), 0xA5C3F00Fu & mask_of(w), f);
                arena_release(m);
            }
            for (size_t n : {65535u, 65536u, 65537u, 131072u}) {
                u8* p = buf(n);
                content(p, n, 0);
                for (int f = 0; f < 8; ++f) engine(w, r, tab, p, n, 0x12345678u & mask_of(w), 0xA5C3F00Fu & mask_of(w), f);
                tick();
            }
        });
        // every register (8, 16 bit) meets bytes; every xor value
        u32 top = w == 8 ? 256 : 65536;
        for (u32 lo = 0; lo < top; lo += top / 16)
            RUN_CASE({
                Ref r(w, w == 8 ? 0x9B : w == 16 ? 0x8005 : 0x1EDC6F41);
                u8* tab = make_table(w, r.poly, buf(256 * (size_t)w / 8));
                u8* d = buf(1);
                for (u32 x = lo; x < lo + top / 16; ++x) {
                    for (u32 b = 0; b < 256; b += w == 8 ? 1 : G.thorough ? 5 : 85) {
                        d[0] = (u8)b;
                        for (int f = 0; f < 8; ++f) {
                            engine(w, r, tab, d, 1, x, x ^ 0x55, f);
                            if (w == 32) engine(w, r, tab, d, 1, x << 16, x << 16, f);
                        }
                    }
                    engine(w, r, tab, d, 0, x, 0, 0);
                    engine(w, r, tab, d, 0, x, 0, 1);
                    engine(w, r, tab, d, 1, 0x77, x, 4);
                    if ((x & 1023) == 0) tick();
                }
            });
    }
}

// ---- error detection, on the library's own results only
static void flip(const v_crc_t& c, u8* p, size_t n, size_t bit, u64 pattern) {
    // Bit positions are numbered in transmission order: most significant bit of each byte first, or least for reflected ones.
    for (size_t i = 0; pattern; ++i, pattern >>= 1) {
        if (!(pattern & 1)) continue;
        size_t b = bit + i;
        if (b / 8 >= n) return;
        p[b / 8] ^= (u8)(c.refl ? 1 << (b % 8) : 0x80 >> (b % 8));
    }
}
static bool inside(size_t n, size_t bit, u64 pattern) { return bit + (size_t)(64 - __builtin_clzll(pattern)) <= n * 8; }
UNIT(crc_errors) {
    for (int v = 0; v < v_crc_count; ++v) {
        const v_crc_t& c = v_crcs[v];
        auto test = [&](u8* p, size_t n, u32 good, size_t bit, u64 pattern) {
            if (!inside(n, bit, pattern)) return;
            flip(c, p, n, bit, pattern);
            u32 bad = c.call(p, (u32)n, true, nullptr);
            called();
            SAMPLE("%s: error pattern %llx at bit %zu of %zu bytes changes %x to %x", c.name, (unsigned long long)pattern, bit, n, good, bad);
            if (bad == good) FAIL("%s gives %x for the %zu byte message %s with and without the error pattern %llx at bit %zu", c.name, good, n,
                                  hex(p, n).c_str(), (unsigned long long)pattern, bit);
            flip(c, p, n, bit, pattern);
        };
        for (size_t n : {1u, 2u, 3u, 5u, 8u, 16u, 33u, 64u, 255u, 256u, 257u, 300u})
            RUN_CASE({  // single bits and all bursts of up to 6 bits at every place
                u8* p = buf(n);
                for (int k = 0; k < 3; ++k) {
                    content(p, n, k);
                    u32 good = oneshot(c, p, n);
                    for (size_t b = 0; b < n * 8; ++b) {
                        for (u64 pt = 1; pt < (n > 64 ? 16u : 64u); pt += 2) test(p, n, good, b, pt);
                        if (b % 64 == 0) tick();
                    }
                }
            });
        RUN_CASE({  // all pairs of one byte messages
            u8* p = buf(1);
            for (u32 x = 0; x < 256; ++x) {
                p[0] = (u8)x;
                u32 good = oneshot(c, p, 1);
                for (u32 y = x + 1; y < 256; ++y) { p[0] = (u8)y; u32 bad = oneshot(c, p, 1); CHECK(bad != good, "%s gives %x for the one byte messages %02x and %02x", c.name, good, x, y); }
            }
        });
        for (u32 lo = 0; lo < 256; lo += 64)
            RUN_CASE({  // every value of the first byte under every burst that begins in it
                u8* p = buf(3);
                for (u32 x = lo; x < lo + 64; ++x) {
                    p[0] = (u8)x; p[1] = (u8)(x * 3 + 1); p[2] = 0;
                    u32 good = oneshot(c, p, 3);
                    for (size_t b = 0; b < 8; ++b)
                        for (u64 pt = 1; pt < (c.width == 8 ? 256u : b == 0 || G.deep ? 65536u : 1024u); pt += 2) test(p, 3, good, b, pt);
                    tick();
                }
            });
        for (size_t n : {65537u, 131072u})  // single bits of long messages
            RUN_CASE({
                u8* p = buf(n);
                content(p, n, 0);
                u32 good = oneshot(c, p, n);
                for (size_t b : {(size_t)0, (size_t)7, (size_t)8, n * 4, n * 4 + 3, (size_t)8 * 255, (size_t)8 * 256, (size_t)8 * 65535, (size_t)8 * 65536, n * 8 - 8, n * 8 - 1}) { test(p, n, good, b, 1); tick(); }
            });
        for (size_t n : {1u, 2u, 4u, 6u, 8u})
            for (int part = 0; part < 4; ++part)
                RUN_CASE({  // long bursts: all of them for 8 and 16-bit checksums
                    u8* p = buf(n);
                    content(p, n, part);
                    u32 good = oneshot(c, p, n);
                    int len = c.width < 16 ? c.width : 16;
                    for (u64 pt = 1 + 2 * (u64)part; pt < (1ull << len); pt += 8) {
                        for (size_t b = 0; b < n * 8; ++b) test(p, n, good, b, pt);
                        if ((pt & 255) <= 7) tick();
                    }
                    if (c.width == 32)
                        for (u32 w : WORDS) if (w) for (size_t b = 0; b < n * 8; ++b) { test(p, n, good, b, w); test(p, n, good, b, w | 1u | 0x80000000u); }
                });
    }
}
