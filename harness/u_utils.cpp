// Number conversion, serialisation, bit operations, exchange, letter classes.
#include "mc.hpp"

// ---- decimal
static void dec(const char* s, size_t n, bool want, u32 v) {
    u32 r = 0xA5A5A5A5;
    bool ok = v_str2u32(s, (u8)n, &r);
    called();
    obsv(ok);
    if (ok) obsv(r);
    CHECK(ok == want, "converting %s returned %d", quote(Str(s, n)).c_str(), ok);
    if (want) CHECK(r == v, "converting %s delivered %u", quote(Str(s, n)).c_str(), r);
}
static void dec_any(const Str& t) {  // by the definition
    bool ok = !t.empty() && t.size() <= 10;
    u64 v = 0;
    for (unsigned char c : t) { if (c < '0' || c > '9') ok = false; else if (ok) v = v * 10 + (c - '0'); }
    ok = ok && v <= 0xFFFFFFFFull;
    size_t m = arena_mark();
    dec(inraw(t), t.size(), ok, (u32)v);
    arena_release(m);
}
// All digit strings of length n with numbers lo..hi-1.
static void dec_range(size_t n, u64 lo, u64 hi) {
    char* p = cbuf(n);
    u64 x = lo;
    for (size_t i = n; i-- > 0;) { p[i] = (char)('0' + x % 10); x /= 10; }
    for (u64 v = lo; v < hi; ++v) {
        u32 r = 0xA5A5A5A5;
        bool ok = v_str2u32(p, (u8)n, &r);
        bool want = v <= 0xFFFFFFFFull;
        if (ok != want || (want && r != (u32)v)) FAIL("converting %s returned %d, %u", quote(Str(p, n)).c_str(), ok, r);
        SAMPLE("text %s: accepted %d, value %u", quote(Str(p, n)).c_str(), ok, r);
        obsv(ok); if (ok) obsv(r);
        for (size_t i = n; i-- > 0;) { if (p[i] != '9') { ++p[i]; break; } p[i] = '0'; }
        if ((v & 0xFFFFF) == 0) tick();
    }
    called(hi - lo);
}
UNIT(decimal) {
    u64 p10[11] = {1};
    for (int i = 1; i <= 10; ++i) p10[i] = p10[i - 1] * 10;
    for (size_t n = 1; n <= 10; ++n) {
        u64 lim = p10[n];
        u64 most = bylevel<u64>(2000000, 20000000, lim);
        u64 dense = lim < most ? lim : most;
        u64 step = dense < 40 ? dense : dense / 40 + 1;
        for (u64 lo = 0; lo < dense; lo += step) RUN_CASE({ dec_range(n, lo, lo + step < dense ? lo + step : dense); });
        if (!G.deep && n > 6) {
            for (u64 c : {lim - 200000, lim / 2, lim / 10, lim / 10 * 9, (u64)429496729, (u64)4294967295ull, (u64)2147483648ull, (u64)4294960000ull, (u64)5000000000ull, (u64)8589934592ull, (u64)4300000000ull})
                if (c < lim) RUN_CASE({ u64 a = c > 50000 ? c - 50000 : 0; dec_range(n, a, c + 50000 < lim ? c + 50000 : lim); });
        }
    }
    // ten digits: every combination of leading four and trailing two digits around the maximum's digits
    for (u32 a = 0; a < 10000; a += 100)
        RUN_CASE({
            for (u32 h = a; h < a + 100; ++h)
                for (u32 l = 0; l < 100; ++l)
                    for (const char* mid : {"0000", "9999", "9672", "6729"}) dec_any(fmt("%04u%s%02u", h, mid, l));
            tick();
        });
}
UNIT(decimal_text) {
    RUN_CASE({ dec_any(""); });
    for (u32 a = 0; a < 256; ++a)
        RUN_CASE({  // all texts of up to three bytes
            dec_any(Str(1, (char)a));
            u8* p = buf(2);
            p[0] = (u8)a;
            u8* q = buf(3);
            q[0] = (u8)a;
            auto dig = [](u32 c) { return c >= '0' && c <= '9'; };
            for (u32 b = 0; b < 256; ++b) {
                p[1] = (u8)b; q[1] = (u8)b;
                dec((char*)p, 2, dig(a) && dig(b), (a - '0') * 10 + b - '0');
                for (u32 c = 0; c < 256; ++c) { q[2] = (u8)c; dec((char*)q, 3, dig(a) && dig(b) && dig(c), (a - '0') * 100 + (b - '0') * 10 + c - '0'); }
            }
            tick();
        });
    for (size_t n = 1; n <= 12; ++n)
        RUN_CASE({  // one foreign byte, two foreign bytes
            for (size_t i = 0; i < n; ++i)
                for (u32 c = 0; c < 256; ++c)
                    for (char base : {'0', '1', '9'}) {
                        Str t(n, base);
                        t[i] = (char)c;
                        dec_any(t);
                        for (size_t j = 0; j < n; ++j) for (char x : {' ', '-', '/', ':', '\0'}) { Str u = t; u[j] = x; dec_any(u); }
                    }
            tick();
        });
    for (size_t n = 0; n <= 255; ++n)  // every length
        RUN_CASE({
            for (char c : {'0', '1', '4', '9', 'x', '\0'}) {
                dec_any(Str(n, c));
                for (const char* tail : {"7", "0", "42", "4294967295", "4294967296", "0000000001"}) {
                    Str t = tail;
                    if (n >= t.size()) { dec_any(Str(n - t.size(), c) + t); dec_any(t + Str(n - t.size(), c)); }
                }
            }
        });
    RUN_CASE({  // what stands behind the text does not matter
        for (const char* t : {"7", "42", "429496729", "4294967295", "0000000000"})
            for (u32 c = 0; c < 256; ++c) { Str x = t; size_t n = x.size(); x += (char)c; x += (char)c; size_t m = arena_mark(); dec(inraw(x), n, true, (u32)strtoul(t, nullptr, 10)); arena_release(m); }
    });
    RUN_CASE({
        u32 w = 1;
        for (u32 e = 0; e < 256; ++e) {
            u32* r = (u32*)buf(4);
            bool ok = v_pow10((u8)e, r);
            called(); obsv(ok); if (ok) obsv(*r);
            CHECK(ok == (e < 10), "ten to the power of %u returned %d", e, ok);
            if (e < 10) { CHECK(*r == w, "ten to the power of %u is %u", e, *r); w *= 10; }
        }
    });
}

// ---- serialisation
static void ser(int w, bool le, u32 v, u8* b) {
    size_t n = (size_t)w / 8;
    memset(b, 0xA5, n);
    v_ser(w, le, b, v);
    obs(b, n);
    for (size_t i = 0; i < n; ++i) {
        u8 want = (u8)(v >> (8 * (le ? i : n - 1 - i)));
        if (b[i] != want) FAIL("serialising %x as %d bit %s endian gives %s", v, w, le ? "little" : "big", hex(b, n).c_str());
    }
    u32 back = v_deser(w, le, b), m = w == 32 ? ~0u : (1u << w) - 1;
    obsv(back);
    SAMPLE("%x as %d bit %s endian: %s and back %x", v, w, le ? "little" : "big", hex(b, n).c_str(), back);
    if (back != (v & m)) FAIL("%x as %d bit %s endian came back as %x", v, w, le ? "little" : "big", back);
    called(2);
}
static void ser_all(u32 v, u8* b[4][4]) {
    for (int k = 0; k < 4; ++k) for (int le = 0; le < 2; ++le) ser(8 * (k + 1), le, v, b[k][0]);
}
UNIT(serial) {
    auto bufs = [](u8* b[4][4]) { for (size_t k = 0; k < 4; ++k) for (size_t a = 0; a < 4; ++a) b[k][a] = buf(k + 1, 0xA5, a); };
    RUN_CASE({ u8* b[4][4]; bufs(b); for (u32 v : WORDS) for (int k = 0; k < 4; ++k) for (int a = 0; a < 4; ++a) for (int le = 0; le < 2; ++le) ser(8 * (k + 1), le, v, b[k][a]); });
    for (u32 hi = 0; hi < 256; ++hi)
        RUN_CASE({
            u8* b[4][4];
            bufs(b);
            for (u32 lo = 0; lo < 256; ++lo) {
                ser_all(hi << 8 | lo, b); ser_all(hi << 24 | lo << 16, b); ser_all(hi << 24 | lo, b); ser_all(~(hi << 16 | lo << 8), b); ser_all(hi << 16 | lo, b); ser_all(hi << 24 | lo << 8, b);
            }
            for (u32 x = 0; x < 65536; ++x) { ser(24, false, hi << 16 | x, b[2][0]); ser(24, true, hi << 16 | x, b[2][1]); if ((x & 8191) == 0) tick(); }
        });
    if (G.deep)
        for (u32 hi = 0; hi < 1024; ++hi)
            RUN_CASE({
                u8* b[4][4];
                bufs(b);
                for (u32 x = 0; x < 1u << 22; ++x) { ser(32, false, hi << 22 | x, b[3][0]); ser(32, true, hi << 22 | x, b[3][0]); if ((x & 65535) == 0) tick(); }
            });
    // deserialising every pair of bytes at every place (the inverse direction)
    RUN_CASE({
        for (int w : {8, 16, 24, 32})
            for (int le = 0; le < 2; ++le)
                for (size_t i = 0; i < (size_t)w / 8; ++i)
                    for (u32 x = 0; x < 256; ++x)
                        for (u32 bg : {0u, 0xFFu, 0x80u}) {
                            size_t m = arena_mark();
                            u8 d[4] = {(u8)bg, (u8)bg, (u8)bg, (u8)bg};
                            d[i] = (u8)x;
                            u32 want = 0;
                            for (size_t k = 0; k < (size_t)w / 8; ++k) want = le ? want | (u32)d[k] << (8 * k) : want << 8 | d[k];
                            u32 got = v_deser(w, le, inbuf(d, (size_t)w / 8, i));
                            called(); obsv(got);
                            CHECK(got == want, "deserialising %s as %d bit %s endian gives %x", hex(d, (size_t)w / 8).c_str(), w, le ? "little" : "big", got);
                            arena_release(m);
                        }
    });
}
UNIT(blobs) {
    std::vector<size_t> sizes;
    for (size_t n = 0; n <= 300; ++n) sizes.push_back(n);
    for (size_t n : {511u, 512u, 513u, 4095u, 4096u, 4097u, 32767u, 32768u, 32769u, 65535u, 65536u, 65537u, 131072u, 1048577u}) sizes.push_back(n);
    for (size_t n : sizes)
        RUN_CASE({
            for (size_t al = 0; al < (n < 80 ? 8u : 2u); ++al) {
                Str s(n, '\0');
                for (size_t i = 0; i < n; ++i) s[i] = (char)pat(i, n);
                Str rev(s.rbegin(), s.rend());
                for (int le = 0; le < 2; ++le)
                    for (int de = 0; de < 2; ++de) {
                        size_t m = arena_mark();
                        u8* d = buf(n, 0x5A, (al * 3) % 8);
                        const u8* src = inbuf(s.data(), n, al);
                        if (de) v_deser_blob(le, src, d, (u32)n); else v_ser_blob(le, d, src, (u32)n);
                        called();
                        obs(d, n);
                        CHECK(memcmp(d, (le ? rev : s).data(), n) == 0, "%s a %zu byte blob in %s endian order gave %s", de ? "deserialising" : "serialising", n, le ? "little" : "big", hex(d, n).c_str());
                        arena_release(m);
                    }
                tick();
            }
        });
}

// ---- bits
static u32 refl(u32 v, u32 n) { u32 r = 0; for (u32 i = 0; i < n; ++i) if (v >> i & 1) r |= 1u << (n - 1 - i); return r; }
static u32 rev32(u32 v) {
    v = (v >> 1 & 0x55555555) | (v & 0x55555555) << 1; v = (v >> 2 & 0x33333333) | (v & 0x33333333) << 2;
    v = (v >> 4 & 0x0F0F0F0F) | (v & 0x0F0F0F0F) << 4; v = (v >> 8 & 0x00FF00FF) | (v & 0x00FF00FF) << 8;
    return v >> 16 | v << 16;
}
static void bits(u32 v, u32 n) {
    bool bt = true;
    u32 r;
    bool in = n < 32;
    for (int init = 0; init < 2; ++init) {
        memset(&bt, init, 1);
        bool ok = v_bit_test(v, (u8)n, &bt);
        obsv(ok); obsv(bt);
        CHECK(ok == in && bt == (in ? (v >> n & 1) == 1 : init == 1), "testing bit %u of %08x returned %d, %d", n, v, ok, bt);
    }
    called(5);
    for (int op = 0; op < 3; ++op) {
        r = 0xC0FFEE11;
        bool ok = op == 0 ? v_bit_set(v, (u8)n, &r) : op == 1 ? v_bit_clear(v, (u8)n, &r) : v_bit_toggle(v, (u8)n, &r);
        u32 m = in ? 1u << n : 0;
        u32 want = !in ? 0xC0FFEE11 : op == 0 ? v | m : op == 1 ? v & ~m : v ^ m;
        obsv(ok); obsv(r);
        SAMPLE("%s bit %u of %08x returned %d, %08x", op == 0 ? "setting" : op == 1 ? "clearing" : "toggling", n, v, ok, r);
        CHECK(ok == in && r == want, "%s bit %u of %08x returned %d, %08x", op == 0 ? "setting" : op == 1 ? "clearing" : "toggling", n, v, ok, r);
    }
}
UNIT(bitops) {
    for (u32 n = 0; n < 256; ++n)
        RUN_CASE({
            for (u32 v : WORDS) bits(v, n);
            if (n < 32) for (u32 x = 0; x < 65536; x += G.thorough ? 1 : 3) { bits(x, n); bits(x << 16, n); bits(~(x << 8), n); }
            tick();
        });
    for (u32 n = 0; n <= 32; ++n) {
        RUN_CASE({
            auto one = [&](u32 v) {
                u32 r = v_rotl(v, n), want = n % 32 ? v << n | v >> (32 - n) : v;
                obsv(r);
                SAMPLE("rotating %08x left by %u gives %08x", v, n, r);
                if (r != want) FAIL("rotating %08x left by %u gives %08x", v, n, r);
                r = v_reflect(v, (u8)n);
                obsv(r);
                if (r != refl(v, n)) FAIL("reflecting %u bits of %08x gives %08x", n, v, r);
                called(2);
            };
            for (u32 v : WORDS) { one(v); for (u32 w : WORDS) one(v ^ w); }
            for (u32 x = 0; x < 65536; ++x) { one(x); one(x << 16); one(~x); one(x << 8); one(0x00FFFF00u ^ x << 8); }
        });
        if (G.deep)
            for (u32 hi = 0; hi < 64; ++hi)
                RUN_CASE({  // every word: rotation and reflection
                    for (u64 x = (u64)hi << 26; x < (u64)(hi + 1) << 26; ++x) {
                        u32 v = (u32)x;
                        u32 r = v_rotl(v, n), want = n % 32 ? v << n | v >> (32 - n) : v;
                        if (r != want) FAIL("rotating %08x left by %u gives %08x", v, n, r);
                        if (n == 8 || n == 16 || n == 31 || n == 32) {
                            r = v_reflect(v, (u8)n);
                            if (r != rev32(v) >> (32 - n)) FAIL("reflecting %u bits of %08x gives %08x", n, v, r);
                        }
                        if ((x & 0xFFFFF) == 0) tick();
                    }
                    called(1u << 26);
                });
    }
}

// ---- exchange, letter classes
UNIT(exchange) {
    std::vector<size_t> sizes;
    for (size_t n = 0; n <= 300; ++n) sizes.push_back(n);
    for (size_t n : {511u, 512u, 513u, 4096u, 65535u, 65536u, 65537u, 131073u}) sizes.push_back(n);
    for (size_t n : sizes)
        RUN_CASE({
            for (size_t al = 0; al < (n < 80 ? 8u : 2u); ++al) {
                Str a(n, '\0'), b(n, '\0');
                for (size_t i = 0; i < n; ++i) { a[i] = (char)pat(i, 1); b[i] = (char)pat(i, 2); }
                size_t m = arena_mark();
                u8* x = buf(n, 0, al);
                u8* y = buf(n, 0, (al * 5) % 8);
                memcpy(x, a.data(), n); memcpy(y, b.data(), n);
                v_swap(x, y, (u32)n);
                called();
                obs(x, n); obs(y, n);
                SAMPLE("exchanging two ranges of %zu bytes: %s and %s", n, hex(x, n).c_str(), hex(y, n).c_str());
                CHECK(memcmp(x, b.data(), n) == 0 && memcmp(y, a.data(), n) == 0, "exchanging two ranges of %zu bytes gave %s and %s", n, hex(x, n).c_str(), hex(y, n).c_str());
                v_swap(x, x, (u32)n);
                called();
                CHECK(memcmp(x, b.data(), n) == 0, "exchanging a range of %zu bytes with itself gave %s", n, hex(x, n).c_str());
                // neighbours in both orders
                u8* z = buf(2 * n, 0, al);
                for (int o = 0; o < 2; ++o) {
                    memcpy(z, a.data(), n); memcpy(z + n, b.data(), n);
                    v_swap(o ? z + n : z, o ? z : z + n, (u32)n);
                    called();
                    CHECK(memcmp(z, b.data(), n) == 0 && memcmp(z + n, a.data(), n) == 0, "exchanging two neighbouring ranges of %zu bytes gave %s", n, hex(z, 2 * n).c_str());
                }
                // and two of three neighbours: the one in the middle stays
                u8* t = buf(3 * n, 0, al);
                memcpy(t, a.data(), n); memset(t + n, 0x33, n); memcpy(t + 2 * n, b.data(), n);
                v_swap(t, t + 2 * n, (u32)n);
                called();
                bool mid = true;
                for (size_t i = 0; i < n; ++i) mid = mid && t[n + i] == 0x33;
                CHECK(mid && memcmp(t, b.data(), n) == 0 && memcmp(t + 2 * n, a.data(), n) == 0, "exchanging around a third range of %zu bytes gave %s", n, hex(t, 3 * n).c_str());
                arena_release(m);
            }
            tick();
        });
    RUN_CASE({  // every pair of byte values
        u8* x = buf(2);
        u8* y = buf(2);
        for (u32 a = 0; a < 256; ++a)
            for (u32 b = 0; b < 256; ++b) {
                x[0] = (u8)a; y[0] = (u8)b; x[1] = (u8)b; y[1] = (u8)~a;
                v_swap(x, y, 2);
                called();
                CHECK(x[0] == b && y[0] == a && x[1] == (u8)~a && y[1] == b, "exchanging %02x%02x and %02x%02x gave %s and %s", a, b, b, (u8)~a, hex(x, 2).c_str(), hex(y, 2).c_str());
            }
    });
}
UNIT(letters) {
    RUN_CASE({
        for (u32 c = 0; c < 256; ++c) {
            bool u = c >= 'A' && c <= 'Z', l = c >= 'a' && c <= 'z';
            bool a = v_is_upper((char)c), b = v_is_lower((char)c), d = v_is_alpha((char)c);
            called(3);
            obsv(a); obsv(b); obsv(d);
            CHECK(a == u, "upper case answers %d for character %u", a, c);
            CHECK(b == l, "lower case answers %d for character %u", b, c);
            CHECK(d == (u || l), "letter answers %d for character %u", d, c);
        }
    });
}
