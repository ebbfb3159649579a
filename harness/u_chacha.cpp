// ChaCha20 against an independent implementation of RFC 8439.
#include "mc.hpp"

static u32 rl(u32 v, int n) { return v << n | v >> (32 - n); }
static void ref_block(const u8* key, const u8* nonce, u32 ctr, u8 out[64]) {
    u32 s[16] = {0x61707865, 0x3320646e, 0x79622d32, 0x6b206574}, x[16];
    for (int i = 0; i < 8; ++i) s[4 + i] = (u32)key[4 * i] | (u32)key[4 * i + 1] << 8 | (u32)key[4 * i + 2] << 16 | (u32)key[4 * i + 3] << 24;
    s[12] = ctr;
    for (int i = 0; i < 3; ++i) s[13 + i] = (u32)nonce[4 * i] | (u32)nonce[4 * i + 1] << 8 | (u32)nonce[4 * i + 2] << 16 | (u32)nonce[4 * i + 3] << 24;
    memcpy(x, s, sizeof s);
    auto qr = [&](int a, int b, int c, int d) {
        x[a] += x[b]; x[d] = rl(x[d] ^ x[a], 16);
        x[c] += x[d]; x[b] = rl(x[b] ^ x[c], 12);
        x[a] += x[b]; x[d] = rl(x[d] ^ x[a], 8);
        x[c] += x[d]; x[b] = rl(x[b] ^ x[c], 7);
    };
    for (int i = 0; i < 10; ++i) {
        qr(0, 4, 8, 12); qr(1, 5, 9, 13); qr(2, 6, 10, 14); qr(3, 7, 11, 15);
        qr(0, 5, 10, 15); qr(1, 6, 11, 12); qr(2, 7, 8, 13); qr(3, 4, 9, 14);
    }
    for (int i = 0; i < 16; ++i) { u32 v = x[i] + s[i]; out[4 * i] = (u8)v; out[4 * i + 1] = (u8)(v >> 8); out[4 * i + 2] = (u8)(v >> 16); out[4 * i + 3] = (u8)(v >> 24); }
}
static Str ref_crypt(const Str& p, const u8* key, const u8* nonce, u32 ctr) {
    Str r = p;
    u8 ks[64];
    for (size_t i = 0; i < p.size(); ++i) {
        if (i % 64 == 0) ref_block(key, nonce, ctr + (u32)(i / 64), ks);
        r[i] = (char)((u8)p[i] ^ ks[i % 64]);
    }
    return r;
}
static Str text(size_t n, int kind) {
    Str s(n, '\0');
    for (size_t i = 0; i < n; ++i) s[i] = (char)(kind == 0 ? pat(i, n) : kind == 1 ? 0 : 0xFF);
    return s;
}
struct In { Str key, nonce; u32 ctr; };
static In input(u64 salt, u32 ctr) {
    In r;
    for (u64 i = 0; i < 32; ++i) r.key += (char)pat(i, salt + 5);
    for (u64 i = 0; i < 12; ++i) r.nonce += (char)pat(i, salt + 9);
    r.ctr = ctr;
    return r;
}
static Str crypt(const In& in, const Str& p, size_t mis = 0) {
    const u8* k = inbuf(in.key.data(), 32, mis);
    const u8* nn = inbuf(in.nonce.data(), 12, mis);
    const u8* pp = inbuf(p.data(), p.size(), mis);
    u8* o = buf(p.size(), 0xA5, mis);
    v_chacha(pp, (u32)p.size(), k, nn, in.ctr, o);
    called();
    Str r((const char*)o, p.size());
    obs(r.data(), r.size());
    return r;
}
static void check(const In& in, const Str& p, size_t mis = 0) {
    size_t m = arena_mark();
    Str got = crypt(in, p, mis), want = ref_crypt(p, (const u8*)in.key.data(), (const u8*)in.nonce.data(), in.ctr);
    SAMPLE("key %s nonce %s counter %x length %zu: %s", hexs(in.key).c_str(), hexs(in.nonce).c_str(), in.ctr, p.size(), hexs(got).c_str());
    if (got != want) {
        size_t i = 0;
        while (got[i] == want[i]) ++i;
        FAIL("key %s nonce %s counter %x length %zu: byte %zu is %02x, not %02x", hexs(in.key).c_str(), hexs(in.nonce).c_str(), in.ctr, p.size(), i,
             (u8)got[i], (u8)want[i]);
    }
    arena_release(m);
}
static const u32 CTRS[] = {0, 1, 2, 0xFE, 0xFF, 0x100, 0xFFFE, 0xFFFF, 0x10000, 0x7FFFFFFE, 0x7FFFFFFF, 0x80000000, 0xFFFFFF00, 0xFFFFFFFC, 0xFFFFFFFE, 0xFFFFFFFF};

UNIT(chacha_rfc) {
    RUN_CASE({  // RFC 8439 2.3.2 and 2.4.2: binds the reference to the standard
        In in;
        for (int i = 0; i < 32; ++i) in.key += (char)i;
        in.nonce = Str("\0\0\0\x09\0\0\0\x4a\0\0\0\0", 12);
        in.ctr = 1;
        u8 ks[64];
        ref_block((const u8*)in.key.data(), (const u8*)in.nonce.data(), 1, ks);
        static const u8 first[16] = {0x10, 0xf1, 0xe7, 0xe4, 0xd1, 0x3b, 0x59, 0x15, 0x50, 0x0f, 0xdd, 0x1f, 0xa3, 0x20, 0x71, 0xc4};
        static const u8 lastw[4] = {0xa2, 0x50, 0x3c, 0x4e};
        if (memcmp(ks, first, 16) || memcmp(ks + 60, lastw, 4)) { fprintf(stderr, "reference ChaCha20 is wrong\n"); _Exit(99); }
        check(in, text(64, 1));
        in.nonce = Str("\0\0\0\0\0\0\0\x4a\0\0\0\0", 12);
        Str sun = "Ladies and Gentlemen of the class of '99: If I could offer you only one tip for the future, sunscreen would be it.";
        Str c = ref_crypt(sun, (const u8*)in.key.data(), (const u8*)in.nonce.data(), 1);
        if ((u8)c[0] != 0x6e || (u8)c[1] != 0x2e || (u8)c[113] != 0x4d) { fprintf(stderr, "reference ChaCha20 is wrong\n"); _Exit(99); }
        check(in, sun);
    });
}
UNIT(chacha_lengths) {
    for (size_t n = 0; n <= (G.thorough ? 1100u : 330u); ++n)
        RUN_CASE({
            for (u32 c : CTRS) {
                for (int k = 0; k < (n < 140 ? 3 : 1); ++k) check(input(n, c), text(n, k), (n + c) % 8);
                tick();
            }
        });
    for (size_t blocks : {15u, 16u, 17u, 255u, 256u, 257u, 511u, 512u, 1023u, 1024u, 1025u, 4096u})
        for (size_t d : {0u, 1u, 63u})
            RUN_CASE({ check(input(blocks, 0), text(blocks * 64 + d, 0)); tick(); check(input(blocks, 0xFFFFFFFFu - (u32)blocks / 2), text(blocks * 64 + d, 0)); });
    for (size_t n : {65535u * 64, 65536u * 64, 65536u * 64 + 1, 65537u * 64 + 5}) RUN_CASE({ check(input(3, 7), text(n, 0)); });
    if (G.thorough) RUN_CASE({ check(input(3, 0xFFFF0000u), text(20u << 20, 0)); });
}
// Single bits and bytes of key, nonce and counter; all byte values at all places.
UNIT(chacha_basis) {
    for (int bg = 0; bg < 3; ++bg) {
        In base = input(1, 0);
        if (bg == 1) { base.key = Str(32, '\0'); base.nonce = Str(12, '\0'); }
        if (bg == 2) { base.key = Str(32, '\xFF'); base.nonce = Str(12, '\xFF'); base.ctr = ~0u; }
        for (size_t i = 0; i < 32; ++i)
            RUN_CASE({ for (int v = 0; v < 256; ++v) { In x = base; x.key[i] = (char)v; check(x, text(70, bg)); } tick(); });
        for (size_t i = 0; i < 12; ++i)
            RUN_CASE({ for (int v = 0; v < 256; ++v) { In x = base; x.nonce[i] = (char)v; check(x, text(70, bg)); } tick(); });
        RUN_CASE({ for (u32 w : WORDS) { In x = base; x.ctr = w; check(x, text(130, bg)); } });
        for (size_t i = 0; i < 70; i += 10)
            RUN_CASE({
                for (size_t j = i; j < i + 10; ++j) for (int v = 0; v < 256; ++v) { Str t = text(70, bg); t[j] = (char)v; check(base, t); }
                tick();
            });
        for (size_t i = 0; i < 8; ++i)  // pairs of words
            RUN_CASE({
                for (u32 w : WORDS) { In x = base; for (int b = 0; b < 4; ++b) x.key[4 * i + (size_t)b] = (char)(w >> (8 * b)); x.ctr = ~w; check(x, text(64, bg)); }
                tick();
            });
    }
    if (G.thorough)
        for (u32 s = 0; s < 4096; s += 64)
            RUN_CASE({ for (u32 k = s; k < s + 64; ++k) for (u32 c : CTRS) check(input(100 + k, c + k), text(200, 0)); tick(); });
}

// ---- properties of the library's own results
UNIT(chacha_laws) {
    for (size_t n = 0; n <= (G.thorough ? 700u : 300u); ++n)
        RUN_CASE({
            for (u32 c : CTRS) {
                In in = input(n + 50, c);
                Str p = text(n, 0);
                size_t m = arena_mark();
                at("length %llu counter %llx", n, c);
                Str e = crypt(in, p);
                Str d = crypt(in, e);
                CHECK(d == p, "applying the cipher twice does not restore the message");
                u8* s = buf(n, 0, n % 8);
                memcpy(s, p.data(), n);
                v_chacha(s, (u32)n, (const u8*)in.key.data(), (const u8*)in.nonce.data(), c, s);
                called();
                CHECK(memcmp(s, e.data(), n) == 0, "encrypting in place differs from encrypting into another buffer");
                for (size_t cut = 0; cut <= n; cut += 64) {
                    In y = in;
                    y.ctr = c + (u32)(cut / 64);
                    Str a = crypt(in, p.substr(0, cut)) + crypt(y, p.substr(cut));
                    CHECK(a == e, "cutting at %zu changes the result", cut);
                    if (cut >= 64) {  // three pieces
                        In z = in;
                        z.ctr = c + (u32)(cut / 64) - 1;
                        Str t = crypt(in, p.substr(0, cut - 64)) + crypt(z, p.substr(cut - 64, 64)) + crypt(y, p.substr(cut));
                        CHECK(t == e, "cutting at %zu and %zu changes the result", cut - 64, cut);
                    }
                }
                arena_release(m);
                tick();
            }
        });
    for (size_t blocks : {16u, 255u, 256u, 257u, 1024u, 65536u})
        for (u32 c : {0u, 0xFFFFFFF0u})
            RUN_CASE({
                size_t n = blocks * 64 + 17;
                In in = input(9, c);
                Str p = text(n, 0), e = crypt(in, p);
                at("%llu blocks, counter %llx", blocks, c);
                CHECK(crypt(in, e) == p, "applying the cipher twice does not restore the message");
                tick();
                u8* s = buf(n);
                memcpy(s, p.data(), n);
                v_chacha(s, (u32)n, (const u8*)in.key.data(), (const u8*)in.nonce.data(), c, s);
                CHECK(memcmp(s, e.data(), n) == 0, "encrypting in place differs");
                tick();
                for (size_t cb : {(size_t)1, (size_t)2, blocks / 2, blocks - 1, blocks}) {
                    In y = in;
                    y.ctr = c + (u32)cb;
                    size_t m = arena_mark();
                    CHECK(crypt(in, p.substr(0, cb * 64)) + crypt(y, p.substr(cb * 64)) == e, "cutting at block %zu changes the result", cb);
                    arena_release(m);
                    tick();
                }
            });
}
