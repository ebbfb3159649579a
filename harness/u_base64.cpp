// Base64 encoding and decoding, against an independent implementation of RFC 4648.
#include "mc.hpp"

static const char STD[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static const char URL[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";

Str ref_b64(const Str& in, bool url = false, bool pad = true) {
    const char* a = url ? URL : STD;
    Str r;
    u32 acc = 0;
    int bits = 0;
    for (unsigned char c : in) {
        acc = (acc << 8) | c;
        bits += 8;
        while (bits >= 6) { bits -= 6; r += a[(acc >> bits) & 63]; }
    }
    if (bits) r += a[(acc << (6 - bits)) & 63];
    if (pad) while (r.size() % 4) r += '=';
    return r;
}
static Str payload(size_t n, int kind) {
    Str s(n, '\0');
    for (size_t i = 0; i < n; ++i)
        s[i] = (char)(kind == 0 ? pat(i, n) : kind == 1 ? 0xFF : kind == 2 ? 0 : kind == 3 ? (u8)(i * 85 + 3) : pat(i, 77 + (u64)kind));
    return s;
}
static std::vector<size_t> long_lengths() {
    std::vector<size_t> v;
    for (size_t n = 61; n <= (G.thorough ? 3100u : 1100u); ++n) v.push_back(n);
    for (size_t c : {4096u, 32768u, 49152u, 65536u, 98304u, 131072u, 196608u})
        for (size_t d = 0; d < 8; ++d) v.push_back(c - 4 + d);
    if (G.thorough) for (size_t c : {1u << 20, 3u << 20, 12582912u, 16777216u}) for (size_t d = 0; d < 7; ++d) v.push_back(c - 3 + d);
    return v;
}

static void enc_check(const Str& in, size_t cap, size_t mis = 0) {
    const char* d = (const char*)inbuf(in.data(), in.size(), mis);
    char* r = (char*)buf(cap, 0xA5, mis);
    int rc = v_b64_encode(d, in.size(), r, cap);
    called();
    Str want = ref_b64(in);
    bool fits = want.size() + 1 <= cap;
    obsv(rc == 0);
    CHECK((rc == 0) == fits, "encoding %zu bytes (%zu characters and terminator) into %zu returned %d", in.size(), want.size(), cap, rc);
    if (fits) {
        obs(r, want.size() + 1);
        CHECK(memcmp(r, want.c_str(), want.size() + 1) == 0, "encoding %s gave %s, not %s", hexs(in).c_str(),
              quote(Str(r, want.size() + 1)).c_str(), quote(want).c_str());
    }
}

UNIT(b64_enc_short) {
    for (u32 a = 0; a < 256; ++a)
        RUN_CASE({
            u8 want[5];
            for (int n = 1; n <= 3; ++n) {
                u8* d = buf((size_t)n);
                char* r = cbuf(5);
                d[0] = (u8)a;
                u32 lim = n == 1 ? 1 : n == 2 ? 256 : 65536;
                for (u32 x = 0; x < lim; ++x) {
                    if (n == 2) d[1] = (u8)x;
                    if (n == 3) { d[1] = (u8)(x >> 8); d[2] = (u8)x; }
                    at("encode bytes %02llx, rest %04llx, length %llu", a, x, (u64)n);
                    u32 v = (a << 16) | (n == 3 ? x : n == 2 ? x << 8 : 0);
                    want[0] = (u8)STD[v >> 18];
                    want[1] = (u8)STD[(v >> 12) & 63];
                    want[2] = n > 1 ? (u8)STD[(v >> 6) & 63] : '=';
                    want[3] = n > 2 ? (u8)STD[v & 63] : '=';
                    want[4] = 0;
                    memset(r, 0xA5, 5);
                    int rc = v_b64_encode((const char*)d, (size_t)n, r, 5);
                    called();
                    obs(r, 5);
                    CHECK(rc == 0, "refused");
                    CHECK(memcmp(r, want, 5) == 0, "gave %s, not %s", hex(r, 5).c_str(), hex(want, 5).c_str());
                }
                tick();
                arena_verify();
            }
        });
}
// Every length and every capacity around what is needed.
UNIT(b64_enc_caps) {
    for (size_t n = 0; n <= (G.thorough ? 130u : 60u); ++n)
        RUN_CASE({
            size_t need = (n + 2) / 3 * 4 + 1;
            for (int kind = 0; kind < 3; ++kind)
                for (size_t cap = 0; cap <= need + 4; ++cap) {
                    size_t m = arena_mark();
                    at("length %llu capacity %llu content %llu", n, cap, (u64)kind);
                    enc_check(payload(n, kind), cap, kind == 0 ? cap % 8 : 0);
                    arena_release(m);
                }
        });
    // very large stated capacities
    for (size_t n : {0u, 1u, 2u, 3u, 4u, 48u})
        for (size_t cap : {(size_t)1 << 16, (size_t)1 << 20, ((size_t)1 << 24) + 1})
            RUN_CASE({ at("length %llu capacity %llu", n, cap); enc_check(payload(n, 0), cap); });
}
UNIT(b64_enc_long) {
    for (size_t n : long_lengths())
        RUN_CASE({
            at("length %llu", n);
            size_t need = (n + 2) / 3 * 4 + 1;
            for (size_t cap : {need, need - 1, need + 1, need - 4, need / 2}) {
                size_t m = arena_mark();
                enc_check(payload(n, 0), cap);
                arena_release(m);
                tick();
            }
        });
}

static void dec_check(const Str& text, const Str& want, size_t cap, size_t mis = 0) {
    const char* t = (const char*)inbuf(text.data(), text.size(), mis);
    u8* o = buf(cap, 0xA5, mis);
    int rc = v_b64_decode(t, text.size(), o, cap);
    called();
    bool fits = want.size() <= cap;
    obsv(rc == 0);
    CHECK((rc == 0) == fits, "decoding %s (%zu bytes) with capacity %zu returned %d", quote(text).c_str(), want.size(), cap, rc);
    if (fits) {
        obs(o, want.size());
        CHECK(memcmp(o, want.data(), want.size()) == 0, "decoding %s gave %s, not %s", quote(text).c_str(), hex(o, want.size()).c_str(), hexs(want).c_str());
    }
}
// All payloads of a few special bytes: repetitions, runs and alternations of every kind.
template <class F> static void small_payloads(F f) {
    static const u8 A[] = {0x00, 0xFF, 0x41};
    for (size_t n = 1; n <= (G.deep ? 11u : G.thorough ? 9u : 7u); ++n)
        for (u32 a = 0; a < (n == 1 ? 1u : 3u); ++a)
            RUN_CASE({
                u32 total = 1;
                for (size_t i = 0; i < n; ++i) total *= 3;
                for (u32 x = a; x < total; x += n == 1 ? 1 : 3) {
                    Str p(n, 0);
                    for (u32 i = 0, y = x; i < n; ++i, y /= 3) p[i] = (char)A[y % 3];
                    size_t m = arena_mark();
                    f(p);
                    arena_release(m);
                    if (x % 64 < 3) tick();
                }
            });
}
UNIT(b64_enc_small) {
    small_payloads([](const Str& p) { enc_check(p, ref_b64(p).size() + 1); });
}
UNIT(b64_dec_small) {
    small_payloads([](const Str& p) { for (int form = 0; form < 4; ++form) dec_check(ref_b64(p, form & 1, !(form & 2)), p, p.size()); });
}
// All 64^4 groups, alone and behind another group.
static void groups(bool url, bool second) {
    const char* al = url ? URL : STD;
    for (u32 a = 0; a < 64; ++a)
        RUN_CASE({
            size_t pre = second ? 4 : 0;
            char* t = cbuf(pre + 4);
            u8* o = buf(second ? 6 : 3);
            if (second) memcpy(t, "T0k+", 4);
            if (second && url) t[3] = '-';
            for (u32 x = 0; x < 262144; ++x) {
                u32 v = (a << 18) | x;
                t[pre] = al[v >> 18];
                t[pre + 1] = al[(v >> 12) & 63];
                t[pre + 2] = al[(v >> 6) & 63];
                t[pre + 3] = al[v & 63];
                at("group %06llx, URL alphabet %llu", v, url);
                int rc = v_b64_decode(t, pre + 4, o, pre ? 6 : 3);
                called();
                u8* q = o + (second ? 3 : 0);
                obsv(rc == 0); obs(q, 3);
                CHECK(rc == 0, "refused %s", quote(Str(t, pre + 4)).c_str());
                CHECK(q[0] == (u8)(v >> 16) && q[1] == (u8)(v >> 8) && q[2] == (u8)v, "decoding %s gave %s", quote(Str(t, pre + 4)).c_str(), hex(o, pre ? 6 : 3).c_str());
                if (second) CHECK(o[0] == 0x4F && o[1] == 0x49 && o[2] == 0x3E, "first group of %s gave %s", quote(Str(t, 8)).c_str(), hex(o, 6).c_str());
                if ((x & 4095) == 0) tick();
            }
        });
}
UNIT(b64_dec_groups) {
    groups(false, false);
    groups(true, false);
    if (G.thorough) { groups(false, true); groups(true, true); }
}
// All final groups, in all spellings, behind 0..3 (and 7) whole groups.
UNIT(b64_dec_tails) {
    for (int form = 0; form < 4; ++form)          // bit 0: URL alphabet, bit 1: unpadded
        for (size_t pre : {0u, 1u, 2u, 3u, 7u})
            for (u32 a = 0; a < 256; a += 8)
                RUN_CASE({
                    bool url = form & 1;
                    bool pad = !(form & 2);
                    Str head = payload(pre * 3, 4);
                    for (u32 b = a; b < a + 8; ++b) {
                        size_t m = arena_mark();
                        Str p = head + (char)b;
                        dec_check(ref_b64(p, url, pad), p, p.size());
                        dec_check(ref_b64(p, url, pad), p, p.size() - 1);
                        dec_check(ref_b64(p, url, pad), p, p.size() + 1);
                        for (u32 c = 0; c < 256; ++c) {
                            if (pre > 1 && !G.thorough && (c * 7 + b) % 8) continue;
                            Str p2 = p + (char)c;
                            Str t = ref_b64(p2, url, pad);
                            dec_check(t, p2, p2.size());
                            dec_check(t, p2, p2.size() - 1);
                            if (pre <= 1) dec_check(t, p2, p2.size() + 2);
                        }
                        arena_release(m);
                        tick();
                    }
                });
}
UNIT(b64_dec_caps) {
    for (size_t n = 0; n <= (G.thorough ? 130u : 48u); ++n)
        for (int form = 0; form < 4; ++form)
            RUN_CASE({
                if (n == 0) {
                    for (size_t cap = 0; cap < 5; ++cap) {
                        at("empty input, capacity %llu", cap);
                        int rc = v_b64_decode((const char*)inbuf("", 0), 0, buf(cap), cap);
                        called(); obsv(rc == 0);
                        CHECK(rc != 0, "empty input was accepted");
                    }
                    return;
                }
                for (int kind = 0; kind < 5; ++kind) {
                    Str p = payload(n, kind);
                    Str t = ref_b64(p, form & 1, !(form & 2));
                    for (size_t cap = 0; cap <= n + 4; ++cap) {
                        size_t m = arena_mark();
                        at("payload length %llu capacity %llu", n, cap);
                        dec_check(t, p, cap, kind == 0 ? cap % 8 : 0);
                        arena_release(m);
                    }
                }
            });
}
UNIT(b64_dec_long) {
    for (size_t n : long_lengths())
        RUN_CASE({
            at("payload length %llu", n);
            Str p = payload(n, 0);
            for (int form = 0; form < 4; ++form) {
                Str t = ref_b64(p, form & 1, !(form & 2));
                for (size_t cap : {n, n - 1, n + 1, n + 7}) {
                    size_t m = arena_mark();
                    dec_check(t, p, cap);
                    arena_release(m);
                    tick();
                }
            }
        });
}

// ---- any text whatsoever: only the memory that is touched matters
static void garbage_dec(const Str& alpha, size_t maxlen, size_t maxcap) {
    for (size_t n = 0; n <= maxlen; ++n) {
        u64 total = 1;
        for (size_t i = 0; i < n; ++i) total *= alpha.size();
        u64 step = 1 + (total - 1) / 64;
        for (u64 lo = 0; lo < total; lo += step)
            RUN_CASE({
                u8* t = buf(n);
                std::vector<u8*> outs;
                for (size_t cap = 0; cap <= maxcap; ++cap) outs.push_back(buf(cap));
                for (u64 k = lo; k < total && k < lo + step; ++k) {
                    u64 v = k;
                    for (size_t i = 0; i < n; ++i) { t[i] = (u8)alpha[v % alpha.size()]; v /= alpha.size(); }
                    Str keep((const char*)t, n);
                    for (size_t cap = 0; cap <= maxcap; ++cap) {
                        at("text %llu of length %llu, capacity %llu", k, n, cap);
                        int rc = v_b64_decode((const char*)t, n, outs[cap], cap);
                        called(); (void)rc;
                    }
                    if (memcmp(keep.data(), t, n) != 0) FAILMEM("the input text %s was changed", quote(keep).c_str());
                    if ((k & 1023) == 0) tick();
                }
            });
    }
}
UNIT(b64_garbage) {
    garbage_dec(Str("A/=\x80", 4), G.thorough ? 9 : 7, 7);
    garbage_dec(Str("=b", 2), G.thorough ? 16 : 13, 13);
    // every byte value at every place of short texts
    for (size_t n = 1; n <= 9; ++n)
        RUN_CASE({
            for (size_t at_ = 0; at_ < n; ++at_)
                for (u32 c = 0; c < 256; ++c)
                    for (size_t cap = 0; cap <= 8; ++cap) {
                        size_t m = arena_mark();
                        Str s(n, 'Q');
                        s[at_] = (char)c;
                        at("text of %llu characters with %02llx at %llu, capacity %llu", n, c, at_, cap);
                        v_b64_decode((const char*)inbuf(s.data(), n), n, buf(cap), cap);
                        called();
                        arena_release(m);
                    }
        });
}
