// Caesar and Vernam ciphers.
#include "mc.hpp"

static bool up(u8 c) { return c >= 65 && c <= 90; }
static bool lo(u8 c) { return c >= 97 && c <= 122; }
static u8 rot(u8 c, int by) {
    int a = up(c) ? 65 : lo(c) ? 97 : -1;
    if (a < 0) return c;
    return (u8)(a + ((c - a + by) % 26 + 26) % 26);
}
static Str rots(Str s, int by) { for (auto& c : s) c = (char)rot((u8)c, by); return s; }
static Str letters(size_t n, u64 salt) {  // no zero bytes, mixture of letters and others
    Str s(n, 'x');
    for (size_t i = 0; i < n; ++i) {
        u8 v = pat(i, salt);
        s[i] = (char)(v < 90 ? 'A' + v % 26 : v < 180 ? 'a' + v % 26 : v == 0 ? 1 : v);
    }
    return s;
}
static void caesar(const Str& s, u8 shift) {
    size_t m = arena_mark();
    char* p = strbuf(s);
    v_caesar_encrypt(p, shift);
    called();
    obs(p, s.size() + 1);
    Str want = rots(s, shift);
    CHECK(memcmp(p, want.c_str(), s.size() + 1) == 0, "encrypting %s with shift %u gave %s, not %s", quote(s).c_str(), shift, quote(Str(p, s.size())).c_str(), quote(want).c_str());
    v_caesar_decrypt(p, shift);
    called();
    CHECK(memcmp(p, s.c_str(), s.size() + 1) == 0, "decrypting the encryption of %s with shift %u gave %s", quote(s).c_str(), shift, quote(Str(p, s.size())).c_str());
    char* q = strbuf(s);
    v_caesar_decrypt(q, shift);
    called();
    obs(q, s.size() + 1);
    want = rots(s, -(int)shift);
    CHECK(memcmp(q, want.c_str(), s.size() + 1) == 0, "decrypting %s with shift %u gave %s, not %s", quote(s).c_str(), shift, quote(Str(q, s.size())).c_str(), quote(want).c_str());
    arena_release(m);
}
UNIT(caesar) {
    for (u32 s = 0; s < 256; ++s)
        RUN_CASE({
            for (u32 c = 1; c < 256; ++c) caesar(Str(1, (char)c), (u8)s);
            // every pair of neighbours
            char* p = cbuf(3);
            p[2] = 0;
            for (u32 c = 1; c < 256; ++c) {
                if (!G.thorough && (c + s) % 4) continue;
                for (u32 d = 1; d < 256; ++d) {
                    at("bytes %llx %llx shift %llu", c, d, s);
                    p[0] = (char)c; p[1] = (char)d;
                    v_caesar_encrypt(p, (u8)s);
                    CHECK((u8)p[0] == rot((u8)c, (int)s) && (u8)p[1] == rot((u8)d, (int)s) && p[2] == 0, "encryption gave %s", hex(p, 3).c_str());
                    v_caesar_decrypt(p, (u8)s);
                    CHECK((u8)p[0] == c && (u8)p[1] == d && p[2] == 0, "decryption gave %s", hex(p, 3).c_str());
                    called(2);
                }
                tick();
            }
            Str all;
            for (u32 c = 1; c < 256; ++c) all += (char)c;
            caesar(all, (u8)s);
            for (size_t n = 0; n <= 300; n += n < 70 ? 1 : 23) caesar(letters(n, s), (u8)s);
            caesar(Str(255, 'z'), (u8)s); caesar(Str(256, 'A'), (u8)s); caesar(Str(257, 'Z'), (u8)s); caesar(Str(300, 'a'), (u8)s);
        });
    for (size_t n : {1000u, 32767u, 32768u, 65535u, 65536u, 65537u, 70000u})
        for (u32 s : {1u, 13u, 25u, 26u, 27u, 128u, 255u}) RUN_CASE({ at("length %llu shift %llu", n, s); caesar(letters(n, n), (u8)s); });
}

static u8 vern(u8 m, u8 k) { return rot(m, up(k) ? k - 65 : k - 97); }
static void vernam(const Str& msg, const Str& key, bool letter_key, size_t mis = 0) {
    size_t mk = arena_mark();
    char* m = (char*)buf(msg.size() + 1, 0, mis);
    memcpy(m, msg.c_str(), msg.size() + 1);
    const char* k = (const char*)inbuf(key.data(), key.size(), mis);
    bool r = v_vernam_encrypt(m, k, (int32_t)key.size());
    called();
    obsv(r); obs(m, msg.size() + 1);
    SAMPLE("encrypting %s with key %s gives %s", quote(msg).c_str(), quote(key).c_str(), quote(Str(m, msg.size())).c_str());
    CHECK(r, "encrypting %s with a key of the same length was refused", quote(msg).c_str());
    CHECK(m[msg.size()] == 0, "the terminator of %s was changed", quote(msg).c_str());
    for (size_t i = 0; i < msg.size(); ++i) {
        u8 a = (u8)msg[i], b = (u8)m[i], c = (u8)key[i];
        bool ok = up(a) ? up(b) : lo(a) ? lo(b) : a == b;
        if (ok && (up(c) || lo(c))) ok = b == vern(a, c);
        CHECK(ok, "byte %zu: %02x under key byte %02x became %02x%s", i, a, c, b, letter_key ? "" : " (key with other bytes than letters)");
    }
    r = v_vernam_decrypt(m, k, (int32_t)key.size());
    called();
    CHECK(r, "decryption was refused");
    for (size_t i = 0; i <= msg.size(); ++i)
        CHECK(m[i] == msg.c_str()[i], "byte %zu: %02x under key byte %02x came back as %02x", i, (u8)msg.c_str()[i], i < key.size() ? (u8)key[i] : 0, (u8)m[i]);
    // decryption as the first step
    r = v_vernam_decrypt(m, k, (int32_t)key.size());
    called();
    obs(m, msg.size() + 1);
    CHECK(r, "decryption was refused");
    if (letter_key)
        for (size_t i = 0; i < msg.size(); ++i) {
            u8 w = rot((u8)msg[i], -(up((u8)key[i]) ? key[i] - 65 : key[i] - 97));
            CHECK((u8)m[i] == w, "decrypting byte %zu, %02x under key byte %02x, gave %02x, not %02x", i, (u8)msg[i], (u8)key[i], (u8)m[i], w);
        }
    arena_release(mk);
}
UNIT(vernam) {
    for (u32 a = 1; a < 256; ++a)
        RUN_CASE({ for (u32 k = 0; k < 256; ++k) { Str ks(1, (char)k); vernam(Str(1, (char)a), ks, up((u8)k) || lo((u8)k)); } });
    // two characters: every letter pair under representative keys and the other way round
    for (u32 a = 0; a < 52; ++a)
        RUN_CASE({
            u8 ca = (u8)(a < 26 ? 65 + a : 71 + a);
            for (u32 b = 1; b < 256; b += G.thorough ? 1 : 3)
                for (u32 k : {65u, 66u, 77u, 90u, 97u, 98u, 110u, 122u, 0u, 48u, 64u, 91u, 96u, 123u, 127u, 128u, 200u, 255u}) {
                    u8 k2 = (u8)(65 + (a + b) % 26);
                    vernam({(char)ca, (char)b}, {(char)k, (char)k2}, (k >= 65 && k <= 90) || (k >= 97 && k <= 122));
                }
        });
    for (size_t n = 0; n <= 300; ++n)
        RUN_CASE({
            Str m = letters(n, n), k(n, 'a'), k2(n, 'a');
            for (size_t i = 0; i < n; ++i) { u8 v = pat(i, 9 + n); k[i] = (char)(v & 1 ? 'a' + v % 26 : 'A' + v % 26); k2[i] = (char)v; }
            vernam(m, k, true, n % 8);
            vernam(m, k2, false);
            vernam(m, Str(n, 'z'), true);
            vernam(m, m, false);
        });
    for (size_t n : {1000u, 32767u, 32768u, 65535u, 65536u, 65537u, 70000u})
        RUN_CASE({
            Str k(n, 'B');
            for (size_t i = 0; i < n; ++i) k[i] = (char)(pat(i, 3) & 1 ? 'a' + pat(i, 4) % 26 : 'A' + pat(i, 4) % 26);
            at("length %llu", n);
            vernam(letters(n, n), k, true);
        });
}
UNIT(vernam_lengths) {
    for (size_t n = 0; n <= 64; ++n)
        RUN_CASE({
            Str msg = letters(n, n + 3);
            std::vector<int64_t> kl = {-1, -2, (int64_t)INT32_MIN, (int64_t)INT32_MAX, (int64_t)n + 256, (int64_t)n + 65536, -(int64_t)n, (int64_t)n - 256, (int64_t)n - 65536};
            for (int64_t d = 0; d <= (int64_t)n + 20; ++d) kl.push_back(d);
            for (int64_t k : kl)
                for (int dec = 0; dec < 2; ++dec) {
                    if (k == (int64_t)n) continue;
                    size_t m = arena_mark();
                    char* p = strbuf(msg);
                    size_t kn = k < 0 ? 8 : k > 70000 ? 100 : (size_t)k;
                    Str ks(kn, 'D');
                    bool r = dec ? v_vernam_decrypt(p, (const char*)inbuf(ks.data(), kn), (int32_t)k) : v_vernam_encrypt(p, (const char*)inbuf(ks.data(), kn), (int32_t)k);
                    called();
                    obsv(r);
                    CHECK(!r, "%s accepted a key of length %lld for a message of %zu characters", dec ? "decryption" : "encryption", (long long)k, n);
                    CHECK(memcmp(p, msg.c_str(), n + 1) == 0, "a refused %s changed the message", dec ? "decryption" : "encryption");
                    arena_release(m);
                }
        });
    for (size_t n : {255u, 256u, 257u, 65535u, 65536u, 65537u, 65600u})
        for (int64_t k : {(int64_t)n - 256, (int64_t)n + 256, (int64_t)n - 65536, (int64_t)n + 65536, (int64_t)n - 1, (int64_t)n + 1})
            RUN_CASE({
                Str msg = letters(n, n + 3);
                char* p = strbuf(msg);
                Str ks(k < 0 ? 8 : (size_t)k, 'E');
                at("message of %llu, key of %llu", n, (u64)k);
                bool r = v_vernam_encrypt(p, (const char*)inbuf(ks.data(), ks.size()), (int32_t)k);
                r = v_vernam_decrypt(p, (const char*)inbuf(ks.data(), ks.size()), (int32_t)k) || r;
                called(2);
                CHECK(!r, "a key of the wrong length was accepted");
                CHECK(memcmp(p, msg.c_str(), n + 1) == 0, "a refused call changed the message");
            });
}
