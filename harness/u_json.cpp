// JSON text builder and lookup, Base64 payloads inside JSON.
#include "mc.hpp"
Str ref_b64(const Str& in, bool url = false, bool pad = true);

typedef std::pair<Str, Str> KV;

// ---- builder
namespace { struct JModel { Str t; int phase = 0; int pairs = 0; }; }  // phase 0: nothing started, 1: open, 2: ended

static void build_bfs(u32 size, const std::vector<KV>& kv, bool raw = false) {
    u8* b = buf(size, 0xA5);
    Snapshotter snap;
    snap.add(b, size);
    g_where = [=]() { return fmt("buffer of %u bytes", size); };
    Bfs<JModel> s(snap);
    s.opnames.push_back("start");
    s.opnames.push_back("end");
    for (auto& p : kv) s.opnames.push_back("add(" + quote(p.first) + "," + quote(p.second) + ")");
    if (raw) s.max_states = bylevel<u64>(4000, 20000, 300000);
    s.key = [](const JModel& m) { return m.t + (char)('0' + m.phase) + (char)m.pairs; };
    s.op = [&](size_t i, JModel& m) {
        Str next;
        const char* what = "start";
        bool r;

        if (i == 0) {
            next = "{";
            r = v_json_start((char*)b, size);
        } else if (m.phase != 1) {
            return false;
        } else if (i == 1) {
            what = "end";
            next = m.t + "}";
            r = v_json_end((char*)b, size);
        } else {
            what = "add";
            const KV& p = kv[i - 2];
            next = m.t + (m.pairs ? "," : "") + "\"" + p.first + "\":\"" + p.second + "\"";
            r = v_json_add((char*)b, size, instr(p.first), instr(p.second));
        }
        called();
        obsv(r);
        bool fits = next.size() + 1 <= size;
        CHECK(r == fits, "%s returned %d although the text %s needs %zu bytes", what, r, quote(next).c_str(), next.size() + 1);
        if (!fits) {
            if (m.phase) CHECK(memcmp(b, m.t.c_str(), m.t.size() + 1) == 0, "a refused %s changed the text %s to %s", what, quote(m.t).c_str(), quote(Str((char*)b, m.t.size() + 1)).c_str());
            return true;
        }
        CHECK(memcmp(b, next.c_str(), next.size() + 1) == 0, "%s gave %s, not %s", what, quote(Str((char*)b, next.size() + 1)).c_str(), quote(next).c_str());
        obs(b, next.size() + 1);
        m.t = next;
        if (i == 0) { m.phase = 1; m.pairs = 0; }
        else if (i == 1) m.phase = 2;
        else ++m.pairs;
        return true;
    };
    // Bytes behind the text are not part of the state: give them one value (unless raw: then they stay as earlier texts left them).
    auto inner = s.op;
    s.op = [&, inner](size_t i, JModel& m) {
        bool r = inner(i, m);
        if (!raw && m.phase && m.t.size() + 1 < size) memset(b + m.t.size() + 1, 0xA5, size - m.t.size() - 1);
        return r;
    };
    s.run(JModel());
    report_bfs(fmt("JSON builder in %u bytes%s", size, raw ? ", memory used again" : "").c_str(), s.nstates, s.ntrans, s.depth, s.complete);
}
static const std::vector<KV> KVS = {{"", ""}, {"a", "b"}, {"k", ""}, {"", "v"}, {"key", "value"}, {"x:y", "{1,2}"}, {"a b", "\\,:\n\x80\xff"}, {"n\\", "w\\"}};

UNIT(json_build_bfs) {
    for (u32 n = 0; n <= (G.thorough ? 44u : 33u); ++n)
        RUN_CASE({
            std::vector<KV> kv = KVS;
            if (n > 30) kv.resize(5);
            build_bfs(n, kv);
            g_where = nullptr;
        });
    for (u32 n = 2; n <= (G.thorough ? 24u : 18u); ++n)
        RUN_CASE({
            build_bfs(n, {KVS[0], KVS[1], KVS[4]}, true);
            g_where = nullptr;
        });
}
static void build_seq(size_t size, const std::vector<KV>& kv, bool mid_end = false) {
    size_t mk = arena_mark();
    char* b = cbuf(size);
    bool ok = true;
    Str t;
    auto step = [&](const char* what, bool r, const Str& next, int i) {
        called(); obsv(r);
        bool fits = next.size() + 1 <= size;
        CHECK(r == fits, "%s %d returned %d although the text needs %zu of %zu bytes", what, i, r, next.size() + 1, size);
        if (fits) { t = next; }
        if (!t.empty()) {
            CHECK(memcmp(b, t.c_str(), t.size() + 1) == 0, "%s %d (returning %d, %zu bytes) left %s, not %s", what, i, r, size, quote(Str(b, t.size() + 1)).c_str(), quote(t).c_str());
            obs(b, t.size() + 1);
        }
        ok = ok && fits;
        return fits;
    };
    if (step("start", v_json_start(b, size), "{", 0)) {
        int n = 0, pairs = 0;
        for (auto& p : kv) {
            Str next = t + (pairs ? "," : "") + "\"" + p.first + "\":\"" + p.second + "\"";
            if (step("add", v_json_add(b, size, instr(p.first), instr(p.second)), next, n++)) ++pairs;
        }
        step("end", v_json_end(b, size), t + "}", n);
    }
    (void)mid_end;
    arena_release(mk);
}
static Str word(size_t n, u64 salt) {  // printable and other bytes, no zero, no quote
    Str s(n, 'a');
    for (size_t i = 0; i < n; ++i) { u8 v = pat(i, salt); s[i] = (char)(v == 0 || v == '"' || v == '\\' ? 'q' : v); }
    return s;
}
UNIT(json_build_sizes) {
    for (size_t k = 0; k <= (G.thorough ? 300u : 40u); ++k)
        RUN_CASE({  // every name and value length with every size around the limits
            for (size_t v : {(size_t)0, (size_t)1, (size_t)2, k, (size_t)30, (size_t)253, (size_t)254, (size_t)255, (size_t)256, (size_t)257})
                for (int sw = 0; sw < 2; ++sw) {
                    KV p(word(sw ? v : k, 1), word(sw ? k : v, 2));
                    size_t one = 1 + 5 + k + v;
                    for (size_t d = 0; d < 9; ++d) build_seq(one - 3 + d, {p});
                    size_t two = one + 1 + 5 + 2 + 3;
                    for (size_t d = 0; d < 9; ++d) build_seq(two - 3 + d, {p, {"nn", "vvv"}});
                    for (size_t d = 0; d < 9; ++d) build_seq(two - 3 + d, {{"nn", "vvv"}, p, {"", ""}});
                }
            tick();
        });
    for (size_t n : {1000u, 4095u, 4096u, 32767u, 65535u, 65536u, 70000u})
        RUN_CASE({
            KV p(word(n, 1), word(n / 2, 2));
            for (size_t d = 0; d < 12; ++d) { build_seq(n + n / 2 + d, {p}); build_seq(n + n / 2 + 12 + d, {{"a", "b"}, p, {"a", "b"}}); tick(); }
        });
    for (size_t n : {10u, 50u, 100u, 300u})
        RUN_CASE({  // many pairs
            std::vector<KV> kv;
            for (size_t i = 0; i < n; ++i) kv.push_back({word(i % 7, i), word((i * 3) % 11, i + 1)});
            size_t full = 3;
            for (auto& p : kv) full += 6 + p.first.size() + p.second.size();
            for (size_t d = 0; d < 24; ++d) { build_seq(full + 2 - d, kv); tick(); }
            for (size_t s = 0; s < full; s += full / 40 + 1) { build_seq(s, kv); tick(); }
        });
}

// ---- lookup
static void lookup(const Str& text, size_t size, const Str& mem, const Str& name, bool want, const Str& value, size_t cap) {
    // mem: what stands in memory, of which `size` bytes are offered
    size_t m = arena_mark();
    const char* b = inraw(mem);
    char* v = cbuf(cap);
    bool r = v_json_find(b, size, instr(name), v, cap);
    called();
    obsv(r);
    bool fits = want && value.size() + 1 <= cap;
    SAMPLE("looking up %s in %s (size %zu, value buffer %zu) returned %d", quote(name).c_str(), quote(text).c_str(), size, cap, r);
    CHECK(r == fits, "looking up %s in %s (size %zu, value buffer %zu) returned %d", quote(name).c_str(), quote(text).c_str(), size, cap, r);
    if (fits) {
        obs(v, value.size() + 1);
        CHECK(memcmp(v, value.c_str(), value.size() + 1) == 0, "looking up %s in %s delivered %s, not %s", quote(name).c_str(), quote(text).c_str(),
              quote(Str(v, value.size() + 1)).c_str(), quote(value).c_str());
    }
    arena_release(m);
}
struct Mem { Str name; bool is_str; Str value; };  // member of an object
static Str val(const Mem& m) { return m.is_str ? "\"" + m.value + "\"" : m.value; }
// ws[i]: white space before token i; tokens: { name : value , ... }
static Str render(const std::vector<Mem>& o, const std::vector<Str>& ws) {
    std::vector<Str> tok = {"{"};
    for (size_t i = 0; i < o.size(); ++i) {
        if (i) tok.push_back(",");
        tok.push_back("\"" + o[i].name + "\"");
        tok.push_back(":");
        tok.push_back(val(o[i]));
    }
    tok.push_back("}");
    Str r;
    for (size_t i = 0; i < tok.size(); ++i) r += (i < ws.size() ? ws[i] : Str()) + tok[i];
    if (ws.size() > tok.size()) r += ws[tok.size()];
    return r;
}
static size_t slots(size_t n) { return n ? 4 * n + 2 : 3; }  // white space slots incl. before and behind

// Is the lookup of this name determined by the specification? (duplicates must be strings)
static bool expect(const std::vector<Mem>& o, const Str& name, bool& want, Str& value, bool& dup) {
    want = dup = false;
    int n = 0;
    bool nonstr = false;
    for (auto& m : o)
        if (m.name == name) {
            ++n;
            if (!m.is_str) nonstr = true;
            if (n == 1 && m.is_str) { want = true; value = m.value; }
        }
    dup = n > 1;
    return !(dup && nonstr);
}
static void object(const std::vector<Mem>& o, const std::vector<Str>& ws, const std::vector<Str>& names, bool all_caps, bool mem_variants) {
    Str t = render(o, ws);
    for (auto& n : names) {
        bool want, dup;
        Str value;
        if (!expect(o, n, want, value, dup)) continue;
        size_t lo = dup ? value.size() + 1 : all_caps ? 0 : value.size();
        for (size_t cap = lo; cap <= value.size() + 2; ++cap) lookup(t, t.size() + 1, t + Str(1, '\0'), n, want, value, cap);
        lookup(t, t.size(), t, n, want, value, value.size() + 40);
        if (!mem_variants) continue;
        // bytes behind the terminator, bytes beyond the given size
        Str junk = "{\"" + n + "\":\"junk\"}";
        lookup(t, t.size() + 1 + junk.size(), t + Str(1, '\0') + junk, n, want, value, value.size() + 8);
        lookup(t, t.size() + 1, t + Str(1, '\0') + junk, n, want, value, value.size() + 8);
        lookup(t, t.size(), t + ",\"" + n + "\":\"junk\"}", n, want, value, value.size() + 8);
        lookup(t, t.size(), t + junk, n, want, value, value.size() + 8);
        lookup(t, t.size(), t + "\"", n, want, value, value.size() + 8);
    }
}
static const std::vector<Str> NAMES = {"a", "b", "aa", "ab", "ba", "", "a:", " a"};
static const std::vector<Mem> VALUES = {
    {"", true, "x"}, {"", true, ""}, {"", true, "a"}, {"", true, ":"}, {"", true, "a:b"}, {"", true, ",a:"}, {"", true, "{a}"}, {"", true, "b"}, {"", true, " a "},
    {"", false, "1"}, {"", false, "true"}, {"", false, "null"}, {"", false, "-1.5e+3"}, {"", false, "0"}};
static const std::vector<Str> LOOK = {"a", "b", "aa", "ab", "ba", "", "a:", " a", "x", "c", ":", "a:b", "abc", "1", "true", "junk", "{", ","};

UNIT(json_find) {
    // objects with up to three members over all names and values
    RUN_CASE({ object({}, {}, LOOK, true, true); for (auto& w : {" ", "\n\t", "\r"}) object({}, {w, w, w}, LOOK, true, true); });
    for (auto& n : NAMES)
        RUN_CASE({ for (auto& v : VALUES) object({{n, v.is_str, v.value}}, {}, LOOK, true, true); });
    for (auto& n : NAMES)
        for (auto& v : VALUES)
            RUN_CASE({
                for (auto& n2 : NAMES)
                    for (auto& v2 : VALUES) object({{n, v.is_str, v.value}, {n2, v2.is_str, v2.value}}, {}, LOOK, true, G.thorough);
                tick();
            });
    size_t nn = G.thorough ? 6 : 4;
    size_t nv = G.thorough ? VALUES.size() : 6;
    static const size_t pickv[] = {0, 2, 4, 9, 1, 10};
    for (size_t a = 0; a < nn; ++a)
        for (size_t b = 0; b < nv; ++b)
            RUN_CASE({
                const Mem& v = VALUES[G.thorough ? b : pickv[b]];
                for (size_t c = 0; c < nn; ++c)
                    for (size_t d = 0; d < nv; ++d)
                        for (size_t e = 0; e < nn; ++e)
                            for (size_t f = 0; f < nv; ++f) {
                                const Mem& v2 = VALUES[G.thorough ? d : pickv[d]];
                                const Mem& v3 = VALUES[G.thorough ? f : pickv[f]];
                                object({{NAMES[a], v.is_str, v.value}, {NAMES[c], v2.is_str, v2.value}, {NAMES[e], v3.is_str, v3.value}}, {},
                                       {"a", "b", "aa", "ab", "x", ""}, false, false);
                            }
                tick();
            });
}
UNIT(json_find_space) {
    static const std::vector<Str> WS = {"", " ", "\t", "\n", "\r", " \n\t\r ", "          "};
    // one member: every combination of white space in all slots
    u64 combos = 1;
    for (size_t i = 0; i < slots(1); ++i) combos *= G.thorough ? 5 : 4;
    for (u64 lo = 0; lo < combos; lo += 64)
        RUN_CASE({
            for (u64 k = lo; k < lo + 64 && k < combos; ++k) {
                std::vector<Str> ws;
                u64 v = k;
                u64 base = G.thorough ? 5 : 4;
                for (size_t i = 0; i < slots(1); ++i) { u64 d = v % base; v /= base; ws.push_back(WS[base == 5 ? d : d == 0 ? 0 : d == 1 ? 1 : d == 2 ? 3 : 5]); }
                object({{"ab", true, "v"}}, ws, {"ab", "a", "b", "v"}, true, false);
                object({{"ab", false, "7"}}, ws, {"ab", "a"}, false, false);
            }
        });
    // several members: one slot at a time, and all slots
    for (size_t n = 2; n <= 3; ++n)
        for (size_t i = 0; i <= slots(n); ++i)
            for (auto& w : WS)
                RUN_CASE({
                    for (auto& v : VALUES)
                        for (auto& v2 : VALUES) {
                            std::vector<Str> ws(slots(n), "");
                            if (i < ws.size()) ws[i] = w; else for (auto& x : ws) x = w;
                            std::vector<Mem> o = {{"a", v.is_str, v.value}, {"ab", v2.is_str, v2.value}};
                            if (n == 3) o.push_back({"b", true, "end"});
                            object(o, ws, {"a", "ab", "b", "x", "aa"}, false, v2.value == "a");
                        }
                });
    if (G.thorough)  // two members: pairs of slots
        for (size_t i = 0; i < slots(2); ++i)
            for (size_t j = 0; j < slots(2); ++j)
                RUN_CASE({
                    for (auto& w : WS) for (auto& x : WS) for (auto& v : VALUES) {
                        std::vector<Str> ws(slots(2), "");
                        ws[i] = w; ws[j] = x;
                        object({{"a", v.is_str, v.value}, {"ab", true, "z"}}, ws, {"a", "ab", "x"}, false, true);
                    }
                });
}
UNIT(json_find_long) {
    // every name length and value length, neighbours that are prefixes or extensions
    for (size_t n = 0; n <= (G.thorough ? 300u : 70u); ++n)
        RUN_CASE({
            for (size_t vl : {(size_t)0, (size_t)1, n, (size_t)63, (size_t)254, (size_t)255, (size_t)256, (size_t)257}) {
                Str name = word(n, 3), v = word(vl, 4);
                std::vector<Mem> o = {{name + "x", true, "no"}, {"x" + name, true, name}, {name, true, v}, {"last", true, "l"}};
                if (n > 1) o.insert(o.begin(), {name.substr(0, n - 1), true, "prefix"});
                object(o, {}, {name, "last", name + "x", "x" + name, name + "y"}, true, true);
                if (n) { Str other = name; other[n - 1] = (char)(other[n - 1] == 'Z' ? 'Y' : 'Z'); object({{other, true, "o"}, {name, true, v}}, {}, {name, other}, false, false); }
            }
            tick();
        });
    for (size_t n : {1000u, 65535u, 65536u, 65537u, 100000u})
        RUN_CASE({
            Str v = word(n, 4);
            object({{"a", true, v}, {"b", true, "end"}}, {}, {"b", "a", "c"}, false, true);
            object({{v, true, "w"}, {"b", true, "end"}}, {}, {v, "b", v + "x"}, false, true);
            object({{"a", true, v}}, {Str(n, ' '), Str(n, '\n'), Str(n, '\t'), Str(n, ' ')}, {"a"}, false, false);
        });
    for (size_t n : {20u, 100u, 256u, 300u})
        RUN_CASE({  // many members, each looked up
            std::vector<Mem> o;
            std::vector<Str> names;
            for (size_t i = 0; i < n; ++i) { o.push_back({fmt("n%zu", i), true, fmt("v%zu", i * 7)}); names.push_back(o.back().name); }
            names.push_back("n"); names.push_back("v7"); names.push_back(fmt("n%zu", n));
            object(o, {}, names, false, false);
            tick();
        });
    // names of the same length made of the same letters, or with the same sum or parity of letters
    for (size_t n = 2; n <= (G.thorough ? 80u : 40u); ++n)
        RUN_CASE({
            Str name;
            for (size_t i = 0; i < n; ++i) name += (char)('0' + i);
            for (size_t p = 0; p < n; ++p) {
                for (size_t q = p + 1; q < n; ++q)
                    for (int kind = 0; kind < 3; ++kind) {
                        Str other = name;
                        if (kind == 0) std::swap(other[p], other[q]);
                        else if (kind == 1) { other[p]++; other[q]--; }
                        else { other[p] = (char)(other[p] ^ 0x10); other[q] = (char)(other[q] ^ 0x10); }
                        if (other == name || other.find_first_of("\"\\") != Str::npos) continue;
                        object({{other, true, "other"}, {name, true, "v"}}, {}, {name, other}, false, false);
                    }
                tick();
            }
            Str back(name.rbegin(), name.rend());
            object({{back, true, "other"}, {name, true, "v"}}, {}, {name, back}, false, false);
        });
    // every byte as a name and as a value
    RUN_CASE({
        for (u32 c = 1; c < 256; ++c) {
            if (c == '"' || c == '\\') continue;
            Str x(1, (char)c);
            object({{"p", true, x}, {x, true, "y"}, {x + x, true, x}}, {}, {x, x + x, "p", "q"}, true, true);
        }
    });
}
// ---- any text whatsoever
UNIT(json_garbage) {
    static const Str alpha = "{\":a ,}";
    for (size_t n = 0; n <= (G.thorough ? 8u : 6u); ++n) {
        u64 total = 1;
        for (size_t i = 0; i < n; ++i) total *= alpha.size();
        u64 step = 1 + (total - 1) / 64;
        for (u64 lo = 0; lo < total; lo += step)
            RUN_CASE({
                u8* t = buf(n);
                u8* tz = buf(n + 1);
                const char* key = instr("a");
                const char* none = instr("");
                std::vector<char*> v;
                for (size_t c = 0; c <= 4; ++c) v.push_back(cbuf(c));
                for (u64 k = lo; k < total && k < lo + step; ++k) {
                    u64 x = k;
                    for (size_t i = 0; i < n; ++i) { t[i] = (u8)alpha[x % alpha.size()]; x /= alpha.size(); }
                    memcpy(tz, t, n);
                    tz[n] = 0;
                    at("text %llu of length %llu", k, n);
                    for (size_t c = 0; c <= 4; ++c) {
                        v_json_find((const char*)t, n, key, v[c], c);
                        v_json_find((const char*)tz, n + 1, key, v[c], c);
                        v_json_find((const char*)t, n, none, v[c], c);
                        called(3);
                    }
                    if (memcmp(tz, t, n) != 0) FAILMEM("the text was changed");
                    if ((k & 1023) == 0) tick();
                }
            });
    }
    // every truncation of well-formed texts, every change of one byte
    for (const char* s : {"{\"a\":\"x\",\"ab\" : \"yy\"}", "{ \"n\" : 1 , \"a\":\"\" }", "{\"a\":true,\"b\":\"a\"}"})
        RUN_CASE({
            Str t = s;
            for (size_t n = 0; n <= t.size(); ++n)
                for (size_t i = 0; i <= n; ++i)
                    for (u32 c = 0; c < 256; c += i < n ? 1 : 256)
                        for (size_t cap = 0; cap < 4; ++cap) {
                            Str x = t.substr(0, n);
                            if (i < n) x[i] = (char)c;
                            size_t m = arena_mark();
                            at("text truncated to %llu, byte %llu is %02llx", n, i, c);
                            v_json_find(inraw(x), n, instr("a"), cbuf(cap), cap);
                            v_json_find(inraw(x), n, instr("ab"), cbuf(cap + 2), cap + 2);
                            called(2);
                            arena_release(m);
                        }
        });
    // arbitrary contents of a text under construction, arbitrary pairs
    for (size_t size = 1; size <= 12; ++size)
        RUN_CASE({
            for (u32 c = 0; c < 256; ++c)
                for (size_t len = 0; len < size; ++len)
                    for (auto& p : KVS) {
                        size_t m = arena_mark();
                        char* b = cbuf(size, (int)c);
                        b[len] = 0;
                        v_json_add(b, size, instr(p.first), instr(p.second));
                        b = cbuf(size, (int)c);
                        b[len] = 0;
                        v_json_end(b, size);
                        called(2);
                        arena_release(m);
                    }
            tick();
        });
}

// ---- any text whatsoever: nothing may be delivered that the text does not say
static bool blank(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
// Does t contain the quoted name, a colon and the quoted value v, in this order with nothing but white space between them?
static bool says(const char* t, size_t n, const char* name, size_t nn, const char* v, size_t vn) {
    for (size_t i = 0; i + nn + vn + 5 <= n; ++i) {
        if (t[i] != '"' || memcmp(t + i + 1, name, nn) != 0 || t[i + 1 + nn] != '"') continue;
        size_t k = i + nn + 2;
        while (k < n && blank(t[k])) ++k;
        if (k >= n || t[k] != ':') continue;
        ++k;
        while (k < n && blank(t[k])) ++k;
        if (k + vn + 2 > n || t[k] != '"' || t[k + 1 + vn] != '"' || memcmp(t + k + 1, v, vn) != 0) continue;
        if (memchr(v, '"', vn) == nullptr) return true;
    }
    return false;
}
// One lookup in n bytes at t (of which only those in front of the first zero count).
static bool any_lookup(const u8* t, size_t n, const char* name, size_t nn, char* v, size_t cap) {
    bool r = v_json_find((const char*)t, n, name, v, cap);
    obsv(r);
    if (!r) return false;
    size_t len = strnlen((const char*)t, n);
    size_t vn = readable(v, cap) ? strnlen(v, cap) : 0;
    CHECK(vn < cap, "looking up %s in %s delivered a value without terminator in %zu bytes", quote(Str(name, nn)).c_str(), quote(Str((const char*)t, n)).c_str(), cap);
    CHECK(says((const char*)t, len, name, nn, v, vn), "looking up %s in %s (%zu bytes) delivered %s, which the text does not give for this name",
          quote(Str(name, nn)).c_str(), quote(Str((const char*)t, n)).c_str(), n, quote(Str(v, vn)).c_str());
    obs(v, vn + 1);
    return true;
}
static void any_texts(const Str& alpha, size_t n, const std::vector<Str>& names, size_t parts) {
    u64 total = 1;
    for (size_t i = 0; i < n; ++i) total *= alpha.size();
    u64 step = 1 + (total - 1) / parts;
    for (u64 lo = 0; lo < total; lo += step)
        RUN_CASE({
            u8* t = buf(n);
            u8* tz = buf(n + 1);
            std::vector<const char*> key;
            for (auto& s : names) key.push_back(instr(s));
            size_t caps[] = {0, 1, 2, 3, n + 1};
            std::vector<char*> v;
            for (size_t c : caps) v.push_back(cbuf(c));
            u64 hits = 0;
            for (u64 k = lo; k < total && k < lo + step; ++k) {
                u64 x = k;
                for (size_t i = 0; i < n; ++i) { t[i] = (u8)alpha[x % alpha.size()]; x /= alpha.size(); }
                memcpy(tz, t, n);
                tz[n] = 0;
                at("text %llu of length %llu", k, n);
                for (size_t j = 0; j < names.size(); ++j) {
                    for (size_t c = 0; c < 5; ++c) hits += any_lookup(t, n, key[j], names[j].size(), v[c], caps[c]);
                    hits += any_lookup(tz, n + 1, key[j], names[j].size(), v[4], caps[4]);
                }
                called(6 * names.size());
                if ((k & 1023) == 0) tick();
            }
            obs_u64(hits);
        });
}
UNIT(json_any) {
    for (size_t n = 0; n <= bylevel<size_t>(9, 11, 12); ++n) any_texts("\": a", n, {"a", "", "aa"}, n > 6 ? 64 : 4);
    for (size_t n = 0; n <= bylevel<size_t>(6, 8, 9); ++n) any_texts("{\":a ,}", n, {"a", "", ","}, n > 5 ? 64 : 4);
    for (size_t n = 5; n <= bylevel<size_t>(8, 10, 11); ++n) any_texts(Str("\":a\n\0", 5), n, {"a", ""}, n > 6 ? 64 : 4);
}
UNIT(json_any_change) {
    static const std::vector<Str> T = {
        "{\"a\":\"x\",\"ab\" : \"yy\"}", "{ \"n\" : 1 , \"a\":\"\" }", "{\"a\":true,\"b\":\"a\"}", "{\"a\":\"ab\",\"ab\":\"a\"}",
        "{\"\":\"v\",\"a\":{\"ab\":\"in\"},\"b\":\"x\"}", "{\"a\":[\"ab\",\"b\"],\"ab\":\"z\"}", "[\"a\",\"ab\",\"b\"]", "{\"ab\":null,\"a\":\"x\",\"b\":\"a\"}",
        "{\n\t\"a\"\r: \n\"ab\" ,\"b\":\"\"}", "{\"ba\":\"a\",\"b\":\"ab\",\"a\":\":\"}", "{\"b\":\":\",\":\":\"a\",\"a\":\",\"}"};
    static const std::vector<Str> N = {"a", "ab", "b", "", ":", ","};
    static const u8 few[] = {'"', ':', ',', ' ', 'a', 'b', '{', '}', '\n', 0, 1, 0x7F, 0x80, 0xFF, '1', '\''};
    for (auto& t : T)
        for (size_t n = 0; n <= t.size(); ++n)
            RUN_CASE({  // cut behind n bytes; one byte changed, left out, or put in; two bytes changed
                std::vector<const char*> key;
                for (auto& s : N) key.push_back(instr(s));
                auto all = [&](const Str& x) {
                    size_t m = arena_mark();
                    const u8* p = inbuf(x.data(), x.size());
                    for (size_t j = 0; j < N.size(); ++j)
                        for (size_t cap : {(size_t)1, (size_t)2, (size_t)3, x.size() + 2}) {
                            any_lookup(p, x.size(), key[j], N[j].size(), cbuf(cap), cap);
                            called();
                        }
                    arena_release(m);
                };
                Str c = t.substr(0, n);
                all(c);
                all(c + Str(1, '\0') + "\":\"q\",\"a\":\"q\",\"ab\":\"q\"}");
                for (size_t i = 0; i <= n; ++i) {
                    if (i < n) { Str x = c; x.erase(i, 1); all(x); }
                    for (u8 b : few) {
                        if (i < n) { Str x = c; x[i] = (char)b; all(x); }
                        Str x = c;
                        x.insert(i, 1, (char)b);
                        all(x);
                    }
                    tick();
                }
                if (n == t.size() || G.deep)
                    for (size_t i = 0; i < n; ++i) {
                        for (size_t j = i + 1; j < n; ++j)
                            for (char b : {'"', ':', ' ', 'a', '\0'})
                                for (char d : {'"', ':', ' ', 'a', '\0'}) { Str x = c; x[i] = (char)b; x[j] = (char)d; all(x); }
                        tick();
                    }
            });
    // names whose lengths agree in their low bits, names that begin or end like one another
    static const size_t L[] = {0, 1, 2, 254, 255, 256, 257, 258, 511, 512, 513, 65535, 65536, 65537, 65538, 131072};
    for (size_t a : L)
        RUN_CASE({
            for (size_t b : L)
                for (int same = 0; same < 3; ++same) {
                    Str na = same == 2 ? word(a, 5) : Str(a, 'n'), nb = same == 2 ? word(b, 6) : Str(b, same ? 'm' : 'n');
                    Str t = "{\"" + na + "\":\"x\"}";
                    Str t2 = "{\"q\":\"" + na + "\",\"" + na + "\" :\"" + na + "\"}";
                    size_t m = arena_mark();
                    for (const Str& x : {t, t2, t.substr(0, t.size() - 2), t.substr(0, t.size() - 4)}) {
                        const u8* p = inbuf(x.data(), x.size());
                        const char* key = instr(nb);
                        for (size_t cap : {(size_t)2, a + 1, x.size() + 2}) { any_lookup(p, x.size(), key, nb.size(), cbuf(cap), cap); called(); }
                    }
                    arena_release(m);
                    tick();
                }
        });
    // neighbouring pieces in any order: every sequence of tokens up to a length
    static const std::vector<Str> TOK = {"\"a\"", ":", "\"ab\"", ",", " ", "\"", "{", "1", "\"\"", "\n"};
    size_t len = bylevel<size_t>(5, 6, 7);
    for (size_t first = 0; first < TOK.size(); ++first)
        for (size_t second = 0; second < TOK.size(); ++second)
            RUN_CASE({
                const char* ka = instr("a");
                const char* kab = instr("ab");
                const char* ke = instr("");
                u64 total = 1;
                for (size_t i = 2; i < len; ++i) total *= TOK.size();
                u8* p = buf(4 * len);
                char* v = cbuf(4 * len + 1);
                for (u64 k = 0; k < total; ++k) {
                    Str x = TOK[first] + TOK[second];
                    u64 y = k;
                    for (size_t i = 2; i < len; ++i) { x += TOK[y % TOK.size()]; y /= TOK.size(); }
                    memcpy(p, x.data(), x.size());
                    at("tokens %llu %llu, then number %llu", first, second, k);
                    for (size_t cap : {(size_t)2, (size_t)4, 4 * len + 1}) {
                        any_lookup(p, x.size(), ka, 1, v, cap);
                        any_lookup(p, x.size(), kab, 2, v, cap);
                        any_lookup(p, x.size(), ke, 0, v, cap);
                    }
                    called(9);
                    if ((k & 1023) == 0) tick();
                }
            });
}

// ---- Base64 payloads carried in JSON
static void chain(const std::vector<Str>& pay, size_t b64_cut, size_t json_cut, size_t val_cut, size_t out_cut, std::vector<Str> names = {}) {
    size_t mk = arena_mark();
    const bool named = !names.empty();
    std::vector<const char*> enc;
    bool ok = true;
    size_t text = 3;
    for (size_t i = 0; i < pay.size(); ++i) {
        if (!named) names.push_back(i == 0 ? "k" : i == 1 ? "kk" : "data");
        size_t need = (pay[i].size() + 2) / 3 * 4;
        size_t cap = need + 1 >= b64_cut ? need + 1 - b64_cut : 0;
        char* e = cbuf(cap);
        int rc = v_b64_encode((const char*)inbuf(pay[i].data(), pay[i].size()), pay[i].size(), e, cap);
        called(); obsv(rc == 0);
        if (rc != 0) { ok = false; break; }
        if (!readable(e, cap) || strnlen(e, cap) == cap) FAIL("encoding into %zu bytes reported success but left no terminator", cap);
        enc.push_back(e);
        text += need + names[i].size() + (i ? 6 : 5);
    }
    if (ok) {
        size_t size = text > json_cut ? text - json_cut : 0;
        char* j = cbuf(size);
        ok = v_json_start(j, size);
        for (size_t i = 0; ok && i < pay.size(); ++i) ok = v_json_add(j, size, instr(names[i]), enc[i]);
        ok = ok && v_json_end(j, size);
        called(2 + pay.size());
        for (size_t i = pay.size(); ok && i-- > 0;) {
            size_t need = (pay[i].size() + 2) / 3 * 4 + 1;
            size_t vcap = need - (val_cut < need ? val_cut : need);
            char* v = cbuf(vcap);
            ok = v_json_find(j, size, instr(names[i]), v, vcap);
            called(); obsv(ok);
            if (!ok) break;
            size_t l = strnlen(v, vcap);
            CHECK(l < vcap, "lookup of payload %zu reported success but left no terminator", i);
            size_t ocap = pay[i].size() - (out_cut < pay[i].size() ? out_cut : pay[i].size());
            u8* o = buf(ocap);
            int rc = v_b64_decode(v, l, o, ocap);
            called(); obsv(rc == 0);
            if (rc != 0) { ok = false; break; }
            obs(o, ocap);
            CHECK(ocap >= pay[i].size(), "payload %zu of %zu bytes was reported as decoded into %zu bytes", i, pay[i].size(), ocap);
            CHECK(memcmp(o, pay[i].data(), pay[i].size()) == 0, "payload %zu of %zu came back as %s instead of %s", i, pay.size(), hex(o, ocap).c_str(), hexs(pay[i]).c_str());
        }
    }
    bool enough = !b64_cut && !json_cut && !val_cut && !out_cut;
    SAMPLE("%zu payloads (first %s), buffers short by %zu, %zu, %zu, %zu: the chain %s", pay.size(), hexs(pay[0]).c_str(), b64_cut, json_cut, val_cut, out_cut, ok ? "succeeded" : "refused");
    CHECK(ok == enough, "%zu payloads (first %zu bytes), buffers short by %zu (Base64), %zu (text), %zu (value), %zu (output): the chain %s",
          pay.size(), pay[0].size(), b64_cut, json_cut, val_cut, out_cut, ok ? "reported success" : "failed");
    arena_release(mk);
}
static void chains(const std::vector<Str>& p, bool cuts) {
    chain(p, 0, 0, 0, 0);
    if (!cuts) return;
    for (size_t c = 1; c <= 6; ++c) { chain(p, c, 0, 0, 0); chain(p, 0, c, 0, 0); chain(p, 0, 0, c, 0); chain(p, 0, 0, 0, c); }
    chain(p, 0, 1, 1, 1);
    chain(p, 0, 0, 1, 1);
    for (size_t c = 10; c < 60; c += 7) chain(p, 0, c, 0, 0);
}
UNIT(json_b64) {
    RUN_CASE({ for (u32 x = 0; x < 256; ++x) chains({Str(1, (char)x)}, x % 51 == 0); });
    for (u32 x = 0; x < 256; ++x)
        RUN_CASE({ for (u32 y = 0; y < 256; ++y) { Str s{(char)x, (char)y}; chains({s}, y == x); if (G.thorough) chains({s + s, s, s + "z"}, false); } });
    for (size_t a = 1; a <= (G.thorough ? 260u : 70u); ++a)
        RUN_CASE({
            for (u64 salt = 0; salt < 3; ++salt) {
                auto pay = [&](size_t n, u64 s) { Str r(n, '\0'); for (size_t i = 0; i < n; ++i) r[i] = (char)(s == 2 ? 0xFF : pat(i, s + n)); return r; };
                chains({pay(a, salt)}, true);
                for (size_t b = 1; b <= 8; ++b) { chains({pay(a, salt), pay(b, salt + 5)}, b < 5); chains({pay(b, 6), pay(a, salt), pay(b, salt)}, b < 4); }
            }
            tick();
        });
    // names that contain one another, in every order; names that occur as the text of another payload
    static const std::vector<Str> N = {"k", "kk", "ak", "ka", "", ":", "TWFu", "AAEC", "k:", ","};
    for (size_t a = 0; a < N.size(); ++a)
        RUN_CASE({
            for (size_t b = 0; b < N.size(); ++b)
                for (size_t c = 0; c < N.size(); ++c) {
                    if (a == b || b == c || a == c) continue;
                    for (int first = 0; first < 2; ++first) {
                        std::vector<Str> p = {first ? "Man" : Str("\0\1\2", 3), first ? Str("\0\1\2", 3) : "Man", "x"};
                        chain(p, 0, 0, 0, 0, {N[a], N[b], N[c]});
                        chain({p[2], p[0], p[1]}, 0, 0, 0, 0, {N[a], N[b], N[c]});
                        chain(p, 0, 1, 0, 0, {N[a], N[b], N[c]});
                        chain(p, 0, 0, 1, 0, {N[a], N[b], N[c]});
                    }
                }
            tick();
        });
    for (size_t n : {1u, 5u, 64u, 255u, 256u, 300u})  // long names, many payloads
        RUN_CASE({
            std::vector<Str> p;
            std::vector<Str> names;
            for (size_t i = 0; i < 24; ++i) { p.push_back(Str(1 + i % 5, (char)(i * 11))); names.push_back(Str(n, 'n') + fmt("%zu", i * 7)); }
            chain(p, 0, 0, 0, 0, names);
            for (size_t c = 1; c < 40; c += 3) chain(p, 0, c, 0, 0, names);
            chain(p, 0, 0, 1, 0, names);
            chain(p, 0, 0, 0, 1, names);
            tick();
        });
    for (size_t n : {1000u, 3071u, 3072u, 3073u, 49151u, 49152u, 49153u, 65536u})
        RUN_CASE({ Str r(n, '\0'); for (size_t i = 0; i < n; ++i) r[i] = (char)pat(i, n); chains({r}, true); chains({"a", r, "b"}, true); tick(); });
}
