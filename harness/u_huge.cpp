// Objects beyond 2 and 4 GiB: positions and lengths must not wrap where a product or a length leaves 31 or 32 bits.
// Each case enumerates a fixed history at one combination of sizes; elements carry stamps that identify them.
#include "mc.hpp"
#include <algorithm>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

static const u64 K = 1024, M = K * K, GB = K * M;

// What this process may still take. Cases that need more are left out and reported as not explored.
static u64 available() {
    u64 kb = 0;
    if (FILE* f = fopen("/proc/meminfo", "r")) {
        char l[200];
        while (fgets(l, sizeof l, f)) if (sscanf(l, "MemAvailable: %lu", &kb) == 1) break;
        fclose(f);
    }
    return kb * K;
}
// The explorers of one check share a budget: a process holds one locked byte of a common file for each GiB it uses.
struct Share {
    int fd = -1;
    static struct flock range(short type, off_t at, off_t n) { struct flock l; memset(&l, 0, sizeof l); l.l_type = type; l.l_whence = SEEK_SET; l.l_start = at; l.l_len = n; return l; }
    explicit Share(u64 need) {
        const char* f = getenv("HUGE_LOCK");
        if (!f) return;
        fd = open(f, O_RDWR | O_CREAT, 0600);
        if (fd < 0) return;
        const int ALL = 20, GATE = 100;
        int want = (int)(need / GB) + 1;
        if (want > ALL) want = ALL;
        struct flock g = range(F_WRLCK, GATE, 1);
        while (fcntl(fd, F_SETLKW, &g) != 0) { }
        for (int have = 0;;) {
            for (int i = 0; i < ALL && have < want; ++i) {
                if (mine[i]) continue;
                struct flock l = range(F_WRLCK, i, 1);
                if (fcntl(fd, F_SETLK, &l) == 0) { mine[i] = true; ++have; }
            }
            if (have == want) break;
            usleep(50000);
        }
        g = range(F_UNLCK, GATE, 1);
        fcntl(fd, F_SETLK, &g);
    }
    ~Share() { if (fd >= 0) close(fd); }
    bool mine[20] = {false};
};
struct NoRoom {};
// n bytes, all zero, that end directly in front of an inaccessible page; an inaccessible page (and a gap) in front of them, too.
struct Huge {
    u8* base; size_t all, n; u8* p;
    explicit Huge(size_t n_) : n(n_) {
        size_t body = (n + 4095) / 4096 * 4096;
        all = body + 2 * 65536;
        base = (u8*)mmap(nullptr, all, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (base == MAP_FAILED) throw NoRoom();
        madvise(base, all, MADV_HUGEPAGE);
        mprotect(base, 65536, PROT_NONE);
        mprotect(base + 65536 + body, 65536, PROT_NONE);
        p = base + 65536 + body - n;
    }
    Huge(const Huge&) = delete;
    ~Huge() { munmap(base, all); }
    void readonly() { mprotect(base + 65536, all - 2 * 65536, PROT_READ); }
    operator u8*() const { return p; }
};
// Runs one case if there is room for it.
static void huge_case(u64 need, const Str& what, std::function<void()> f) {
    RUN_CASE({
        at("huge case");
        g_where = [=]() { return what; };
        Share share(need);
        if (available() < need + 2 * GB) note("not explored, %s: not enough memory", what.c_str());
        else try { f(); SAMPLE("%s", what.c_str()); } catch (NoRoom&) { note("not explored, %s: no address space", what.c_str()); }
        g_where = nullptr;
    });
}

// Element number id: its bytes at the beginning, at the end and at many places between say so.
static inline u64 word(u64 id, u64 place) { u64 x = (id + 1) * 0x9E3779B97F4A7C15ULL ^ (place + 7) * 0xC2B2AE3D27D4EB4FULL; return x ^ x >> 29; }
static const size_t STEP = 256 * K + 8;
template <class F> static void places(size_t es, F f) {
    for (size_t o = 4; o + 8 <= es; o += STEP) f(o);
    if (es >= 24) f(es - 8);
}
static void put(u8* e, size_t es, u32 id) {
    u8 b[4] = {(u8)(id >> 24), (u8)(id >> 16), (u8)(id >> 8), (u8)id};
    memcpy(e, b, 4);
    places(es, [&](size_t o) { u64 w = word(id, o == es - 8 ? 1 : o); memcpy(e + o, &w, 8); });
}
static u32 ident(const u8* e) { return (u32)e[0] << 24 | (u32)e[1] << 16 | (u32)e[2] << 8 | e[3]; }
static void must_be(const u8* e, size_t es, u32 id, const char* what) {
    CHECK(ident(e) == id, "%s delivered element %u instead of %u", what, ident(e), id);
    places(es, [&](size_t o) { u64 w; memcpy(&w, e + o, 8); CHECK(w == word(id, o == es - 8 ? 1 : o), "%s: byte %zu of element %u is wrong", what, o, id); });
}
static void step(const char* f, u64 a = 0, u64 b = 0) { tick(); called(); at(f, a, b); }

struct Size { u64 count, es; };
// numbers of elements whose storage passes 2 and 4 GiB
static std::vector<Size> sizes() {
    std::vector<Size> r = {{5, GB}, {3, 2 * GB + 1}, {67, 64 * M + 1}, {65600, 65536}};
    if (G.thorough) r.insert(r.end(), {{4200, M + 1}, {2, 3 * GB - 5}});
    if (G.deep) r.insert(r.end(), {{9, 512 * M + 3}, {131100, 32 * K + 1}, {65536, 65537}});
    return r;
}

UNIT(huge_queue) {
    auto run = [](u64 cap, u64 es) {
        huge_case(cap * es + 2 * es, fmt("queue of %lu elements of %lu bytes", cap, es), [=]() {
            Huge store(cap * es), in(es), out(es);
            u8* q = buf(v_queue_sizeof());
            step("init");
            CHECK(v_queue_init(q, (u32)cap, (u32)es, store), "refused");
            u32 next = 0, first = 0;
            auto add = [&]() { put(in, es, next); step("enqueue number %lu", next); CHECK(v_queue_enqueue(q, in), "enqueue of element %u refused", next); ++next; };
            auto rem = [&]() { step("dequeue of number %lu", first); CHECK(v_queue_dequeue(q, out), "dequeue refused"); must_be(out, es, first, "dequeue"); ++first; };
            for (u64 i = 0; i < cap; ++i) add();
            step("full"); CHECK(v_queue_full(q), "not full");
            put(in, es, next); CHECK(!v_queue_enqueue(q, in), "enqueue into a full queue accepted");
            step("front"); CHECK(v_queue_front(q, out), "front refused"); must_be(out, es, first, "front");
            step("rear"); CHECK(v_queue_rear(q, out), "rear refused"); must_be(out, es, next - 1, "rear");
            for (u64 i = 0; i < cap / 2 + 1; ++i) rem();
            for (u64 i = 0; i < cap / 2 + 1; ++i) add();
            step("rear"); CHECK(v_queue_rear(q, out), "rear refused"); must_be(out, es, next - 1, "rear");
            while (first < next) rem();
            step("empty"); CHECK(v_queue_empty(q), "not empty");
        });
    };
    for (Size s : sizes()) run(s.count, s.es);
    run(4294967296 / 60 + 1000, 60);
    if (G.thorough) run(4294967296 / 3 + 5, 3);
    if (G.deep) { run(4294967295, 1); run(2147483700, 2); }
}

UNIT(huge_pq) {
    for (Size s : sizes()) {
        u64 cap = s.count, es = s.es;
        huge_case(cap * es + 2 * es, fmt("priority queue of %lu elements of %lu bytes", cap, es), [=]() {
            Huge store(cap * es), in(es), out(es);
            u8* q = buf(v_pq_sizeof());
            std::vector<u32> prio(cap);
            step("init");
            CHECK(v_pq_init(q, (u32)cap, (u32)es, prio.data(), store, false), "refused");
            struct E { u32 p, id; };
            std::vector<E> ref;  // in order of arrival
            u32 next = 0;
            auto add = [&](u32 p) {
                put(in, es, next);
                step("enqueue number %lu with priority %lu", next, p);
                CHECK(v_pq_enqueue(q, &p, in), "enqueue refused");
                if (ref.size() == cap) {
                    size_t low = 0;
                    for (size_t i = 1; i < ref.size(); ++i) if (ref[i].p < ref[low].p) low = i;
                    ref.erase(ref.begin() + low);
                }
                ref.push_back({p, next++});
            };
            auto rem = [&]() {
                size_t top = 0;
                for (size_t i = 1; i < ref.size(); ++i) if (ref[i].p > ref[top].p) top = i;
                step("dequeue of number %lu", ref[top].id);
                CHECK(v_pq_dequeue(q, out), "dequeue refused");
                must_be(out, es, ref[top].id, "dequeue");
                ref.erase(ref.begin() + top);
            };
            // special places: around 2 and 4 GiB and the ends. The one of least priority is given up first.
            std::vector<u64> at;
            for (u64 edge : {2 * GB / es, 4 * GB / es}) for (u64 i = edge ? edge - 1 : 0; i <= edge + 1; ++i) if (i < cap) at.push_back(i);
            at.push_back(cap - 1); at.push_back(0);
            u64 least = cap > 8 ? cap - 3 : cap / 2;
            for (u64 i = 0; i < cap; ++i) {
                u32 p = 7;
                for (size_t k = 0; k < at.size(); ++k) if (at[k] == i) p = (u32)(100 - k);
                add(i == least ? 3 : p);
            }
            u32 low = 2;
            put(in, es, 77777); step("enqueue of too low a priority"); CHECK(!v_pq_enqueue(q, &low, in), "enqueue below the least priority accepted");
            add(200);
            for (size_t k = 0; k < (cap > 8 ? at.size() + 3 : cap - 1); ++k) rem();
            add(50); add(300);
            if (cap > 8) for (int k = 0; k < 4; ++k) rem();
            else while (!ref.empty()) rem();
        });
    }
}

static void maps(bool keys, Size s) {
    u64 n = s.count, es = s.es, other = 4, ks = keys ? es : other, vs = keys ? other : es;
    huge_case(n * es + 2 * es, fmt("map of %lu entries, keys of %lu and values of %lu bytes", n, ks, vs), [=]() {
        Huge kst(n * ks), vst(n * vs), k(ks), v(vs), out(vs);
        u8* m = buf(v_map_sizeof());
        step("init");
        CHECK(v_map_init(m, kst, vst, (int32_t)ks, (int32_t)vs, (int32_t)n), "refused");
        // the first two keys differ in their last byte only
        auto key = [&](u32 i) { put(k, ks, i < 2 ? 0xFFFFFF00u : i); if (i == 1) k[ks - 1] ^= 0x40; };
        for (u32 i = 0; i < n; ++i) { key(i); put(v, vs, i); step("insert of number %lu", i); CHECK(v_map_insert(m, k, v), "insert of entry %u refused", i); }
        key((u32)n + 9); put(v, vs, 5); step("insert into a full map"); CHECK(!v_map_insert(m, k, v), "insert into a full map accepted");
        step("get of a missing key"); CHECK(!v_map_get(m, k, out), "a missing key was found");
        auto all = [&](u32 plus) {
            for (u32 i = 0; i < n; ++i) { key(i); step("get of number %lu", i); CHECK(v_map_get(m, k, out), "entry %u not found", i); must_be(out, vs, i + (i % 2 ? plus : 0), "get"); }
        };
        all(0);
        for (u32 i = 1; i < n; i += 2) { key(i); put(v, vs, i + 500); step("replacing number %lu", i); CHECK(v_map_insert(m, k, v), "replacing entry %u refused", i); }
        all(500);
    });
}
UNIT(huge_map) {
    std::vector<Size> v = {{3, 2 * GB - 1}, {5, GB}, {67, 64 * M + 1}};
    if (G.thorough) v.insert(v.end(), {{2, 2 * GB - 2}, {9, 512 * M + 3}, {4200, M + 1}});
    for (Size s : v) { maps(false, s); if (s.count < 1000) maps(true, s); }
}

static bool rank_above(void* a, void* b) { tick(); called(); return ident((u8*)a) > ident((u8*)b); }
static void sorts(int w, const std::vector<u32>& order, u64 es) {
    u64 n = order.size();
    Str o;
    for (size_t i = 0; i < n && i < 9; ++i) o += fmt(" %u", order[i]);
    huge_case(n * es, fmt("%s sort of %lu elements of %lu bytes, order%s", v_sort_name(w), n, es, o.c_str()), [=]() {
        Huge a(n * es);
        for (size_t i = 0; i < n; ++i) put(a + i * es, es, order[i]);
        step("sort");
        v_sort(w, a, (int32_t)n, (int32_t)es, rank_above);
        for (size_t i = 0; i < n; ++i) {
            CHECK(ident(a + i * es) == i, "place %zu holds element %u", i, ident(a + i * es));
            must_be(a + i * es, es, (u32)i, "the array");
        }
    });
}
UNIT(huge_sort) {
    for (int w = 0; w < SORT_COUNT; ++w) {
        if (w == SORT_INSERTION) continue;
        sorts(w, {2, 1, 0}, 2 * GB - 1);
        sorts(w, {1, 4, 3, 2, 0}, GB);
        if (G.thorough) {
            sorts(w, {1, 2, 0}, 2 * GB - 7); sorts(w, {4, 3, 2, 1, 0}, GB + 1); sorts(w, {1, 2, 3, 8, 7, 6, 5, 4, 0}, 512 * M + 1);
        }
    }
    // more than 2^30 elements: the places of the children of the last ones do not fit into 31 bits
    huge_case(2 * GB, "heap sort of 2^30 + 10 elements of one byte", []() {
        u64 n = GB + 10;
        Huge a(n);
        memset(a, 5, n);
        a[(n - 2) / 2] = 4;  // sinks to the last place
        step("sort");
        v_sort(SORT_HEAP, a, (int32_t)n, 1, [](void* x, void* y) { return *(u8*)x > *(u8*)y; });
        CHECK(a[0] == 4, "the first element is %u instead of 4", a[0]);
        for (u64 i = 1; i < n; ++i) CHECK(a[i] == 5, "element %lu is %u instead of 5", i, a[i]);
    });
    // many small elements, in order but for the last ones
    u64 es = 64, n = 4 * GB / es + 40;
    huge_case(n * es, fmt("Insertion sort of %lu elements of %lu bytes", n, es), [=]() {
        Huge a(n * es);
        auto at = [&](u64 i) { return i == n - 1 ? n - 30 : i >= n - 30 ? i + 1 : i == 2 * GB / es ? i + 1 : i == 2 * GB / es + 1 ? i - 1 : i; };
        for (u64 i = 0; i < n; ++i) put(a + i * es, es, (u32)at(i));
        step("sort");
        v_sort(SORT_INSERTION, a, (int32_t)n, (int32_t)es, rank_above);
        for (u64 i = 0; i < n; ++i) CHECK(ident(a + i * es) == i, "place %lu holds element %u", i, ident(a + i * es));
        for (u64 i = 0; i < n; ++i) must_be(a + i * es, es, (u32)i, "the array");
    });
}

UNIT(huge_bytes) {
    std::vector<u64> v = {2 * GB + 5, 4 * GB - 1};
    if (G.thorough) v.insert(v.end(), {2 * GB - 1, 2 * GB, 2 * GB + 1, 3 * GB + 7});
    for (u64 n : v) {
        huge_case(2 * n, fmt("exchange of %lu bytes", n), [=]() {
            Huge a(n), b(n);
            put(a, n, 1); put(b, n, 2);
            step("exchange");
            v_swap(a, b, (u32)n);
            must_be(a, n, 2, "exchange"); must_be(b, n, 1, "exchange");
        });
        for (int k = 0; k < 4; ++k)
            huge_case(2 * n, fmt("%s of a %s-endian blob of %lu bytes", k & 2 ? "deserialisation" : "serialisation", k & 1 ? "little" : "big", n), [=]() {
                Huge a(n), b(n);
                std::vector<u64> where;  // marked bytes
                for (u64 i = 0; i < n; i += 16 * M + 1) where.push_back(i);
                for (u64 e : {2 * GB, n}) for (u64 i = e - 3; i < e + 3 && i < n; ++i) where.push_back(i);
                for (u64 i : where) a[i] = (u8)(1 + i % 251);
                memset(b, 0xEE, n);
                step("blob");
                if (k & 2) v_deser_blob(k & 1, a, b, (u32)n); else v_ser_blob(k & 1, b, a, (u32)n);
                for (u64 i : where) { u64 j = k & 1 ? n - 1 - i : i; CHECK(b[j] == a[i], "byte %lu of the result is %u instead of %u", j, b[j], a[i]); }
                u64 marks = 0;
                for (u64 i = 0; i < n; ++i) { CHECK(b[i] != 0xEE || a[k & 1 ? n - 1 - i : i] == 0xEE, "byte %lu of the result was not set", i); marks += b[i] != 0; }
                u64 set = 0;
                for (u64 i = 0; i < n; ++i) set += a[i] != 0;
                CHECK(marks == set, "the result has %lu bytes that are not zero instead of %lu", marks, set);
            });
    }
}

UNIT(huge_text) {
    // letters: Caesar, Vernam
    huge_case(4 * GB + 5, "Caesar of 4 GiB and 5 letters", []() {
        u64 n = 4 * GB + 5;
        Huge m(n + 1);
        memset(m, '.', n);
        std::vector<u64> where;
        for (u64 i = 0; i < n; i += 16 * M + 1) where.push_back(i);
        for (u64 e : {2 * GB, 4 * GB, n}) for (u64 i = e - 3; i < e + 3 && i < n; ++i) where.push_back(i);
        std::sort(where.begin(), where.end());
        where.erase(std::unique(where.begin(), where.end()), where.end());
        for (u64 i : where) m[i] = 'a' + i % 26;
        auto verify = [&](u64 shift, const char* what) {
            for (u64 i : where) { u8 want = 'a' + (i + shift) % 26; CHECK(m[i] == want, "character %lu is %c after %s", i, m[i], what); m[i] = '.'; }
            for (u64 i = 0; i < n; ++i) CHECK(m[i] == '.', "character %lu was changed by %s", i, what);
            for (u64 i : where) m[i] = 'a' + (i + shift) % 26;
        };
        step("encrypt");
        v_caesar_encrypt((char*)(u8*)m, 3);
        verify(3, "encryption");
        step("decrypt");
        v_caesar_decrypt((char*)(u8*)m, 3);
        verify(0, "decryption");
    });
    for (int dec = 0; dec < 2; ++dec)
        for (u64 extra : {5, 1}) {
            if (extra == 1 && dec != 1 && !G.thorough) continue;
            if (extra == 5 && dec == 1 && !G.thorough) continue;
            huge_case(4 * GB + extra, fmt("Vernam %s of 4 GiB and %lu letters with a key of %lu", dec ? "decryption" : "encryption", extra, extra), [=]() {
                u64 n = 4 * GB + extra;
                Huge m(n + 1);
                memset(m, 'b', n);
                const char* key = (const char*)inbuf("CDEFG", 5);
                step("Vernam");
                bool r = dec ? v_vernam_decrypt((char*)(u8*)m, key, (int32_t)extra) : v_vernam_encrypt((char*)(u8*)m, key, (int32_t)extra);
                CHECK(!r, "a key of %lu letters was accepted for a message of %lu", extra, n);
                for (u64 i = 0; i < n; ++i) CHECK(m[i] == 'b', "character %lu was changed", i);
            });
        }
    if (G.thorough)
        huge_case(4 * GB, "Vernam of 2 GiB - 1 letters", []() {
            u64 n = 2 * GB - 1;
            Huge m(n + 1), k(n);
            memset(m, 'b', n); memset(k, 'C', n); k[n - 1] = 'D';
            step("Vernam");
            CHECK(v_vernam_encrypt((char*)(u8*)m, (const char*)(u8*)k, (int32_t)n), "refused");
            for (u64 i = 0; i < n; ++i) CHECK(m[i] == (i == n - 1 ? 'e' : 'd'), "character %lu is %c", i, m[i]);
        });
    // JSON
    huge_case(4 * GB + 100, "JSON lookup behind a member of more than 4 GiB", []() {
        u64 n = 4 * GB + 3;
        Str a = "{\"p\":\"", b = "\",\"k\":\"x\"}";
        Huge t(a.size() + n + b.size() + 1);
        memset(t, 'v', t.n - 1); memcpy(t, a.data(), a.size()); memcpy(t + a.size() + n, b.data(), b.size());
        t.readonly();
        char* v = cbuf(4);
        step("lookup");
        CHECK(v_json_find((const char*)t.p, t.n, "k", v, 4) && !strcmp(v, "x"), "the value behind 4 GiB was not delivered");
        step("lookup of a value that does not fit");
        CHECK(!v_json_find((const char*)t.p, t.n, "p", v, 4), "a value of more than 4 GiB was delivered into 4 bytes");
    });
    huge_case(8 * GB + 200, "JSON lookup of a value of more than 4 GiB", []() {
        u64 n = 4 * GB + 3;
        Str a = "{\"p\":\"", b = "\"}";
        Huge t(a.size() + n + b.size() + 1), v(n + 1);
        memset(t, 'v', t.n - 1); memcpy(t, a.data(), a.size()); memcpy(t + a.size() + n, b.data(), b.size()); t[t.n - 1] = 0;
        t[a.size() + n - 1] = 'w';
        step("lookup");
        CHECK(v_json_find((const char*)t.p, t.n, "p", (char*)v.p, n + 1), "not delivered");
        for (u64 i = 0; i < n; ++i) CHECK(v[i] == (i == n - 1 ? 'w' : 'v'), "character %lu of the value is wrong", i);
        CHECK(v[n] == 0, "the value is not terminated");
    });
    huge_case(4 * GB + 200, "JSON lookup of a name that is 4 GiB longer", []() {
        u64 n = 4 * GB + 2;
        Huge k(n + 1);
        memset(k, 'n', n);
        const char* t = instr("{\"nn\":\"x\"}");
        char* v = cbuf(8);
        step("lookup");
        CHECK(!v_json_find(t, 11, (const char*)k.p, v, 8), "a name of 4 GiB and 2 characters was found in a text of ten");
    });
    huge_case(8 * GB + 200, "JSON text with a value of more than 4 GiB", []() {
        u64 n = 4 * GB + 7;
        Huge v(n + 1);
        memset(v, 'v', n);
        v.readonly();
        char* small = cbuf(20);
        step("start"); CHECK(v_json_start(small, 20), "start refused");
        step("add"); CHECK(!v_json_add(small, 20, "a", (const char*)v.p) && !strcmp(small, "{"), "a value of more than 4 GiB was accepted into 20 bytes");
        Str a = "{\"a\":\"", b = "\",\"b\":\"c\"}";
        u64 all = a.size() + n + b.size() + 1;
        for (u64 less : {(u64)1, (u64)0}) {
            Huge t(all - less);
            step("start"); CHECK(v_json_start((char*)t.p, t.n), "start refused");
            step("add"); CHECK(v_json_add((char*)t.p, t.n, "a", (const char*)v.p), "a pair that fits was refused");
            step("add"); CHECK(v_json_add((char*)t.p, t.n, "b", "c"), "a pair that fits was refused");
            step("end"); CHECK(v_json_end((char*)t.p, t.n) == !less, "the end was %s", less ? "accepted" : "refused");
            CHECK(!memcmp(t, a.data(), a.size()) && !memcmp(t + a.size() + n, b.data(), b.size() - less), "the text is wrong");
            for (u64 i = 0; i < n; ++i) CHECK(t[a.size() + i] == 'v', "character %lu of the value is wrong", i);
            if (!G.thorough) break;
        }
    });
    // Base64
    huge_case(6 * GB + 4 * GB, "Base64 of more than 4 GiB", []() {
        u64 n = 4 * GB + 7, len = (n + 2) / 3 * 4;
        Huge in(n), t(len + 1), out(n);
        madvise(in.base, in.all, MADV_NOHUGEPAGE);
        std::vector<u64> where;
        for (u64 i = 0; i < n; i += 96 * M + 3) where.push_back(i);
        for (u64 e : {2 * GB, 3 * GB, 4 * GB, n}) for (u64 i = e - 3; i < e + 3 && i < n; ++i) where.push_back(i);
        for (u64 i : where) in[i] = (u8)(1 + i % 251);
        step("encode");
        CHECK(v_b64_encode((const char*)in.p, n, (char*)t.p, len + 1) == 0, "encoding refused");
        CHECK(t[len] == 0, "not terminated");
        auto expect = [&](u64 g) {  // group of four characters
            u8 b[3]; int k = 0;
            for (; k < 3 && 3 * g + k < n; ++k) b[k] = in[3 * g + k];
            for (int i = k; i < 3; ++i) b[i] = 0;
            const char* al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
            char c[4] = {al[b[0] >> 2], al[(b[0] & 3) << 4 | b[1] >> 4], k > 1 ? al[(b[1] & 15) << 2 | b[2] >> 6] : '=', k > 2 ? al[b[2] & 63] : '='};
            CHECK(!memcmp(t + 4 * g, c, 4), "group %lu of the text is %.4s instead of %.4s", g, t + 4 * g, c);
        };
        for (u64 i : where) expect(i / 3);
        u64 odd = 0, groups = 0, last = ~0ULL;
        for (u64 i = 0; i < len / 4; ++i) { u32 w; memcpy(&w, t + 4 * i, 4); odd += w != 0x41414141; }
        std::sort(where.begin(), where.end());
        for (u64 i : where) if (i / 3 != last) { last = i / 3; ++groups; }
        CHECK(odd == groups || odd == groups + 1, "%lu groups are not AAAA instead of %lu", odd, groups);
        step("decode");
        CHECK(v_b64_decode((const char*)t.p, len, out, n) == 0, "decoding refused");
        for (u64 i : where) CHECK(out[i] == in[i], "byte %lu is %u instead of %u after decoding", i, out[i], in[i]);
        u64 a = 0, b = 0;
        for (u64 i = 0; i < n; ++i) { a += in[i] != 0; b += out[i] != 0; }
        CHECK(a == b, "decoding set %lu bytes instead of %lu", b, a);
        step("encode into too little"); CHECK(v_b64_encode((const char*)in.p, n, (char*)t.p, len - 4 * GB + 1) != 0, "the text of %lu characters was accepted into %lu bytes", len, len - 4 * GB + 1);
    });
}

// A register after n zero bytes, by squaring the linear step of one zero byte.
static u32 zeros(u32 reg, u64 n, int width, u32 poly, bool refl) {
    u32 mask = width == 32 ? 0xFFFFFFFFu : (1u << width) - 1, rp = 0;
    for (int i = 0; i < width; ++i) if (poly >> i & 1) rp |= 1u << (width - 1 - i);
    u32 mat[32], t[32];
    auto byte = [&](u32 r) {
        for (int k = 0; k < 8; ++k) r = refl ? (r >> 1) ^ (r & 1 ? rp : 0) : ((r << 1) ^ (r >> (width - 1) & 1 ? poly : 0)) & mask;
        return r;
    };
    auto times = [&](const u32* m, u32 r) { u32 x = 0; for (int i = 0; i < width; ++i) if (r >> i & 1) x ^= m[i]; return x; };
    for (int i = 0; i < width; ++i) mat[i] = byte(1u << i);
    for (; n; n >>= 1) {
        if (n & 1) reg = times(mat, reg);
        for (int i = 0; i < width; ++i) t[i] = times(mat, mat[i]);
        memcpy(mat, t, sizeof t);
    }
    return reg;
}
static u32 crc_ref(const v_crc_t& c, const Str& head, u64 nz, const Str& tail) {
    u32 mask = c.width == 32 ? 0xFFFFFFFFu : (1u << c.width) - 1;
    auto rev = [&](u32 v) { u32 x = 0; for (int i = 0; i < c.width; ++i) if (v >> i & 1) x |= 1u << (c.width - 1 - i); return x; };
    u32 r = c.refl ? rev(c.init) : c.init;
    auto feed = [&](const Str& s) { for (u8 b : s) r = zeros(c.refl ? r ^ b : r ^ ((u32)b << (c.width - 8) & mask), 1, c.width, c.poly, c.refl); };
    feed(head);
    r = zeros(r, nz, c.width, c.poly, c.refl);
    feed(tail);
    return (r ^ c.xorout) & mask;
}
UNIT(huge_stream) {
    std::vector<u64> v = {2 * GB + 5};
    if (G.thorough) v.insert(v.end(), {2 * GB - 1, 2 * GB, 2 * GB + 1, 3 * GB + 5, 4 * GB - 1});
    for (u64 n : v) {
        bool seen[3][2] = {{false}};
        for (int i = 0; i < v_crc_count; ++i) {
            const v_crc_t& c = v_crcs[i];
            bool& s = seen[c.width / 8 == 4 ? 2 : c.width / 8 - 1][c.refl];
            if (s && !G.deep) continue;
            s = true;
            huge_case(64 * M, fmt("%s of %lu bytes", c.name, n), [=]() {
                Str head = "first bytes \x81", tail = "\xFElast bytes";
                Huge d(n);  // pages that are only read take no memory
                madvise(d.base, d.all, MADV_NOHUGEPAGE);
                memcpy(d, head.data(), head.size()); memcpy(d + n - tail.size(), tail.data(), tail.size());
                step("check word of the reference");
                CHECK(crc_ref(c, "12345", 0, "6789") == c.check, "the reference is wrong");
                step("CRC");
                u32 got = c.call(d, (u32)n, true, nullptr), want = crc_ref(c, head, n - head.size() - tail.size(), tail);
                CHECK(got == want, "%08x instead of %08x", got, want);
            });
        }
        huge_case(n, fmt("ChaCha20 of %lu bytes", n), [=]() {
            Huge p(n), r(n);
            madvise(p.base, p.all, MADV_NOHUGEPAGE);
            p[0] = 1; p[n - 1] = 2;
            Str key(32, 'k'), nonce(12, 'n');
            const u8* k = inbuf(key.data(), 32); const u8* o = inbuf(nonce.data(), 12);
            u32 inc = 0xFF000000u;  // the counter passes its 32 bits on the way
            step("ChaCha20");
            v_chacha(p, (u32)n, k, o, inc, r);
            u64 blocks = (n + 63) / 64;
            u8* one = buf(64);
            for (u64 b = 0; b < blocks; b = b + 9 < blocks && b >= 9 && !(b > 2 * GB / 64 - 10 && b < 2 * GB / 64 + 10) ? std::min(b + 4099, blocks - 9) : b + 1) {
                u64 m = std::min<u64>(64, n - 64 * b);
                tick();
                v_chacha(p + 64 * b, (u32)m, k, o, inc + (u32)b, one);
                CHECK(!memcmp(one, r + 64 * b, m), "block %lu differs from the same block encrypted alone", b);
            }
        });
    }
}
