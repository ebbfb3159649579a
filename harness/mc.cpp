#include "mc.hpp"
#include <csignal>
#include <cerrno>
#include <link.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <map>

Ctx G;
std::function<Str()> g_where;

extern "C" {
void __asan_poison_memory_region(void const volatile*, size_t) __attribute__((weak));
void __asan_unpoison_memory_region(void const volatile*, size_t) __attribute__((weak));
void* __asan_region_is_poisoned(void*, size_t) __attribute__((weak));
void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
void __msan_unpoison(void const volatile*, size_t) __attribute__((weak));
void __msan_poison(void const volatile*, size_t) __attribute__((weak));
intptr_t __msan_test_shadow(void const volatile*, size_t) __attribute__((weak));
}
static bool asan() { return __asan_poison_memory_region != nullptr; }

// ---------------------------------------------------------------- cases
static const u64 CHUNK = 512;
bool take() {
    u64 c = G.caseno++;
    if (G.only >= 0) {
        if ((int64_t)c != G.only) return false;
        G.tracing = true;
    } else if (c % G.nshards != G.shard) return false;
    G.cur = c;
    ++G.cases;
    G.ticks = G.ticks + 1;
    G.dfmt = nullptr;
    G.want = G.samples.size() < 4 && (G.cases == 2 || G.cases % 37 == 5);
    return true;
}
static u64 hang_limit = 60;  // CPU seconds without progress
static Str where();
void case_done() {
    if (G.want && G.dfmt) {
        auto w = std::move(g_where);  // only the description of the last inner iteration
        g_where = nullptr;
        G.samples.push_back(fmt("case %llu ended with: ", (unsigned long long)G.cur) + where());
        g_where = std::move(w);
    }
    if (G.hashlog) {
        fprintf(G.hashlog, "%llu %016llx\n", (unsigned long long)G.cur, (unsigned long long)G.h);
        G.h = 1469598103934665603ULL;
    }
}
static Str where() {
    Str r;
    if (G.dfmt) {
        char b[400];
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wformat-nonliteral"
        snprintf(b, sizeof b, G.dfmt, (unsigned long long)G.d[0], (unsigned long long)G.d[1], (unsigned long long)G.d[2],
                 (unsigned long long)G.d[3], (unsigned long long)G.d[4], (unsigned long long)G.d[5]);
#pragma GCC diagnostic pop
        r = b;
    }
    if (g_where) { Str w = g_where(); r += (r.empty() ? "" : " | ") + w; }
    if (r.size() > 6000) r = r.substr(0, 6000) + "...";
    return r;
}
static Str oneline(const Str& s) {
    Str r;
    for (char c : s) r += (c == '\n' || c == '\r') ? ' ' : c;
    return r;
}
void failv(Cls c, const char* f, ...) {
    if ((c == FUNC && !G.judge_func) || (c == MEM && !G.judge_mem) || (c == RULE && !G.judge_rule)) {
        ++G.ignored;
        throw Abort();
    }
    char b[4000];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    printf("FAIL\t%s\t%s\t%llu\t%s\n", c == FUNC ? "func" : c == MEM ? "mem" : "rule", G.unit, (unsigned long long)G.cur,
           oneline(Str(b) + " [" + where() + "]").c_str());
    fflush(stdout);
    _exit(1);
}
void sample(const char* f, ...) {
    G.want = false;
    char b[600];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    G.samples.push_back(fmt("case %llu, ", (unsigned long long)G.cur) + oneline(b));
}
void note(const char* f, ...) {
    if (!G.tracing) return;
    va_list ap;
    va_start(ap, f);
    printf("NOTE\t");
    vprintf(f, ap);
    printf("\n");
    va_end(ap);
}
static void dying(const char* what) {
    static int once;
    if (once++) return;
    // Best effort description; the case number alone is enough for a replay.
    char b[200];
    int n = snprintf(b, sizeof b, "%s\t%s\t%llu\t", what, G.unit, (unsigned long long)G.cur);
    if (write(1, b, (size_t)n) < 0) { }
    Str w = oneline(where());
    if (write(1, w.data(), w.size()) < 0) { }
    if (write(1, "\n", 1) < 0) { }
}
static void on_asan_death() { dying("CRASH"); }
static void on_signal(int s) {
    (void)s;
    dying("CRASH");
    _exit(77);
}
static u64 last_ticks;
static int stale;
static void on_prof(int) {
    if (G.ticks != last_ticks) { last_ticks = G.ticks; stale = 0; return; }
    if (++stale < (int)hang_limit) return;
    dying("HANG");
    _exit(78);
}

// Memory of the explorer that is used again is not watched, whatever was copied there before.
extern "C" void __sanitizer_malloc_hook(const volatile void* p, size_t n) {
    if (__msan_unpoison) __msan_unpoison(p, n);
}

void obs(const void* p, size_t n) {
    if (__builtin_expect(__msan_test_shadow != nullptr, 0)) {
        intptr_t k = n ? __msan_test_shadow(p, n) : -1;
        if (k >= 0) failv(RULE, "byte %zd of %zu delivered was never given a value", (ssize_t)k, n);
    }
    if (!G.hashing) return;
    const u8* b = (const u8*)p;
    u64 h = G.h;
    for (size_t i = 0; i < n; ++i) h = (h ^ b[i]) * 1099511628211ULL;
    G.h = h ^ (h >> 31) ^ n;
}

// ---------------------------------------------------------------- arena
static const size_t ARENA = 96u << 20;
static u8* arena;
static u8* arena_ro;  // the same memory once more, not writable: this is where the library sees its input-only buffers
static size_t top;
struct Ext { size_t off, n, end; bool input; size_t copy; };
static std::vector<Ext> exts;
static std::vector<u8> copies;
static const size_t GAP = 64;
static u8 canary(size_t off) { return (u8)(0x5A ^ (off * 37)); }

static void arena_init() {
    int fd = memfd_create("arena", MFD_CLOEXEC);
    if (fd >= 0 && ftruncate(fd, ARENA) == 0) {
        arena = (u8*)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_NORESERVE, fd, 0);
        arena_ro = (u8*)mmap(nullptr, ARENA, PROT_READ, MAP_SHARED | MAP_NORESERVE, fd, 0);
        close(fd);
    } else {
        arena = arena_ro = (u8*)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    }
    if (arena == MAP_FAILED || arena_ro == MAP_FAILED) { perror("mmap"); _exit(99); }
    exts.reserve(64);
    if (asan()) { __asan_poison_memory_region(arena, ARENA); __asan_poison_memory_region(arena_ro, ARENA); }
}
u8* buf(size_t n, int fill, size_t mis) {
    size_t off = ((top + GAP + 63) & ~(size_t)63) + mis;
    // Larger gaps behind larger buffers: an error in a stride then still lands in a gap.
    size_t gap = GAP + (n < 4096 ? n : 4096);
    size_t end = (off + n + gap + 63) & ~(size_t)63;
    if (end > ARENA) { fprintf(stderr, "arena exhausted\n"); _exit(99); }
    u8* p = arena + off;
    if (asan()) {
        __asan_unpoison_memory_region(p, n);
        memset(p, fill, n);
    } else {
        for (size_t i = top; i < off; ++i) arena[i] = canary(i);
        memset(p, fill, n);
        for (size_t i = off + n; i < end; ++i) arena[i] = canary(i);
    }
    exts.push_back({off, n, end, false, 0});
    top = end;
    return p;
}
u8* inbuf(const void* data, size_t n, size_t mis) {
    u8* p = buf(n, 0, mis);
    if (n) memcpy(p, data, n);
    Ext& e = exts.back();
    e.input = true;
    e.copy = copies.size();
    copies.insert(copies.end(), (const u8*)data, (const u8*)data + n);
    p = arena_ro + e.off;
    if (asan()) __asan_unpoison_memory_region(p, n);
    return p;
}
static void verify_from(size_t first) {
    for (size_t i = first; i < exts.size(); ++i) {
        const Ext& e = exts[i];
        if (e.input && e.n && memcmp(arena + e.off, &copies[e.copy], e.n) != 0)
            FAILMEM("an input-only buffer of %zu bytes was changed", e.n);
        if (!asan()) {
            size_t before = i ? exts[i - 1].end : 0;
            for (size_t j = before; j < e.off; ++j)
                if (arena[j] != canary(j)) FAILMEM("byte %zd in front of a %zu byte buffer was overwritten", (ssize_t)(e.off - j), e.n);
            for (size_t j = e.off + e.n; j < e.end; ++j)
                if (arena[j] != canary(j)) FAILMEM("byte %zu behind a %zu byte buffer was overwritten", j - e.off - e.n, e.n);
        }
    }
}
void arena_verify() { verify_from(0); }
size_t arena_mark() { return exts.size(); }
void arena_release(size_t mark) {
    struct Undo {
        size_t mark;
        ~Undo() {
            if (mark >= exts.size()) return;
            size_t ntop = mark ? exts[mark - 1].end : 0;
            if (asan()) { __asan_poison_memory_region(arena + ntop, top - ntop); __asan_poison_memory_region(arena_ro + ntop, top - ntop); }
            size_t c = copies.size();
            for (size_t i = exts.size(); i-- > mark;) if (exts[i].input) c = exts[i].copy;
            copies.resize(c);
            exts.resize(mark);
            top = ntop;
        }
    } u{mark};
    verify_from(mark);
}
void arena_end() { arena_release(0); }
bool readable(const void* p, size_t n) {
    if (!asan()) return true;
    return __asan_region_is_poisoned((void*)p, n) == nullptr;
}

// ---------------------------------------------------------------- library segments
static int phdr_cb(struct dl_phdr_info* info, size_t, void* out) {
    if (!info->dlpi_name || !strstr(info->dlpi_name, "libim_")) return 0;
    auto* v = (std::vector<Region>*)out;
    uintptr_t rs = 0, re = 0;
    for (int i = 0; i < info->dlpi_phnum; ++i)
        if (info->dlpi_phdr[i].p_type == PT_GNU_RELRO) {
            rs = info->dlpi_addr + info->dlpi_phdr[i].p_vaddr;
            re = (rs + info->dlpi_phdr[i].p_memsz + 4095) & ~(uintptr_t)4095;
        }
    for (int i = 0; i < info->dlpi_phnum; ++i) {
        const auto& p = info->dlpi_phdr[i];
        if (p.p_type != PT_LOAD || !(p.p_flags & PF_W)) continue;
        uintptr_t s = info->dlpi_addr + p.p_vaddr, e = s + p.p_memsz;
        if (re > s && rs <= s) s = re;
        s = (s + 7) & ~(uintptr_t)7;
        e = (e + 7) & ~(uintptr_t)7;  // still within the page
        if (s < e) v->push_back({(u8*)s, e - s});
    }
    return 0;
}
const std::vector<Region>& lib_rw() {
    static std::vector<Region> v;
    static bool done;
    if (!done) { done = true; dl_iterate_phdr(phdr_cb, &v); }
    return v;
}
// Volatile byte loops: the regions contain poisoned red zones under the sanitizer.
Str lib_rw_save() {
    Str s;
    for (const Region& r : lib_rw())
        for (size_t i = 0; i < r.n; ++i) s += (char)((volatile u8*)r.p)[i];
    return s;
}
void lib_rw_load(const Str& s) {
    size_t k = 0;
    for (const Region& r : lib_rw())
        for (size_t i = 0; i < r.n; ++i, ++k)
            if (((volatile u8*)r.p)[i] != (u8)s[k]) ((volatile u8*)r.p)[i] = (u8)s[k];
}
static Str rw0;
// The difference to the initial content, word by word (no library calls: they would object to red zones).
typedef u64 __attribute__((may_alias)) word;
static void rw_diff(Str& out) {
    size_t k = 0;
    for (const Region& r : lib_rw()) {
        size_t i = 0;
        for (; i + 8 <= r.n; i += 8, k += 8) {
            u64 x = *(const word*)(r.p + i), y;
            memcpy(&y, rw0.data() + k, 8);
            if (__builtin_expect(x != y, 0)) { u32 o = (u32)k; out.append((const char*)&o, 4); out.append((const char*)&x, 8); }
        }
        k += r.n - i;  // segments end at word boundaries
    }
}
static void rw_apply(const char* d, size_t n) {
    size_t k = 0, q = 0;
    for (const Region& r : lib_rw()) {
        size_t i = 0;
        for (; i + 8 <= r.n; i += 8, k += 8) {
            u64 want;
            u32 o = ~0u;
            if (q + 12 <= n) memcpy(&o, d + q, 4);
            if (o == (u32)k) { memcpy(&want, d + q + 4, 8); q += 12; }
            else memcpy(&want, rw0.data() + k, 8);
            if (__builtin_expect(*(const word*)(r.p + i) != want, 0)) *(volatile word*)(r.p + i) = want;
        }
        k += r.n - i;
    }
}
static bool rw_same() { Str d; rw_diff(d); return d.empty(); }
// Where the memory is watched for bytes without a value, a state also tells which ones these are, and its bytes are
// plain: what is compared is the state, and padding which an assignment of a whole object leaves unset is no error.
static void unset_save(const std::vector<Region>& regions, Str& out) {
    Str runs;
    u32 count = 0, base = 0;
    for (const Region& r : regions) {
        for (size_t i = 0; i < r.n;) {
            intptr_t k = __msan_test_shadow(r.p + i, r.n - i);
            if (k < 0) break;
            u32 from = (u32)(i + (size_t)k), to = from + 1;
            while (to < r.n && __msan_test_shadow(r.p + to, 1) == 0) ++to;
            u32 run[2] = {base + from, to - from};
            runs.append((const char*)run, 8);
            ++count;
            i = to;
        }
        base += (u32)r.n;
    }
    __msan_unpoison(out.data(), out.size());
    out.append((const char*)&count, 4);
    out += runs;
}
static size_t unset_load(const std::vector<Region>& regions, const char* d) {
    u32 count;
    memcpy(&count, d, 4);
    for (u32 c = 0; c < count; ++c) {
        u32 run[2];
        memcpy(run, d + 4 + 8 * c, 8);
        for (const Region& r : regions) {
            if (run[0] < r.n) { __msan_poison(r.p + run[0], run[1]); break; }
            run[0] -= (u32)r.n;
        }
    }
    return 4 + 8 * (size_t)count;
}
Str Snapshotter::save() const {
    Str s;
    size_t n = 0;
    for (const Region& r : regions) n += r.n;
    s.reserve(n + 64);  // no copy with unset bytes stays behind
    for (const Region& r : regions) s.append((const char*)r.p, r.n);
    if (__msan_test_shadow) unset_save(regions, s);
    rw_diff(s);
    return s;
}
void Snapshotter::load(const Str& s) const {
    size_t k = 0;
    for (const Region& r : regions) { memcpy(r.p, s.data() + k, r.n); k += r.n; }
    if (__msan_test_shadow) k += unset_load(regions, s.data() + k);
    rw_apply(s.data() + k, s.size() - k);
}

// ---------------------------------------------------------------- border between explorer and library
volatile int v_inside;  // calls of the library in progress
// Steps of the library (basic blocks entered), in builds that count them.
u64 v_steps, v_steps_most, v_steps_limit = ANY_CALL;
extern "C" void __sanitizer_cov_trace_pc() {
    if (__builtin_expect(++v_steps > v_steps_limit, 0) && v_steps_limit) {
        u64 l = v_steps_limit;
        v_steps_limit = 0;
        failv(RULE, "a call has not returned after %llu steps", (unsigned long long)l);
    }
}
// Standard functions work eight bytes a step.
static void steps(size_t bytes) {
    v_steps += bytes / 8;
    __sanitizer_cov_trace_pc();
}
extern "C" {
void* __wrap_memcpy(void* a, const void* b, size_t n) { steps(n); return memcpy(a, b, n); }
void* __wrap_memmove(void* a, const void* b, size_t n) { steps(n); return memmove(a, b, n); }
void* __wrap_memset(void* a, int b, size_t n) { steps(n); return memset(a, b, n); }
int __wrap_memcmp(const void* a, const void* b, size_t n) { steps(n); return memcmp(a, b, n); }
void* __wrap_memchr(const void* a, int b, size_t n) { void* r = (void*)memchr(a, b, n); steps(r ? (size_t)((u8*)r - (u8*)a) : n); return r; }
size_t __wrap_strlen(const char* a) { size_t n = strlen(a); steps(n); return n; }
int __wrap_strcmp(const char* a, const char* b) { size_t n = strlen(a), m = strlen(b); steps(n < m ? n : m); return strcmp(a, b); }
int __wrap_strncmp(const char* a, const char* b, size_t n) { size_t k = strnlen(a, n), m = strnlen(b, n); steps(k < m ? k : m); return strncmp(a, b, n); }
char* __wrap_strchr(const char* a, int b) { char* r = (char*)strchr(a, b); steps(r ? (size_t)(r - a) : strlen(a)); return r; }
char* __wrap_strstr(const char* a, const char* b) { char* r = (char*)strstr(a, b); steps(r ? (size_t)(r - a) : strlen(a)); return r; }
}
extern "C" void v_enter() {
    v_inside = v_inside + 1;
    if (v_inside == 1) v_steps = 0;
    // Called from inside a call: the frames of the explorer in between hold what they hold.
    if (__msan_unpoison && v_inside > 1) __msan_unpoison(__builtin_frame_address(0), 4096);
}
extern "C" void v_leave(int*) {
    if (v_inside > 0) v_inside = v_inside - 1;
    if (v_inside == 0) { if (v_steps > v_steps_most) v_steps_most = v_steps; v_steps = 0; }
    // The explorer is not instrumented: what the library's frames leave behind means nothing to it.
    if (__msan_unpoison) { u8* sp = (u8*)__builtin_frame_address(0); __msan_unpoison(sp - 16384, 16384); }
}
// Called by the allocator of builds that have one of their own: who is the address of the caller.
static const Region& lib_code() {
    static Region r = {nullptr, 0};
    static bool done;
    if (!done) {
        done = true;
        dl_iterate_phdr([](struct dl_phdr_info* i, size_t, void*) {
            if (!i->dlpi_name || !strstr(i->dlpi_name, "libim_")) return 0;
            for (int k = 0; k < i->dlpi_phnum; ++k)
                if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_X)) r = {(u8*)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr), i->dlpi_phdr[k].p_memsz};
            return 0;
        }, nullptr);
    }
    return r;
}
u64 v_allocs;  // requests for memory made by the library itself
extern "C" void v_allocating(const void* who) {
    if (v_inside <= 0) return;
    const u8* p = (const u8*)who;
    const int in = v_inside;
    v_inside = 0;
    const Region& r = lib_code();
    bool ours = p >= r.p && p < r.p + r.n;
    if (!ours) {  // from inside the C library, on behalf of the library under test?
        struct Q { const u8* p; bool libc; } q = {p, false};
        dl_iterate_phdr([](struct dl_phdr_info* i, size_t, void* o) {
            Q* z = (Q*)o;
            for (int k = 0; k < i->dlpi_phnum; ++k) {
                const u8* s = (const u8*)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr);
                if (i->dlpi_phdr[k].p_type == PT_LOAD && z->p >= s && z->p < s + i->dlpi_phdr[k].p_memsz) z->libc = i->dlpi_name && strstr(i->dlpi_name, "libc.so");
            }
            return 0;
        }, &q);
        ours = q.libc;
    }
    if (ours) { ++v_allocs; failv(RULE, "a call asked for dynamic memory"); }
    v_inside = in;
}

// ---------------------------------------------------------------- text
Str hex(const void* p, size_t n, size_t max) {
    static const char* d = "0123456789abcdef";
    Str r;
    for (size_t i = 0; i < n && i < max; ++i) { r += d[((const u8*)p)[i] >> 4]; r += d[((const u8*)p)[i] & 15]; }
    if (n > max) r += "..";
    return r;
}
Str quote(const Str& s) {
    Str r = "'";
    for (unsigned char c : s) {
        if (c >= 32 && c < 127) r += (char)c; else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; }
        if (r.size() > 300) { r += ".."; break; }
    }
    return r + "'";
}
Str fmt(const char* f, ...) {
    char b[1000];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}
void report_bfs(const char* what, u64 states, u64 trans, u64 depth, bool complete) {
    if (G.notes.size() < 200)
        G.notes.push_back(fmt("%s: %llu states, %llu transitions, depth %llu, %s", what, (unsigned long long)states,
                              (unsigned long long)trans, (unsigned long long)depth,
                              complete ? "complete state space" : "bounded"));
}

static std::vector<u32> make_words() {
    std::vector<u32> v;
    auto add = [&](u32 x) { for (u32 y : v) if (y == x) return; v.push_back(x); };
    add(0); add(~0u);
    for (int i = 0; i < 32; ++i) add(1u << i);
    for (int i = 0; i < 32; ++i) add(~(1u << i));
    for (int i = 0; i < 32; ++i) add((1u << i) - 1);
    for (u32 x : {0x12345678u, 0x87654321u, 0xA5A5A5A5u, 0x5A5A5A5Au, 0x0F0F0F0Fu, 0xDEADBEEFu, 0x01020304u, 0x80808080u,
                  0x7F7F7F7Fu, 0xFF00FF00u, 0x00FF00FFu, 0xFFFF0000u, 0xC3C3C3C3u, 0x33333333u, 0x9E3779B9u}) add(x);
    return v;
}
const std::vector<u32> WORDS = make_words();
const std::vector<u32>& edge_sizes() {
    static const std::vector<u32> v = {1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300};
    return v;
}

// ---------------------------------------------------------------- main
static std::map<Str, UnitFn>& units() {
    static std::map<Str, UnitFn> m;
    return m;
}
Reg::Reg(const char* n, UnitFn f) { units()[n] = f; }

int main(int argc, char** argv) {
    Str unit, hashlog;
    for (int i = 1; i < argc; ++i) {
        Str a = argv[i];
        auto val = [&]() { return Str(argv[++i]); };
        if (a == "--unit") unit = val();
        else if (a == "--shard") { Str v = val(); sscanf(v.c_str(), "%llu/%llu", (unsigned long long*)&G.shard, (unsigned long long*)&G.nshards); }
        else if (a == "--level") { int l = atoi(argv[++i]); G.thorough = l >= 1; G.deep = l >= 2; }
        else if (a == "--no-func") G.judge_func = false;
        else if (a == "--no-mem") G.judge_mem = false;
        else if (a == "--rule") G.judge_func = G.judge_mem = false;
        else if (a == "--only") G.only = atoll(argv[++i]);
        else if (a == "--hang") hang_limit = (u64)atoll(argv[++i]);
        else if (a == "--hash") { hashlog = val(); G.hashing = true; G.judge_func = G.judge_mem = G.judge_rule = false; }
        else if (a == "--list") { for (auto& u : units()) puts(u.first.c_str()); return 0; }
        else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 99; }
    }
    if (!units().count(unit)) { fprintf(stderr, "no unit %s\n", unit.c_str()); return 99; }
    G.unit = strdup(unit.c_str());
    if (!hashlog.empty()) { G.hashlog = fopen(hashlog.c_str(), "w"); if (!G.hashlog) return 99; }
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_asan_death);
    else {
        static u8 stack[1 << 16];
        stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = stack; ss.ss_size = sizeof stack;
        sigaltstack(&ss, nullptr);
        struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK;
        for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
    }
    struct sigaction sp; memset(&sp, 0, sizeof sp); sp.sa_handler = on_prof; sp.sa_flags = SA_RESTART | SA_ONSTACK;
    sigaction(SIGPROF, &sp, nullptr);
    struct itimerval it = {{1, 0}, {1, 0}};
    setitimer(ITIMER_PROF, &it, nullptr);
    arena_init();
    if (lib_rw().empty()) { /* a library without writable data: nothing to track */ }
    rw0 = lib_rw_save();
    units()[unit]();
    try { arena_end(); } catch (Abort&) { }
    if (G.hashlog) fclose(G.hashlog);
    for (auto& n : G.notes) printf("INFO\t%s\n", n.c_str());
    for (auto& n : G.samples) printf("SAMPLE\t%s\n", n.c_str());
    printf("DONE\t%s\tcases=%llu calls=%llu states=%llu ignored=%llu rw=%d\n", G.unit, (unsigned long long)G.cases,
           (unsigned long long)G.calls, (unsigned long long)G.states, (unsigned long long)G.ignored, rw_same() ? 0 : 1);
    return 0;
}
