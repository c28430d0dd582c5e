// Explicit-state model checker over real code (in the style of CMC): the implementation itself is the
// transition relation. A state is the content of a fixed-address arena (everything the code under test and
// the driver allocate, with ASan shadow) plus the writable globals of the driver's shared object. States are
// saved, restored and hashed; a breadth-first search enumerates every choice vector of every transition.
#include <cerrno>
#include <chrono>
#include <csetjmp>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <elf.h>
#include <fcntl.h>
#include <iostream>
#include <link.h>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>
#include <sanitizer/asan_interface.h>
#include "mc.hpp"

extern "C" const char* __asan_default_options() {
    return "halt_on_error=0:suppress_equal_pcs=0:symbolize=0:detect_leaks=0:handle_segv=0:handle_abort=0:"
           "handle_sigfpe=0:handle_sigbus=0:handle_sigill=0:allow_user_segv_handler=1:allocator_may_return_null=1:"
           "detect_stack_use_after_return=0:alloc_dealloc_mismatch=0:print_legend=0:print_stats=0:"
           "log_path=/dev/null:detect_odr_violation=0:use_sigaltstack=0:quarantine_size_mb=1:print_cmdline=0";
}

#define NOASAN __attribute__((no_sanitize("address"), noinline))

// ------------------------------------------------------------------ raw memory helpers (not intercepted)
static inline void raw_copy(void* d, const void* s, size_t n) { asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }
static inline void raw_fill(void* d, int v, size_t n) { asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory"); }
static inline unsigned char* shadow_of(uintptr_t a) { return (unsigned char*)((a >> 3) + 0x7fff8000ull); }

// ------------------------------------------------------------------ arena
static const uintptr_t ARENA = 0x200000000000ull;
static const size_t ARENA_SIZE = 64u << 20;
struct Root { uint64_t top, live, live_bytes, magic; void* model; };
struct Blk { uint64_t total; uint64_t user; }; // user == ~0: free
static const uint64_t FREE = ~0ull;
static const size_t ROOT = 64, HDR = 16, RZ = 16;
static bool in_sut = false;
static uint64_t alloc_count = 0; // arena allocations in this step (not state)
static bool arena_ready = false;

NOASAN static void poison_shadow(uintptr_t a, size_t n, unsigned char v) { raw_fill(shadow_of(a), v, n >> 3); }
NOASAN static void arena_reset() {
    Root* r = (Root*)ARENA;
    size_t top = arena_ready ? r->top : 0;
    raw_fill((void*)ARENA, 0, top > ROOT ? top : ROOT);
    poison_shadow(ARENA, top > ROOT ? ((top + 63) & ~63ull) : ROOT, 0xfa);
    r->top = ROOT;
    r->live = r->live_bytes = 0;
    r->model = nullptr;
    r->magic = 0x4d43415245;
    if (!arena_ready) poison_shadow(ARENA, ARENA_SIZE, 0xfa);
    arena_ready = true;
}
NOASAN static void mark_user(uintptr_t u, size_t n) {
    poison_shadow(u, n & ~7ull, 0);
    if (n & 7) *shadow_of(u + (n & ~7ull)) = (unsigned char)(n & 7);
}
NOASAN static void* arena_alloc(size_t n) {
    alloc_count++;
    Root* r = (Root*)ARENA;
    size_t total = (HDR + n + RZ + 15) & ~15ull;
    if (n > ARENA_SIZE / 2) return nullptr;
    uintptr_t p = ARENA + ROOT, end = ARENA + r->top;
    Blk* b = nullptr;
    for (; p < end;) {
        Blk* c = (Blk*)p;
        if (c->user == FREE && c->total >= total) {
            if (c->total >= total + HDR + RZ + 16) {
                Blk* rest = (Blk*)(p + total);
                rest->total = c->total - total;
                rest->user = FREE;
                c->total = total;
            }
            b = c;
            break;
        }
        p += c->total;
    }
    if (!b) {
        if (r->top + total > ARENA_SIZE) return nullptr;
        b = (Blk*)(ARENA + r->top);
        b->total = total;
        r->top += total;
    }
    b->user = n;
    r->live++;
    r->live_bytes += n;
    uintptr_t u = (uintptr_t)b + HDR;
    raw_fill((void*)u, 0xA5, b->total - HDR);
    poison_shadow((uintptr_t)b, b->total, 0xfa);
    mark_user(u, n);
    return (void*)u;
}
static char pending_msg[4096];
static bool pending = false;
static void set_pending(const char* m) {
    if (!pending) snprintf(pending_msg, sizeof pending_msg, "%s", m);
    pending = true;
}
NOASAN static void arena_free(void* ptr) {
    Root* r = (Root*)ARENA;
    uintptr_t u = (uintptr_t)ptr;
    // find the block (linear: also validates the pointer)
    uintptr_t p = ARENA + ROOT, end = ARENA + r->top, prev = 0;
    for (; p < end; p += ((Blk*)p)->total) {
        if (p + HDR == u) break;
        if (p + HDR > u || ((Blk*)p)->total == 0) { p = end; break; }
        prev = p;
    }
    if (p >= end) { set_pending("memory: release of a pointer that is not an allocation"); return; }
    Blk* b = (Blk*)p;
    if (b->user == FREE) { set_pending("memory: double release"); return; }
    r->live--;
    r->live_bytes -= b->user;
    b->user = FREE;
    if (p + b->total < end) {
        Blk* nx = (Blk*)(p + b->total);
        if (nx->user == FREE) b->total += nx->total;
    }
    if (prev && ((Blk*)prev)->user == FREE) {
        ((Blk*)prev)->total += b->total;
        b = (Blk*)prev;
        p = prev;
    }
    if (p + b->total >= end) {
        size_t old = r->top;
        r->top = p - ARENA;
        raw_fill((void*)p, 0, ARENA + old - p);
        poison_shadow(p, ARENA + old - p, 0xfa);
    } else {
        raw_fill((void*)(p + HDR), 0xDD, b->total - HDR);
        poison_shadow(p, b->total, 0xfd);
    }
}
static bool in_arena(const void* p) { return (uintptr_t)p >= ARENA && (uintptr_t)p < ARENA + ARENA_SIZE; }

extern "C" {
void* mc_malloc(size_t n) { return in_sut ? arena_alloc(n) : malloc(n); }
void mc_free(void* p) {
    if (!p) return;
    if (in_arena(p)) arena_free(p);
    else free(p);
}
NOASAN size_t mc_usable(void* p) { return ((Blk*)((uintptr_t)p - HDR))->user; }
void* mc_calloc(size_t a, size_t b) {
    if (!in_sut) return calloc(a, b);
    void* p = arena_alloc(a * b);
    if (p) raw_fill(p, 0, a * b);
    return p;
}
void* mc_realloc(void* p, size_t n) {
    if (!p) return mc_malloc(n);
    if (!in_arena(p)) return realloc(p, n);
    void* q = arena_alloc(n);
    size_t o = mc_usable(p);
    if (q) { raw_copy(q, p, o < n ? o : n); arena_free(p); }
    return q;
}
}
void* operator new(size_t n) {
    void* p = mc_malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return mc_malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return mc_malloc(n ? n : 1); }
void operator delete(void* p) noexcept { mc_free(p); }
void operator delete[](void* p) noexcept { mc_free(p); }
void operator delete(void* p, size_t) noexcept { mc_free(p); }
void operator delete[](void* p, size_t) noexcept { mc_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { mc_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { mc_free(p); }

// ------------------------------------------------------------------ engine state
struct SutOff { bool saved; SutOff() : saved(in_sut) { in_sut = false; } ~SutOff() { in_sut = saved; } };
struct Violation {};
struct Prune {};
struct Cfg { std::string name; int depth; uint64_t max_states; bool leak; void* (*call)(void*); void* ctx; };
static std::vector<Cfg> cfgs;
static int tier = 0;
static std::vector<uint16_t> prefix, taken, arity;
static bool tracing = false, repeating = false;
static std::vector<std::string>* labels = nullptr;
static uint64_t obs_hash = 0;
static std::map<const char*, uint64_t> covers;
static std::string fail_msg, fail_key;
static bool diverged = false;
static char cap_buf[1 << 16];
static size_t cap_len = 0;
static volatile sig_atomic_t step_active = 0;
static volatile uint64_t step_seq = 0;
static sigjmp_buf jb;
static volatile int crash_sig = 0;
static int hang_ticks = 6;

extern "C" {
int mc_tier() { return tier; }
int mc_choose(int n) {
    SutOff off;
    if (n <= 0) { set_pending("driver error: choose(<=0)"); throw Violation{}; }
    size_t i = taken.size();
    int v = 0;
    if (i < prefix.size()) v = prefix[i];
    if (v >= n) {
        diverged = true;
        if (!repeating) fprintf(stderr, "divergence: choice %d of %d\n", v, n);
        v = 0;
    }
    taken.push_back((uint16_t)v);
    arity.push_back((uint16_t)(n > 65535 ? 65535 : n));
    return v;
}
void mc_fail(const char* key, const char* msg) {
    {
        SutOff off;
        fail_msg = msg;
        fail_key = key ? key : "";
        set_pending(msg);
    }
    throw Violation{};
}
void mc_prune() { throw Prune{}; }
void mc_observe(uint64_t v) {
    obs_hash ^= v + 0x9e3779b97f4a7c15ull + (obs_hash << 6) + (obs_hash >> 2);
    obs_hash *= 0xff51afd7ed558ccdull;
    obs_hash ^= obs_hash >> 32;
}
bool mc_tracing() { return tracing; }
void mc_label(const char* t) {
    SutOff off;
    if (labels) labels->push_back(t);
}
void mc_cover(const char* k) {
    SutOff off;
    covers[k]++;
}
uint64_t mc_live_blocks();
NOASAN uint64_t mc_live_blocks() { return ((Root*)ARENA)->live; }
NOASAN uint64_t mc_live_bytes() { return ((Root*)ARENA)->live_bytes; }
uint64_t mc_allocs() { return alloc_count; }
const char* mc_cout(size_t* n) { *n = cap_len; return cap_buf; }
void mc_cout_clear() { cap_len = 0; }
void mc_register(const char* name, int depth, uint64_t ms, int leak, void* (*call)(void*), void* ctx) {
    cfgs.push_back({name, depth, ms, leak != 0, call, ctx});
}
}
struct CapBuf : std::streambuf {
    int overflow(int c) override {
        if (c != EOF && cap_len < sizeof cap_buf) cap_buf[cap_len++] = (char)c;
        return c == EOF ? 0 : c;
    }
    std::streamsize xsputn(const char* s, std::streamsize n) override {
        for (std::streamsize i = 0; i < n && cap_len < sizeof cap_buf; i++) cap_buf[cap_len++] = s[i];
        return n;
    }
};
static CapBuf* capbuf;

static void asan_cb(const char* text) {
    // kind and size of the access, without addresses: replays must say the same
    const char* p = strstr(text, "ERROR: AddressSanitizer: ");
    p = p ? p + 25 : text;
    size_t k = 0;
    while (p[k] && p[k] != '\n' && p[k] != ':' && strncmp(p + k, " on ", 4) && strncmp(p + k, " (0x", 4)) k++;
    char m[400];
    int n = snprintf(m, sizeof m, "memory: %.*s", (int)(k < 200 ? k : 200), p);
    for (const char* w : {"\nREAD of size ", "\nWRITE of size "})
        if (const char* q = strstr(p, w)) {
            snprintf(m + n, sizeof m - n, ", %.*s", (int)(strcspn(q + 1, "\n") < 30 ? strcspn(q + 1, " \n") + 10 : 30), q + 1);
            if (char* at = strstr(m + n, " at ")) *at = 0;
            if (char* nl = strchr(m + n, '\n')) *nl = 0;
        }
    set_pending(m);
}
static void on_crash(int sig) {
    if (!step_active) { signal(sig, SIG_DFL); raise(sig); _exit(99); }
    crash_sig = sig;
    siglongjmp(jb, 1);
}
static void on_tick(int) {
    static uint64_t last = 0;
    static int n = 0;
    if (step_active && last == step_seq) {
        if (++n >= hang_ticks) { n = 0; crash_sig = SIGALRM; siglongjmp(jb, 1); }
    } else { n = 0; last = step_seq; }
}

// ------------------------------------------------------------------ writable globals of the shared object
struct Seg { uintptr_t a; size_t n; };
static std::vector<Seg> segs;
static std::string so_path;
static int phdr_cb(struct dl_phdr_info* i, size_t, void*) {
    if (!i->dlpi_name || so_path != i->dlpi_name) return 0;
    uintptr_t relro_lo = 0, relro_hi = 0;
    for (int k = 0; k < i->dlpi_phnum; k++)
        if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) {
            relro_lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
            relro_hi = (relro_lo + i->dlpi_phdr[k].p_memsz) & ~4095ull;
        }
    for (int k = 0; k < i->dlpi_phnum; k++) {
        auto& p = i->dlpi_phdr[k];
        if (p.p_type == PT_TLS) { fprintf(stderr, "thread-local data in the shared object is not captured\n"); }
        if (p.p_type != PT_LOAD || !(p.p_flags & PF_W)) continue;
        uintptr_t a = i->dlpi_addr + p.p_vaddr, e = a + p.p_memsz;
        if (relro_hi > a && relro_lo < e) a = relro_hi;
        if (a < e) segs.push_back({a, e - a});
    }
    return 0;
}

// ------------------------------------------------------------------ snapshots and fingerprints
// Globals are kept as 256-byte blocks that differ from the state in which the object was loaded.
struct GBlock { uintptr_t a; size_t n; const unsigned char* base; };
static std::vector<GBlock> blocks;
NOASAN static void take_baseline() {
    for (auto& g : segs) {
        unsigned char* copy = (unsigned char*)malloc(g.n);
        raw_copy(copy, (void*)g.a, g.n);
        for (size_t o = 0; o < g.n; o += 256) blocks.push_back({g.a + o, std::min<size_t>(256, g.n - o), copy + o});
    }
}
NOASAN static bool changed(const GBlock& b) {
    const unsigned char *x = (const unsigned char*)b.a, *y = b.base;
    uint64_t d = 0;
    if (b.n == 256) {
        for (int i = 0; i < 32; i++) d |= ((const uint64_t*)x)[i] ^ ((const uint64_t*)y)[i];
    } else
        for (size_t i = 0; i < b.n; i++) d |= x[i] ^ y[i];
    return d != 0;
}
struct Snap {
    uint64_t top = 0;
    std::vector<unsigned char> d;
    std::vector<uint32_t> blk;
    size_t bytes() const { return d.capacity() + blk.capacity() * 4 + sizeof(Snap) + 96; }
};
NOASAN static void save(Snap& s) {
    size_t top = ((Root*)ARENA)->top, sh = (top + 7) >> 3, n = top + sh;
    s.blk.clear();
    for (size_t i = 0; i < blocks.size(); i++)
        if (changed(blocks[i])) { s.blk.push_back(i); n += blocks[i].n; }
    s.top = top;
    s.d.resize(n);
    unsigned char* p = s.d.data();
    raw_copy(p, (void*)ARENA, top); p += top;
    raw_copy(p, shadow_of(ARENA), sh); p += sh;
    for (auto i : s.blk) { raw_copy(p, (void*)blocks[i].a, blocks[i].n); p += blocks[i].n; }
}
NOASAN static void restore(const Snap& s) {
    size_t old = ((Root*)ARENA)->top, top = s.top, sh = (top + 7) >> 3;
    if (old > ARENA_SIZE) old = ARENA_SIZE;
    if (old > top) {
        raw_fill((void*)(ARENA + top), 0, old - top);
        raw_fill(shadow_of(ARENA) + (top >> 3), 0xfa, ((old + 7) >> 3) - (top >> 3));
    }
    const unsigned char* p = s.d.data();
    raw_copy((void*)ARENA, p, top); p += top;
    raw_copy(shadow_of(ARENA), p, sh); p += sh;
    size_t k = 0;
    for (size_t i = 0; i < blocks.size(); i++) {
        auto& b = blocks[i];
        if (k < s.blk.size() && s.blk[k] == i) { raw_copy((void*)b.a, p, b.n); p += b.n; k++; }
        else if (changed(b)) raw_copy((void*)b.a, b.base, b.n);
    }
}
struct FP { uint64_t a, b; bool operator==(const FP& o) const { return a == o.a && b == o.b; } };
NOASAN static void mixrange(const void* v, size_t n, uint64_t& a, uint64_t& b) {
    const unsigned char* p = (const unsigned char*)v;
    while (n >= 8) {
        uint64_t w = *(const uint64_t*)p;
        a = (a ^ w) * 0x9E3779B97F4A7C15ull; a ^= a >> 29;
        b = (b + w) * 0xC2B2AE3D27D4EB4Full; b ^= b >> 31;
        p += 8; n -= 8;
    }
    uint64_t w = 0;
    for (size_t i = 0; i < n; i++) w |= (uint64_t)p[i] << (8 * i);
    a = (a ^ w ^ (n << 60)) * 0x9E3779B97F4A7C15ull; a ^= a >> 29;
    b = (b + w + n) * 0xC2B2AE3D27D4EB4Full; b ^= b >> 31;
}
NOASAN static void mixglobals(uint64_t& a, uint64_t& b) {
    for (size_t i = 0; i < blocks.size(); i++)
        if (changed(blocks[i])) { a ^= i + 1; mixrange((void*)blocks[i].a, blocks[i].n, a, b); }
}
NOASAN static FP fingerprint() {
    uint64_t a = 0x1234567, b = 0x89abcdef;
    mixrange((void*)ARENA, ((Root*)ARENA)->top, a, b);
    mixglobals(a, b);
    a ^= a >> 32; b ^= b >> 32;
    return {a, b};
}

NOASAN static void wipe_stack() {
    volatile char buf[24576];
    raw_fill((void*)buf, 0xC7, sizeof buf);
}

// ------------------------------------------------------------------ running one transition
NOASAN static void set_model(void* m) { ((Root*)ARENA)->model = m; }
NOASAN static mc::Model* get_model() { return (mc::Model*)((Root*)ARENA)->model; }
enum Outcome { OK, PRUNED, VIOL };
static const Cfg* cur;
template <typename F> static Outcome guarded(F f) {
    taken.clear();
    arity.clear();
    pending = false;
    fail_msg.clear();
    fail_key.clear();
    cap_len = 0;
    alloc_count = 0;
    std::cout.clear();
    std::cout.flags(std::ios::skipws | std::ios::dec);
    std::cout.precision(6);
    std::cout.width(0);
    wipe_stack();
    volatile Outcome o = OK;
    crash_sig = 0;
    step_seq++;
    if (sigsetjmp(jb, 0) == 0) {
        step_active = 1;
        try {
            in_sut = true;
            f();
            in_sut = false;
        } catch (Violation&) {
            in_sut = false;
            o = VIOL;
        } catch (Prune&) {
            in_sut = false;
            o = PRUNED;
        } catch (std::exception& e) {
            in_sut = false;
            char m[300];
            snprintf(m, sizeof m, "unexpected exception escaped: %s", e.what());
            set_pending(m);
            o = VIOL;
        } catch (...) {
            in_sut = false;
            set_pending("unexpected exception escaped");
            o = VIOL;
        }
        step_active = 0;
    } else {
        in_sut = false;
        step_active = 0;
        sigset_t ss;
        sigemptyset(&ss);
        sigaddset(&ss, crash_sig);
        sigaddset(&ss, SIGALRM);
        sigprocmask(SIG_UNBLOCK, &ss, nullptr);
        char m[128];
        if (crash_sig == SIGALRM) snprintf(m, sizeof m, "hang: a call did not return");
        else snprintf(m, sizeof m, "crash: signal %d (%s)", (int)crash_sig, strsignal(crash_sig));
        set_pending(m);
        o = VIOL;
    }
    if (pending) o = VIOL;
    if (o == VIOL) {
        fail_msg = pending_msg;
    }
    return o;
}
static Outcome run_make() {
    return guarded([] {
        set_model(cur->call(cur->ctx));
    });
}
static Outcome run_step() {
    return guarded([] { get_model()->step(); });
}
static uint64_t base_live = 0;
static Outcome run_finish() {
    return guarded([] {
        delete get_model();
        if (cur->leak && mc_live_blocks() != base_live) {
            char m[200];
            snprintf(m, sizeof m, "memory: after destroying everything %llu allocations are still held",
                     (unsigned long long)(mc_live_blocks() - base_live));
            set_pending(m);
        }
    });
}

// ------------------------------------------------------------------ search
struct Node { uint32_t parent; uint32_t off; uint16_t len; uint16_t depth; };
struct Result {
    uint64_t states = 0, transitions = 0, pruned = 0, finish_checked = 0, traces_validated = 0, trace_steps = 0;
    uint64_t distinct_obs = 0, fp_mismatch = 0;
    int depth_done = 0, depth_bound = 0;
    bool closed = false, capped = false;
    uint64_t lassos = 0, lasso_steps = 0, lasso_periodic = 0, lasso_cut = 0;
    std::vector<std::string> lasso_done; // stages that were completed
    std::map<std::string, uint64_t> covers;
    std::vector<std::string> samples;
    std::map<std::string, std::string> known; // key -> msg
    bool violated = false;
    std::string vmsg;
    std::vector<std::vector<uint16_t>> vtrace; // [0] = make choices
    bool vfinish = false;
    std::string error;
};
struct FPSet {
    std::vector<FP> t;
    size_t n = 0, mask;
    FPSet() : t(1 << 12, FP{0, 0}), mask((1 << 12) - 1) {}
    bool insert(FP f) {
        if (f.a == 0 && f.b == 0) f.a = 1;
        size_t i = f.a & mask;
        while (t[i].a || t[i].b) {
            if (t[i] == f) return false;
            i = (i + 1) & mask;
        }
        t[i] = f;
        if (++n * 2 > t.size()) {
            std::vector<FP> o(t.size() * 2, FP{0, 0});
            o.swap(t);
            mask = t.size() - 1;
            for (auto& x : o)
                if (x.a || x.b) {
                    size_t k = x.a & mask;
                    while (t[k].a || t[k].b) k = (k + 1) & mask;
                    t[k] = x;
                }
        }
        return true;
    }
};
static Snap pristine;
static std::string esc(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o;
}
static std::set<std::string> known_keys;
static double long_histories = 1; // seconds per stage

static bool advance() { // next choice vector; false when exhausted
    while (!taken.empty()) {
        if (taken.back() + 1 < arity.back()) {
            prefix = taken;
            prefix.back()++;
            return true;
        }
        taken.pop_back();
        arity.pop_back();
    }
    return false;
}

// linear replay from scratch, no snapshot in between; returns outcome of the last step
static Outcome linear(const std::vector<std::vector<uint16_t>>& tr, bool finish, std::vector<std::string>* lab, FP* fp, uint64_t* oh, size_t* stopped_at) {
    restore(pristine);
    tracing = lab != nullptr;
    labels = lab;
    uint64_t h = 0;
    Outcome o = OK;
    diverged = false;
    for (size_t i = 0; i < tr.size() && o == OK; i++) {
        prefix = tr[i];
        obs_hash = 0;
        if (lab) lab->push_back(i == 0 ? "-- init" : "-- step " + std::to_string(i));
        o = i == 0 ? run_make() : run_step();
        h = h * 1000003 + obs_hash;
        if (o == OK && taken.size() != tr[i].size()) diverged = true;
        if (stopped_at) *stopped_at = i;
        if (i == 0 && o == OK) base_live = 0;
    }
    if (o == OK && fp) *fp = fingerprint();
    if (o == OK && finish) {
        if (lab) lab->push_back("-- destroy");
        prefix.clear();
        obs_hash = 0;
        o = run_finish();
    }
    if (oh) *oh = h;
    tracing = false;
    labels = nullptr;
    return o;
}

// Long histories: every initial segment of `a` steps (from every initial state) followed by `n` repetitions of every
// cycle of `p` steps. A repetition ends early when the environment does not allow the step any more, or when the state is
// one the same cycle was in before (then everything after it is a repetition too).
struct Stage { int a, p, n; double seconds; };
static double cpu_seconds() {
    struct timespec t;
    clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
    return t.tv_sec + 1e-9 * t.tv_nsec;
}
static void lassos(const Cfg& c, Result& R, const Stage& st) {
    using Choices = std::vector<uint16_t>;
    double end = cpu_seconds() + st.seconds;
    std::vector<Choices> tr; // [0]: make, then the steps so far
    FPSet starts;
    bool stop = false, cut = false;
    auto judge = [&](Outcome o, bool fin) { // true: goes on
        if (o == OK) return true;
        if (o == PRUNED || fail_msg.rfind("driver error", 0) == 0) return false;
        if (!fail_key.empty() && known_keys.count(fail_key)) { R.known[fail_key] = fail_msg; return false; }
        R.violated = true;
        R.vmsg = fail_msg;
        R.vfinish = fin;
        R.vtrace = tr;
        stop = true;
        return false;
    };
    auto step = [&](const Choices& ch) {
        prefix = ch;
        obs_hash = 0;
        diverged = false;
        Outcome o = run_step();
        R.lasso_steps++;
        tr.push_back(taken);
        return o;
    };
    // the cycle was taken once, repeat it up to n times; `first`: index of its first step in tr
    struct Candidate { std::vector<Choices> tr; size_t first; };
    std::vector<Candidate> candidates;
    auto repeat = [&](size_t first, int n, double until) {
        std::vector<Choices> cycle(tr.begin() + first, tr.end());
        size_t keep = tr.size();
        FP mark = fingerprint();
        int marked = 1, i = 1;
        bool go = true, clean = true;
        for (; i < n && go; i++) {
            for (size_t k = 0; k < cycle.size() && go; k++) {
                Outcome o = step(cycle[k]);
                go = judge(o, false);
                clean = o == OK;
                if (diverged) go = false;
            }
            if (!go) break;
            FP f = fingerprint();
            if (f == mark) { R.lasso_periodic++; go = false; break; }
            if (i >= 2 * marked) { mark = f; marked = i; }
            if ((i & 15) == 0 && cpu_seconds() > until) { cut = true; break; }
        }
        diverged = false;
        if (clean && !stop && c.leak) {
            prefix.clear();
            obs_hash = 0;
            judge(run_finish(), true);
        }
        if (stop) return;
        tr.resize(keep);
        if (n < st.n && go) candidates.push_back({tr, first}); // still something new
    };
    // all steps that are possible here, then f after each; every branch gets an equal share of the time that is left
    auto branches = [&](double until, const std::function<void(double)>& f) {
        Snap s;
        save(s);
        std::vector<Choices> all;
        prefix.clear();
        for (;;) {
            restore(s);
            Choices pre = prefix;
            Outcome o = step(pre);
            Choices t = taken, ar = arity;
            if (judge(o, false)) all.push_back(t);
            if (stop) return;
            tr.pop_back();
            taken = t;
            arity = ar;
            if (cpu_seconds() > until) { cut = true; break; }
            if (!advance()) break;
        }
        for (size_t i = 0; i < all.size(); i++) {
            double now = cpu_seconds();
            if (now > until) { cut = true; return; }
            restore(s);
            if (!judge(step(all[i]), false)) { R.error = "a step is not repeatable"; stop = true; return; }
            f(now + (until - now) / (all.size() - i));
            if (stop) return;
            tr.pop_back();
        }
    };
    std::function<void(size_t, int, double)> cycles = [&](size_t first, int p, double until) {
        branches(until, [&](double share) {
            if (p > 1) cycles(first, p - 1, share);
            else R.lassos++, repeat(first, 8, share);
        });
    };
    std::function<void(int, double)> segment = [&](int a, double until) {
        FP f = fingerprint();
        f.a += a * 0x9e3779b97f4a7c15ull;
        if (!starts.insert(f)) return;
        if (a == 0) return cycles(tr.size(), st.p, until);
        branches(until, [&](double share) { segment(a - 1, share); });
    };
    std::vector<Choices> inits;
    repeating = true;
    prefix.clear();
    for (;;) {
        restore(pristine);
        obs_hash = 0;
        Outcome o = run_make();
        Choices t = taken, ar = arity;
        tr.assign(1, t);
        if (judge(o, false)) inits.push_back(t);
        taken = t;
        arity = ar;
        if (stop || !advance()) break;
    }
    for (size_t i = 0; i < inits.size() && !stop; i++) {
        double now = cpu_seconds();
        restore(pristine);
        prefix = inits[i];
        obs_hash = 0;
        if (!judge(run_make(), false)) { R.error = "an initial state is not repeatable"; break; }
        tr.assign(1, inits[i]);
        segment(st.a, now + (end - now) / (inits.size() - i));
    }
    // the few that neither ended nor returned to a state they were in before
    end = cpu_seconds() + st.seconds;
    for (size_t i = 0; i < candidates.size() && !stop; i++) {
        double now = cpu_seconds();
        if (now > end) { cut = true; break; }
        auto& x = candidates[i];
        tr.clear();
        restore(pristine);
        bool ok = true;
        for (size_t k = 0; k < x.tr.size() && ok; k++) {
            prefix = x.tr[k];
            obs_hash = 0;
            ok = judge(k ? run_step() : run_make(), false);
            tr.push_back(taken);
        }
        if (!ok) { if (!stop) R.error = "a history is not repeatable"; break; }
        repeat(x.first, st.n, now + (end - now) / (candidates.size() - i));
    }
    repeating = false;
    diverged = false;
    if (cut) R.lasso_cut++;
    else if (!stop) R.lasso_done.push_back(std::to_string(st.a) + "+" + std::to_string(st.p) + "x" + std::to_string(st.n));
}

static void explore(const Cfg& c, Result& R) {
    cur = &c;
    covers.clear();
    R.depth_bound = c.depth;
    restore(pristine);
    std::vector<Node> nodes;
    std::vector<uint16_t> pool;
    std::vector<uint64_t> node_obs;
    FPSet seen;
    FPSet obs_seen;
    struct FE { uint32_t node; std::unique_ptr<Snap> s; };
    std::vector<FE> frontier, next;
    std::vector<FP> node_fp;
    const size_t MEMCAP = 3000ull << 20;
    size_t mem = 0;
    auto trace_of = [&](uint32_t n) {
        std::vector<std::vector<uint16_t>> t;
        for (uint32_t i = n;; i = nodes[i].parent) {
            t.emplace_back(pool.begin() + nodes[i].off, pool.begin() + nodes[i].off + nodes[i].len);
            if (nodes[i].parent == ~0u) break;
        }
        return std::vector<std::vector<uint16_t>>(t.rbegin(), t.rend());
    };
    bool stop = false;
    auto violation = [&](uint32_t parent, bool has_parent, const std::vector<uint16_t>& ch, bool fin) {
        if (!fail_key.empty() && known_keys.count(fail_key)) {
            R.known[fail_key] = fail_msg;
            return;
        }
        R.violated = true;
        R.vmsg = fail_msg;
        R.vfinish = fin;
        if (has_parent) R.vtrace = trace_of(parent);
        if (!fin) R.vtrace.push_back(ch);
        stop = true;
    };
    auto add = [&](uint32_t parent, int depth, std::vector<FE>& out) {
        std::vector<uint16_t> ch = taken;
        FP f = fingerprint();
        obs_seen.insert({obs_hash, obs_hash * 31 + 7});
        if (!seen.insert(f)) return;
        if (pool.size() + ch.size() > 0xfffffff0ull) { R.capped = true; return; }
        nodes.push_back({parent, (uint32_t)pool.size(), (uint16_t)ch.size(), (uint16_t)depth});
        pool.insert(pool.end(), ch.begin(), ch.end());
        node_obs.push_back(obs_hash);
        node_fp.push_back(f);
        R.states++;
        uint32_t id = nodes.size() - 1;
        std::unique_ptr<Snap> s;
        bool expand = depth < c.depth;
        if (expand) {
            s = std::make_unique<Snap>();
            save(*s);
        }
        // destroying everything in this state must be safe and release everything
        uint64_t keep = obs_hash;
        auto kt = taken, ka = arity;
        if (c.leak) {
            prefix.clear();
            Outcome o = run_finish();
            R.finish_checked++;
            if (o == VIOL) violation(id, true, {}, true);
        }
        obs_hash = keep;
        taken = kt;
        arity = ka;
        if (expand && !stop) {
            mem += s->bytes();
            if (mem > MEMCAP || R.states >= c.max_states) R.capped = true;
            else out.push_back({id, std::move(s)});
        }
    };
    // initial states
    prefix.clear();
    for (;;) {
        restore(pristine);
        obs_hash = 0;
        Outcome o = run_make();
        R.transitions++;
        if (o == VIOL) violation(0, false, taken, false);
        else if (o == PRUNED) R.pruned++;
        else { base_live = 0; add(~0u, 0, frontier); }
        if (stop || !advance()) break;
    }
    int d = 0;
    size_t level_start = nodes.size();
    while (!stop && d < c.depth && !frontier.empty()) {
        for (size_t k = 0; k < frontier.size() && !stop; k++) {
            auto& fe = frontier[k];
            prefix.clear();
            for (;;) {
                restore(*fe.s);
                obs_hash = 0;
                Outcome o = run_step();
                R.transitions++;
                if (diverged) { R.error = "nondeterministic choice arity"; stop = true; break; }
                if (o == VIOL) violation(fe.node, true, taken, false);
                else if (o == PRUNED) R.pruned++;
                else add(fe.node, d + 1, next);
                if (stop || !advance()) break;
            }
            mem -= fe.s->bytes();
            fe.s.reset();
        }
        if (stop) break;
        frontier.swap(next);
        next.clear();
        d++;
        if (R.capped) break;
        R.depth_done = d;
        if (nodes.size() == level_start) R.closed = true;
        level_start = nodes.size();
    }
    if (c.depth == 0 && !R.capped) R.depth_done = 0;
    if (c.depth == 0 && !R.capped) R.closed = true;
    for (auto& kv : covers) R.covers[kv.first] += kv.second;
    R.distinct_obs = obs_seen.n;
    if (!R.violated && R.error.empty() && !R.closed && c.depth > 0 && long_histories > 0) {
        frontier.clear();
        bool last_cut = false;
        static const Stage quick[] = {{0, 1, 300, 1}, {0, 1, 70000, 1}, {1, 1, 300, 2}, {0, 2, 300, 2}, {0, 3, 300, 4}, {0, 4, 300, 4}, {0, 5, 300, 4}, {0, 6, 300, 4}};
        static const Stage deep[] = {{0, 1, 300, 10}, {0, 1, 70000, 20}, {1, 1, 300, 10}, {0, 2, 300, 10}, {0, 3, 300, 20}, {2, 1, 300, 10}, {1, 2, 300, 10}, {0, 2, 70000, 20}, {0, 4, 300, 20}, {0, 5, 300, 20}, {0, 6, 300, 20}, {0, 7, 300, 20}, {0, 8, 300, 20}};
        for (const Stage *st = tier ? deep : quick, *e = tier ? std::end(deep) : std::end(quick); st != e; st++) {
            Stage x = *st;
            if (x.p > 3 && last_cut) continue; // the shorter cycles were too many already
            uint64_t cuts = R.lasso_cut;
            x.seconds *= long_histories;
            lassos(c, R, x);
            last_cut = R.lasso_cut > cuts;
            if (R.violated || !R.error.empty()) break;
        }
    }
    if (!R.violated && R.error.empty() && !nodes.empty()) {
        // validate: replay sampled traces linearly, without snapshots, and compare what was observed
        size_t want = tier ? 400 : 120, n = nodes.size();
        size_t stride = n / want + 1;
        auto saved = R;
        for (size_t i = (n - 1) % stride; i < n; i += stride) {
            auto tr = trace_of(i);
            std::vector<uint32_t> path;
            for (uint32_t q = i;; q = nodes[q].parent) { path.push_back(q); if (nodes[q].parent == ~0u) break; }
            uint64_t h = 0;
            for (size_t q = path.size(); q-- > 0;) h = h * 1000003 + node_obs[path[q]];
            FP f{0, 0};
            uint64_t h2 = 0;
            Outcome o = linear(tr, false, nullptr, &f, &h2, nullptr);
            if (o != OK || h != h2 || diverged) {
                R.error = "trace validation: linear replay of an explored trace observed something else (" + fail_msg + ")";
                break;
            }
            if (!(f == node_fp[i])) R.fp_mismatch++;
            R.traces_validated++;
            R.trace_steps += tr.size();
        }
        for (size_t i : {n - 1, n / 2}) {
            std::vector<std::string> lab;
            linear(trace_of(i), false, &lab, nullptr, nullptr, nullptr);
            std::string s = c.name + ":";
            for (auto& l : lab) { s += " "; s += l; if (s.size() > 900) { s += " ..."; break; } }
            R.samples.push_back(s);
            if (n == 1) break;
        }
    }
}

static std::string trace_str(const std::vector<std::vector<uint16_t>>& t) {
    std::string s = "[";
    for (size_t i = 0; i < t.size(); i++) {
        s += i ? ",[" : "[";
        for (size_t k = 0; k < t[i].size(); k++) { if (k) s += ","; s += std::to_string(t[i][k]); }
        s += "]";
    }
    return s + "]";
}
static std::string result_json(const Cfg& c, const Result& R, double wall) {
    std::string s = "{\"config\":\"" + esc(c.name) + "\"";
    auto num = [&](const char* k, uint64_t v) { s += std::string(",\"") + k + "\":" + std::to_string(v); };
    num("states", R.states); num("transitions", R.transitions); num("pruned", R.pruned);
    num("finish_checked", R.finish_checked); num("traces_validated", R.traces_validated);
    num("trace_steps", R.trace_steps); num("distinct_step_observations", R.distinct_obs);
    num("fp_mismatch", R.fp_mismatch); num("depth_bound", R.depth_bound); num("depth_completed", R.depth_done);
    s += std::string(",\"closed\":") + (R.closed ? "true" : "false") + ",\"capped\":" + (R.capped ? "true" : "false");
    char w[40]; snprintf(w, 40, ",\"wall_s\":%.2f", wall); s += w;
    s += ",\"covers\":{";
    bool first = true;
    for (auto& kv : R.covers) { s += (first ? "\"" : ",\"") + esc(kv.first) + "\":" + std::to_string(kv.second); first = false; }
    s += "},\"samples\":[";
    first = true;
    for (auto& x : R.samples) { s += (first ? "\"" : ",\"") + esc(x) + "\""; first = false; }
    s += "],\"known\":{";
    first = true;
    for (auto& kv : R.known) { s += (first ? "\"" : ",\"") + esc(kv.first) + "\":\"" + esc(kv.second) + "\""; first = false; }
    s += "}";
    num("lassos", R.lassos); num("lasso_steps", R.lasso_steps); num("lasso_periodic", R.lasso_periodic); num("lasso_stages_cut", R.lasso_cut);
    s += ",\"lasso_stages_done\":[";
    first = true;
    for (auto& x : R.lasso_done) { s += (first ? "\"" : ",\"") + esc(x) + "\""; first = false; }
    s += "]";
    if (!R.error.empty()) s += ",\"error\":\"" + esc(R.error) + "\"";
    if (R.violated)
        s += ",\"violation\":{\"msg\":\"" + esc(R.vmsg) + "\",\"finish\":" + (R.vfinish ? "true" : "false") + ",\"trace\":" + trace_str(R.vtrace) + "}";
    return s + "}";
}

static bool write_file(const std::string& p, const std::string& d) {
    FILE* f = fopen(p.c_str(), "w");
    if (!f) return false;
    fwrite(d.data(), 1, d.size(), f);
    fclose(f);
    return true;
}
static std::string read_file(const std::string& p) {
    std::string s;
    FILE* f = fopen(p.c_str(), "r");
    if (!f) return s;
    char b[65536];
    size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
    fclose(f);
    return s;
}

int main(int argc, char** argv) {
    std::string so, out, only, known, replay;
    int jobs = 8;
    bool list = false;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--so") so = val();
        else if (a == "--out") out = val();
        else if (a == "--tier") tier = val() == "thorough";
        else if (a == "--only") only = val();
        else if (a == "--jobs") jobs = atoi(val().c_str());
        else if (a == "--known") known = val();
        else if (a == "--replay") replay = val();   // "config\nfinish\n[[..],[..]]"
        else if (a == "--long") long_histories = atof(val().c_str());
        else if (a == "--list") list = true;
    }
    setenv("TZ", "UTC", 1);
    tzset();
    if (!known.empty()) {
        std::string k;
        for (char ch : known + ",") { if (ch == ',') { if (!k.empty()) known_keys.insert(k); k.clear(); } else k += ch; }
    }
    void* m = mmap((void*)ARENA, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (m != (void*)ARENA) { fprintf(stderr, "cannot map the arena\n"); return 3; }
    arena_reset();
    so_path = so;
    void* h = dlopen(so.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!h) { fprintf(stderr, "%s\n", dlerror()); return 3; }
    dl_iterate_phdr(phdr_cb, nullptr);
    if (segs.empty()) { fprintf(stderr, "no writable segment found\n"); return 3; }
    auto reg = (void (*)())dlsym(h, "mc_configs");
    if (!reg) { fprintf(stderr, "no mc_configs\n"); return 3; }
    reg();
    if (list) {
        for (auto& c : cfgs) printf("%s depth=%d\n", c.name.c_str(), c.depth);
        return 0;
    }
    capbuf = new CapBuf;
    std::cout.rdbuf(capbuf);
    __asan_set_error_report_callback(asan_cb);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_crash;
    sa.sa_flags = SA_NODEFER | SA_ONSTACK;
    static char* alt = (char*)mmap(nullptr, 1 << 18, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    stack_t ss{};
    ss.ss_sp = alt;
    ss.ss_size = 1 << 18;
    sigaltstack(&ss, nullptr);
    for (int sg : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(sg, &sa, nullptr);
    arena_reset();
    take_baseline();
    save(pristine);

    auto start_ticks = [] {
        struct sigaction st;
        memset(&st, 0, sizeof st);
        st.sa_handler = on_tick;
        st.sa_flags = SA_NODEFER | SA_RESTART | SA_ONSTACK;
        sigaction(SIGPROF, &st, nullptr);
        struct itimerval iv = {{1, 0}, {1, 0}};
        setitimer(ITIMER_PROF, &iv, nullptr);
    };

    if (!replay.empty()) {
        std::string d = read_file(replay);
        size_t p1 = d.find('\n'), p2 = d.find('\n', p1 + 1), p3 = d.find('\n', p2 + 1);
        std::string cname = d.substr(0, p1), fin = d.substr(p1 + 1, p2 - p1 - 1), tr = d.substr(p2 + 1, p3 - p2 - 1);
        std::vector<std::vector<uint16_t>> t;
        for (size_t i = 1; i < tr.size(); i++) {
            if (tr[i] == '[') t.emplace_back();
            else if (isdigit((unsigned char)tr[i])) {
                unsigned v = 0;
                while (isdigit((unsigned char)tr[i])) v = v * 10 + (tr[i++] - '0');
                i--;
                t.back().push_back((uint16_t)v);
            }
        }
        cur = nullptr;
        for (auto& c : cfgs) if (c.name == cname) cur = &c;
        if (!cur) { fprintf(stderr, "no such configuration: %s\n", cname.c_str()); return 3; }
        hang_ticks = 20;
        start_ticks();
        std::vector<std::string> lab;
        size_t at = 0;
        Outcome o = linear(t, fin == "1", &lab, nullptr, nullptr, &at);
        for (auto& l : lab) fprintf(stderr, "%s\n", l.c_str());
        if (o == VIOL) { fprintf(stderr, "=> VIOLATED: %s\n", fail_msg.c_str()); return 1; }
        fprintf(stderr, "=> held%s\n", diverged ? " (diverged)" : "");
        return diverged ? 2 : 0;
    }

    // one process per configuration, `jobs` at a time
    std::vector<size_t> todo;
    for (size_t i = 0; i < cfgs.size(); i++)
        if (only.empty() || cfgs[i].name == only) todo.push_back(i);
    std::map<pid_t, size_t> running;
    size_t nexti = 0;
    bool bad = false, viol = false;
    std::vector<std::string> parts(cfgs.size());
    while (nexti < todo.size() || !running.empty()) {
        while (nexti < todo.size() && (int)running.size() < jobs && !viol) {
            size_t i = todo[nexti++];
            pid_t p = fork();
            if (p == 0) {
                struct timespec t0, t1;
                clock_gettime(CLOCK_MONOTONIC, &t0);
                start_ticks();
                Result R;
                explore(cfgs[i], R);
                clock_gettime(CLOCK_MONOTONIC, &t1);
                write_file(out + "." + std::to_string(i), result_json(cfgs[i], R, (t1.tv_sec - t0.tv_sec) + 1e-9 * (t1.tv_nsec - t0.tv_nsec)));
                _exit(R.violated ? 1 : R.error.empty() ? 0 : 2);
            }
            running[p] = i;
        }
        if (running.empty()) break;
        int st;
        pid_t p = wait(&st);
        if (p < 0) break;
        size_t i = running[p];
        running.erase(p);
        std::string f = out + "." + std::to_string(i);
        if (WIFEXITED(st) && WEXITSTATUS(st) <= 2) {
            parts[i] = read_file(f);
            if (WEXITSTATUS(st) == 1) viol = true;
            if (WEXITSTATUS(st) == 2) bad = true;
        } else {
            bad = true;
            parts[i] = "{\"config\":\"" + esc(cfgs[i].name) + "\",\"error\":\"worker ended abnormally (" + std::to_string(st) + ")\"}";
        }
        unlink(f.c_str());
    }
    std::string s = "[";
    bool first = true;
    for (auto& x : parts) if (!x.empty()) { s += (first ? "\n" : ",\n") + x; first = false; }
    s += "\n]\n";
    if (!write_file(out, s)) return 3;
    return viol ? 1 : bad ? 2 : 0;
}
