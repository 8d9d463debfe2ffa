// Scheduler, virtual time, decision recording, process images, heap.
#include "sim.h"
#include "sim_int.h"
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <algorithm>
#include <new>

Sim* g_sim = nullptr;
Stats g_stats;
int g_heap_mode = 0;
// Static initialisers of the code under test allocate in the image; what the C runtime allocated before them (a copy of
// the command line, for one) does not, so that addresses do not depend on it.
static struct StaticInit { StaticInit() { g_heap_mode = 1; } } s_static_init __attribute__((init_priority(101)));
static Thread s_host_thread;        // Stands for "the host", e.g. during static init.

u64 mix(u64 a, u64 b) { u64 z = a + 0x9E3779B97F4A7C15ull * (b + 1); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
u64 hash_str(const char* p, size_t n, u64 h) { for (size_t i = 0; i < n; ++i) { h ^= (unsigned char)p[i]; h *= 1099511628211ull; } return h; }

std::wstring widen(const char* s) { int n = MultiByteToWideChar(CP_UTF8, 0, s, -1, nullptr, 0); std::wstring w(n ? n - 1 : 0, 0); if (n > 1) MultiByteToWideChar(CP_UTF8, 0, s, -1, &w[0], n); return w; }
string narrow(const wchar_t* s) { int n = WideCharToMultiByte(CP_UTF8, 0, s, -1, nullptr, 0, nullptr, nullptr); string w(n ? n - 1 : 0, 0); if (n > 1) WideCharToMultiByte(CP_UTF8, 0, s, -1, &w[0], n, nullptr, nullptr); return w; }
string narrow(const std::wstring& s) { return narrow(s.c_str()); }
string strf(const char* fmt, ...)
{
    char b[1024]; va_list a; va_start(a, fmt); int n = vsnprintf(b, sizeof b, fmt, a); va_end(a);
    if (n >= 0 && n < int(sizeof b)) return b;
    va_start(a, fmt); n = _vscprintf(fmt, a); va_end(a);
    string s(n + 1, 0); va_start(a, fmt); vsnprintf(&s[0], n + 1, fmt, a); va_end(a); s.resize(n);
    return s;
}

//------------------------------------------------------------------------------
// Heap of the simulated process: at a fixed address, so that runs are repeatable down
// to pointer values; part of the process image.
static const u64 ARENA_BASE = 0x10000000000ull;
static const u64 ARENA_SIZE = 1024ull << 20;
static const u64 STACK_BASE = 0x20000000000ull;
static const u64 STACK_SIZE = 1ull << 20;
static const int MAX_STACKS = 48;
struct ArenaHdr { u64 brk; u64 live, live_bytes; u64 free_lists[64]; };
struct BlockHdr { u32 cls; u32 magic; u64 size; };
static const u32 MAGIC_LIVE = 0xA110CA7E, MAGIC_FREE = 0xDEADF4EE;
static ArenaHdr* s_arena = nullptr;
static void* (*s_real_malloc)(size_t);
static void (*s_real_free)(void*);
static void* (*s_real_realloc)(void*, size_t);
static size_t (*s_real_msize)(void*);

static void mem_init()
{
    if (s_real_malloc) return;
    HMODULE m = GetModuleHandleA("msvcrt.dll");
    s_real_free = (void (*)(void*))GetProcAddress(m, "free");
    s_real_realloc = (void* (*)(void*, size_t))GetProcAddress(m, "realloc");
    s_real_msize = (size_t (*)(void*))GetProcAddress(m, "_msize");
    if (!VirtualAlloc((void*)ARENA_BASE, ARENA_SIZE, MEM_RESERVE | MEM_COMMIT, PAGE_READWRITE)) { ExitProcess(97); }
    if (!VirtualAlloc((void*)STACK_BASE, STACK_SIZE * MAX_STACKS, MEM_RESERVE | MEM_COMMIT, PAGE_READWRITE)) { ExitProcess(98); }
    s_arena = (ArenaHdr*)ARENA_BASE;
    s_arena->brk = ARENA_BASE + 4096;
    s_real_malloc = (void* (*)(size_t))GetProcAddress(m, "malloc");
}
static inline bool is_arena(void* p) { return (u64)p >= ARENA_BASE && (u64)p < ARENA_BASE + ARENA_SIZE; }
static u32 size_class(u64 n)
{
    // Four classes per power of two.
    if (n < 16) n = 16;
    u32 lg = 63 - __builtin_clzll(n);
    u64 base = 1ull << lg, q = base / 4;
    u32 k = u32((n - base + q - 1) / q);
    if (k == 4) { lg++; k = 0; }
    return (lg - 4) * 4 + k;
}
static u64 class_bytes(u32 cls) { u64 base = 1ull << (cls / 4 + 4); u64 b = base + (base / 4) * (cls % 4); return (b + 15) & ~15ull; }
static bool filled(void* p, u64 a, u64 b, BYTE v) { BYTE* c = (BYTE*)p; if (b > a + 512) b = a + 512; for (; a < b; ++a) if (c[a] != v) return false; return true; }
static void* arena_alloc(size_t n)
{
    u32 cls = size_class(n ? n : 1);
    u64 bytes = class_bytes(cls);
    BlockHdr* h;
    u64& fl = s_arena->free_lists[cls < 63 ? cls : 63];
    if (cls < 63 && fl)
    {
        h = (BlockHdr*)fl;
        fl = h->size;
        if (!filled(h + 1, 0, bytes, 0xDD)) { sim_violate("heap", "a block of %llu bytes was written to after it was freed", bytes); }
    }
    else
    {
        h = (BlockHdr*)s_arena->brk;
        s_arena->brk += sizeof(BlockHdr) + bytes;
        if (s_arena->brk > ARENA_BASE + ARENA_SIZE) { s_arena->brk -= sizeof(BlockHdr) + bytes; return nullptr; }
    }
    h->cls = cls; h->magic = MAGIC_LIVE; h->size = n;
    memset(h + 1, 0xCD, bytes);
    s_arena->live++; s_arena->live_bytes += n;
    return h + 1;
}
static void arena_free(void* p)
{
    BlockHdr* h = (BlockHdr*)p - 1;
    if (h->magic != MAGIC_LIVE)
    {
        sim_violate("heap", h->magic == MAGIC_FREE ? "block freed twice" : "free of a pointer that is not a heap block");
        return;
    }
    u64 bytes = class_bytes(h->cls);
    if (!filled(p, h->size, bytes, 0xCD)) { sim_violate("heap", "a block of %llu bytes was written to past its end", u64(h->size)); return; }
    s_arena->live--; s_arena->live_bytes -= h->size;
    h->magic = MAGIC_FREE;
    memset(p, 0xDD, bytes);
    if (h->cls < 63)
    {
        h->size = s_arena->free_lists[h->cls];
        s_arena->free_lists[h->cls] = (u64)h;
    }
}
// Freed blocks that were written to, and live ones that were written to past their end.
static void heap_check()
{
    if (g_sim->ended) return;
    for (BYTE* p = (BYTE*)ARENA_BASE + 4096; p < (BYTE*)s_arena->brk; )
    {
        BlockHdr* h = (BlockHdr*)p; u64 bytes = class_bytes(h->cls);
        if (h->magic == MAGIC_FREE && !filled(h + 1, 0, bytes, 0xDD)) { sim_violate("heap", "a block of %llu bytes was written to after it was freed", bytes); return; }
        if (h->magic == MAGIC_LIVE && !filled(h + 1, h->size, bytes, 0xCD)) { sim_violate("heap", "a block of %llu bytes was written to past its end", u64(h->size)); return; }
        p += sizeof(BlockHdr) + bytes;
    }
}
u64 heap_live_blocks() { return s_arena->live; }
u64 heap_live_bytes() { return s_arena->live_bytes; }

extern "C" void* malloc(size_t n) { if (!s_real_malloc) mem_init(); return g_heap_mode ? arena_alloc(n) : s_real_malloc(n); }
extern "C" void free(void* p) { if (!p) return; if (is_arena(p)) arena_free(p); else { if (!s_real_free) mem_init(); s_real_free(p); } }
extern "C" void* calloc(size_t a, size_t b) { void* p = malloc(a * b); if (p) memset(p, 0, a * b); return p; }
extern "C" void* realloc(void* p, size_t n)
{
    if (!p) return malloc(n);
    if (!is_arena(p)) { if (!s_real_malloc) mem_init(); return s_real_realloc(p, n); }
    if (!n) { free(p); return nullptr; }
    BlockHdr* h = (BlockHdr*)p - 1;
    if (h->magic != MAGIC_LIVE) { sim_violate("heap", "realloc of a block that is not live"); return nullptr; }
    if (n <= class_bytes(h->cls) && n * 2 >= class_bytes(h->cls)) { if (!filled(p, h->size, class_bytes(h->cls), 0xCD)) { sim_violate("heap", "a block of %llu bytes was written to past its end", u64(h->size)); return nullptr; } if (n < h->size) memset((BYTE*)p + n, 0xCD, h->size - n); s_arena->live_bytes += n - h->size; h->size = n; return p; }
    SutScope ss;
    void* q = arena_alloc(n);
    if (q) { memcpy(q, p, h->size < n ? h->size : n); arena_free(p); }
    return q;
}
extern "C" void* __imp_malloc = (void*)malloc;
extern "C" void* __imp_free = (void*)free;
extern "C" void* __imp_calloc = (void*)calloc;
extern "C" void* __imp_realloc = (void*)realloc;
extern "C" char* strdup(const char* s) { size_t n = strlen(s) + 1; char* p = (char*)malloc(n); if (p) memcpy(p, s, n); return p; }
extern "C" char* _strdup(const char* s) { return strdup(s); }
extern "C" wchar_t* _wcsdup(const wchar_t* s) { size_t n = (wcslen(s) + 1) * 2; wchar_t* p = (wchar_t*)malloc(n); if (p) memcpy(p, s, n); return p; }
extern "C" wchar_t* wcsdup(const wchar_t* s) { return _wcsdup(s); }
extern "C" void* __imp__strdup = (void*)_strdup;
extern "C" void* __imp__wcsdup = (void*)_wcsdup;
void* operator new(size_t n) { void* p = malloc(n); if (!p) abort(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return malloc(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return malloc(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

//------------------------------------------------------------------------------
// Process images.
extern "C" char sut_data_start[], sut_data_end[];
static std::vector<char> s_base_data, s_base_heap;
static void capture(std::vector<char>& d, std::vector<char>& h)
{
    HostScope hs;
    d.assign(sut_data_start, sut_data_end);
    h.assign((char*)ARENA_BASE, (char*)s_arena->brk);
}
static void restore(const std::vector<char>& d, const std::vector<char>& h)
{
    memcpy(sut_data_start, d.data(), d.size());
    memcpy((char*)ARENA_BASE, h.data(), h.size());
}
void image_boot_snapshot()
{
    mem_init();
    capture(s_base_data, s_base_heap);
}
static void load_image(Proc* p)
{
    if (p->native || g_sim->loaded == p) return;
    if (g_sim->loaded && g_sim->loaded->alive)
    {
        capture(g_sim->loaded->image_data, g_sim->loaded->image_heap);
        g_sim->loaded->image_valid = true;
    }
    if (p->image_valid) restore(p->image_data, p->image_heap);
    else restore(s_base_data, s_base_heap);
    g_sim->loaded = p;
}
void image_size(u64& data, u64& heap) { data = sut_data_end - sut_data_start; heap = s_arena->brk - ARENA_BASE; }

//------------------------------------------------------------------------------
// Fibers.
extern "C" void fiber_switch(Ctx* from, Ctx* to);
asm(R"(
    .globl fiber_switch
    .p2align 4
fiber_switch:
    pushq %rbp
    pushq %rbx
    pushq %rsi
    pushq %rdi
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    subq $184, %rsp
    movaps %xmm6, 0(%rsp)
    movaps %xmm7, 16(%rsp)
    movaps %xmm8, 32(%rsp)
    movaps %xmm9, 48(%rsp)
    movaps %xmm10, 64(%rsp)
    movaps %xmm11, 80(%rsp)
    movaps %xmm12, 96(%rsp)
    movaps %xmm13, 112(%rsp)
    movaps %xmm14, 128(%rsp)
    movaps %xmm15, 144(%rsp)
    stmxcsr 160(%rsp)
    fnstcw 164(%rsp)
    movq %rsp, (%rcx)
    movq (%rdx), %rsp
    movaps 0(%rsp), %xmm6
    movaps 16(%rsp), %xmm7
    movaps 32(%rsp), %xmm8
    movaps 48(%rsp), %xmm9
    movaps 64(%rsp), %xmm10
    movaps 80(%rsp), %xmm11
    movaps 96(%rsp), %xmm12
    movaps 112(%rsp), %xmm13
    movaps 128(%rsp), %xmm14
    movaps 144(%rsp), %xmm15
    ldmxcsr 160(%rsp)
    fldcw 164(%rsp)
    addq $184, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rdi
    popq %rsi
    popq %rbx
    popq %rbp
    ret
    .globl fiber_entry
fiber_entry:
    subq $64, %rsp
    call fiber_main
)");
extern "C" void fiber_entry();

static Ctx s_main_ctx;
static void* s_main_teb[3];
static inline void* teb_get(int off) { return off == 0x08 ? (void*)__readgsqword(0x08) : off == 0x10 ? (void*)__readgsqword(0x10) : (void*)__readgsqword(0x1478); }
static inline void teb_set(void* base, void* limit, void* dealloc) { __writegsqword(0x08, (u64)base); __writegsqword(0x10, (u64)limit); __writegsqword(0x1478, (u64)dealloc); }
static std::vector<char*> s_free_stacks;

static void thread_finish(Thread* t, u32 code);
static void pick_next(bool must);

extern "C" void fiber_main()
{
    Thread* t = g_sim->cur;
    g_heap_mode = 1;
    try { (*t->fn)(); }
    catch (const std::exception& e) { g_heap_mode = 0; sim_violate("terminate", "uncaught exception: %s", e.what()); }
    catch (...) { g_heap_mode = 0; sim_violate("terminate", "uncaught exception"); }
    g_heap_mode = 0;
    t->count++;                     // (A decision of its own.)
    thread_finish(t, 0);
    pick_next(true);
    for (;;) {}
}

static void release_stack(Thread* t) { if (t->stack) { s_free_stacks.push_back(t->stack); t->stack = nullptr; } }
static void prep_fiber(Thread* t, Thread* running)
{
    // Reuse the stacks of finished threads (but not the one this runs on).
    if (s_free_stacks.empty())
        for (Thread* x : g_sim->threads) if (x->done && x != running) release_stack(x);
    t->stack = s_free_stacks.back();
    s_free_stacks.pop_back();
    memset(t->stack, 0, STACK_SIZE);
    char* top = t->stack + STACK_SIZE - 64;
    u64* sp = (u64*)((u64)top & ~15ull);
    sp -= 2;
    *--sp = (u64)&fiber_entry;      // ret target
    sp -= 8;                        // pushed registers
    memset(sp, 0, 64);
    char* x = (char*)sp - 184;
    memset(x, 0, 184);
    u32 mx = 0x1f80; memcpy(x + 160, &mx, 4);
    unsigned short cw = 0x37f; memcpy(x + 164, &cw, 2);
    t->ctx.rsp = x;
    t->teb[0] = t->stack + STACK_SIZE;
    t->teb[1] = t->stack;
    t->teb[2] = t->stack;
}

static void go_main()
{
    Thread* t = g_sim->cur;
    if (!t) return;                 // Already on the host.
    t->heap_mode = g_heap_mode;
    g_sim->cur = nullptr;
    g_heap_mode = 0;
    teb_set(s_main_teb[0], s_main_teb[1], s_main_teb[2]);
    fiber_switch(&t->ctx, &s_main_ctx);
    g_heap_mode = t->heap_mode;
}

static void switch_to(Thread* t)
{
    Thread* from = g_sim->cur;
    if (from == t) return;
    if (from) from->heap_mode = g_heap_mode;
    g_heap_mode = 0;
    g_sim->switches++;
    g_sim->ihash = mix(g_sim->ihash, u64(t->tid) * 1000003 + hash_str(t->where, strlen(t->where)));
    load_image(t->proc);
    g_sim->cur = t;
    if (!t->started) { t->started = true; prep_fiber(t, from); }
    teb_set(t->teb[0], t->teb[1], t->teb[2]);
    if (g_sim->trace) sim_note("switch -> %d (%s)", t->tid, t->name.c_str());
    fiber_switch(from ? &from->ctx : &s_main_ctx, &t->ctx);
    // Back in `from`.
    if (from) g_heap_mode = from->heap_mode;
}

//------------------------------------------------------------------------------
// Decisions.
static std::unordered_map<u64, i64> s_dec;
static u64 dec_key(char kind, u64 tid, u64 n) { return mix(mix(kind, tid), n); }
static std::map<int, std::vector<std::pair<u64, i64>>> s_bb_dec;
static void load_decisions(const Case& c)
{
    s_dec.clear();
    s_bb_dec.clear();
    for (auto& d : c.dec)
    {
        char k; unsigned long long t, n;
        if (sscanf(d.first.c_str(), "%c:%llu:%llu", &k, &t, &n) != 3) continue;
        i64 v = atoll(d.second.c_str());
        if (k == 'b') s_bb_dec[int(t)].push_back({ n, v });
        else s_dec[dec_key(k, t, n)] = v;
    }
    for (auto& b : s_bb_dec) std::sort(b.second.begin(), b.second.end());
}
static bool dec_find(char k, u64 tid, u64 n, i64& v) { auto i = s_dec.find(dec_key(k, tid, n)); if (i == s_dec.end()) return false; v = i->second; return true; }
static void dec_rec(char k, u64 tid, u64 n, i64 v) { g_sim->rec.dec[strf("%c:%llu:%llu", k, tid, n)] = std::to_string(v); }

static std::vector<string> s_trace;
std::vector<string>& sim_trace() { return s_trace; }
void sim_note(const char* fmt, ...)
{
    if (!g_sim || !g_sim->trace) return;
    HostScope hs;
    char b[2048]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
    s_trace.push_back(strf("[%9.3fms %s #%llu] %s", g_sim->now / 1e6, g_sim->cur ? g_sim->cur->name.c_str() : "host", g_sim->cur ? g_sim->cur->bb : 0, b));
}
void sim_mark(const char* what, u64 value) { if (!g_sim) return; g_sim->hash = mix(g_sim->hash, hash_str(what, strlen(what)) ^ value); }
void sim_count(const char* n, u64 k) { HostScope hs; g_stats.counters[n] += k; }
void sim_state(u64 h) { HostScope hs; if (g_stats.states.size() < 2000000) g_stats.states.insert(h); }

void sim_violate(const char* id, const char* fmt, ...)
{
    if (!g_sim) { fprintf(stderr, "violation outside a run: %s\n", id); return; }
    HostScope hs;
    char b[4096]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
    if (!g_sim->ended || g_sim->v.id.empty())
    {
        if (g_sim->v.id.empty()) { g_sim->v.id = id; g_sim->v.msg = b; }
        g_sim->ended = true;
        sim_note("VIOLATION %s: %s", id, b);
    }
    if (g_sim->cur) go_main();
}
std::set<string> g_known;
void sim_known(const char* known, const char* id, const char* fmt, ...)
{
    HostScope hs;
    char b[4096]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
    if (g_known.count(known) && g_sim->v.id.empty() && !g_sim->c->replay)
    {
        g_stats.counters[string("known:") + known]++;
        sim_note("KNOWN %s: %s: %s", known, id, b);
        g_sim->v.known = known;
        g_sim->ended = true;
        if (g_sim->cur) go_main();
        return;
    }
    if (g_sim->v.id.empty()) g_sim->v.known = known;
    sim_violate(id, "[known %s] %s", known, b);
}

//------------------------------------------------------------------------------
static bool runnable(Thread* t)
{
    if (t->done || t->suspended || !t->proc->alive) return false;
    if (t->stall_until > g_sim->now) return false;
    if (!t->blocked) return true;
    if (t->pred)
    {
        if ((*t->pred)()) return true;
    }
    if (t->deadline != FOREVER && t->deadline <= g_sim->now) return true;
    return false;
}

static std::vector<Thread*> s_run;
static void wake(Thread* t)
{
    if (!t->blocked) return;
    t->timed_out = !(t->pred && (*t->pred)());
    t->blocked = false;
}

// Chooses and runs the next thread.  `must`: the current thread cannot continue.
static void pick_next(bool must)
{
    Sim& s = *g_sim;
    Thread* me = s.cur;
    for (;;)
    {
        s_run.clear();
        bool foreground = false;
        for (Thread* t : s.threads)
        {
            if (!t->done && t->proc->alive && !t->daemon) foreground = true;
            if (runnable(t)) s_run.push_back(t);
        }
        if (!foreground || s.ended) { go_main(); return; }
        if (!s_run.empty()) break;
        // Nobody can run: let time pass.
        u64 best = FOREVER;
        for (Thread* t : s.threads)
        {
            if (t->done || t->suspended || !t->proc->alive) continue;
            if (t->stall_until > s.now) { best = std::min(best, t->stall_until); continue; }
            if (t->blocked && t->deadline != FOREVER) best = std::min(best, t->deadline);
        }
        if (best == FOREVER)
        {
            string w;
            for (Thread* t : s.threads)
                if (!t->done && t->proc->alive) w += strf(" %s@%s%s", t->name.c_str(), t->where, t->suspended ? "(suspended)" : "");
            sim_violate("deadlock", "no thread can make progress:%s", w.c_str());
            return;
        }
        s.now = std::max(s.now, best);
    }
    Thread* next = nullptr;
    u64 mytid = me ? me->tid : 0, cnt = me ? me->count : s.steps;
    if (s_run.size() == 1) next = s_run[0];
    else
    {
        i64 v;
        if (s.c->replay)
        {
            if (dec_find('s', mytid, cnt, v))
                for (Thread* t : s_run) if (t->tid == v) next = t;
        }
        else
        {
            next = s_run[s.rng.below(u32(s_run.size()))];
        }
        if (!next)
        {
            // Default: continue, else the next one in creation order.
            for (Thread* t : s_run) if (t == me) next = t;
            if (!next) { for (Thread* t : s_run) if (!me || t->tid > me->tid) { next = t; break; } }
            if (!next) next = s_run[0];
        }
        if (!s.c->replay)
        {
            Thread* def = nullptr;
            for (Thread* t : s_run) if (t == me) def = t;
            if (!def) { for (Thread* t : s_run) if (!me || t->tid > me->tid) { def = t; break; } }
            if (!def) def = s_run[0];
            if (next != def) dec_rec('s', mytid, cnt, next->tid);
        }
    }
    wake(next);
    if (next != me) switch_to(next);
}

static void step_common(Thread* t, const char* api)
{
    Sim& s = *g_sim;
    t->count++;
    t->where = api;
    s.steps++;
    if (s.trace) sim_note(". %s", api);
    s.hash = mix(s.hash, u64(t->tid) * 7919 + hash_str(api, strlen(api)));
    s.now += 500 + mix(s.c->seed, mix(t->tid, t->count)) % 8000;
    if (s.steps > s.max_steps)
    {
        string w;
        for (Thread* x : s.threads) if (!x->done && x->proc->alive) w += strf(" %s@%s", x->name.c_str(), x->where);
        sim_violate("noprogress", "the run did not finish within %llu steps:%s", s.max_steps, w.c_str());
    }
    if (s.invariant) s.invariant(api);
}

void sim_point(const char* api)
{
    if (!in_sim() || g_sim->frozen) return;
    HostScope hs;
    Sim& s = *g_sim;
    Thread* t = s.cur;
    step_common(t, api);
    i64 v;
    // Crash of the process?
    if (s.crash_budget > 0 || s.c->replay)
    {
        bool crash = false;
        if (s.c->replay) crash = dec_find('c', t->tid, t->count, v);
        else if (s.p_crash > 0 && s.rng.chance(s.p_crash) && (!s.may_crash || s.may_crash(t->proc))) { crash = true; s.crash_budget--; dec_rec('c', t->tid, t->count, 1); }
        if (crash)
        {
            g_stats.faults["process_crash"]++;
            sim_note("CRASH of %s at %s", t->proc->name.c_str(), api);
            sim_kill(t->proc);
            pick_next(true);
            return;
        }
    }
    // Stall of the thread?
    u64 stall = 0;
    if (s.c->replay) { if (dec_find('d', t->tid, t->count, v)) stall = u64(v); }
    else if (s.p_delay > 0 && s.rng.chance(s.p_delay))
    {
        static const u64 scale[] = { 200000, 5000000, 60000000, 700000000, 3000000000ull };
        stall = 1 + s.rng.next() % scale[s.rng.below(5)];
        dec_rec('d', t->tid, t->count, i64(stall));
    }
    if (stall)
    {
        g_stats.faults["thread_stall"]++;
        t->stall_until = s.now + stall;
        pick_next(true);
        return;
    }
    bool preempt;
    if (s.c->replay) preempt = dec_find('s', t->tid, t->count, v);
    else preempt = s.p_preempt > 0 && s.rng.chance(s.p_preempt);
    if (preempt) pick_next(false);
}

bool sim_block(const char* api, Pred pred, u64 timeout_ns)
{
    if (!in_sim()) return !pred || pred();
    HostScope hs;
    Sim& s = *g_sim;
    Thread* t = s.cur;
    if (s.frozen) { return pred && pred(); }
    step_common(t, api);
    if (pred && pred()) return true;
    if (timeout_ns == 0) return false;
    t->pred = pred ? &pred : nullptr;
    t->deadline = timeout_ns == FOREVER ? FOREVER : s.now + timeout_ns;
    t->blocked = true;
    t->timed_out = false;
    pick_next(true);
    t->pred = nullptr;
    t->deadline = FOREVER;
    return !t->timed_out;
}

void sim_sleep(u64 ns) { sim_block("sleep", nullptr, ns ? ns : 1); }

int sim_fault(const char* api, const std::wstring& path)
{
    if (!in_sim()) return 0;
    HostScope hs;
    Sim& s = *g_sim;
    Thread* t = s.cur;
    if (!s.faults_on) return 0;
    t->faultc++;
    i64 v = 0;
    if (s.c->replay) { if (!dec_find('f', t->tid, t->faultc, v)) return 0; }
    else
    {
        if (s.fault_budget <= 0 || !s.rng.chance(s.p_fault)) return 0;
        v = s.policy.pick ? s.policy.pick(api, path, s.rng) : 0;
        if (!v) return 0;
        s.fault_budget--;
        dec_rec('f', t->tid, t->faultc, v);
    }
    g_stats.faults[api]++;
    sim_note("FAULT %d in %s %s", int(v), api, narrow(path).c_str());
    return int(v);
}

//------------------------------------------------------------------------------
// Basic block hook: coverage and fine grained preemption.
static u64 s_cov_bits[1 << 15];
u64 cov_count() { u64 n = 0; for (u64 b : s_cov_bits) n += __builtin_popcountll(b); return n; }
void cov_export(std::vector<u32>& v) { for (u32 i = 0; i < (1u << 15); ++i) for (int j = 0; j < 64; ++j) if (s_cov_bits[i] >> j & 1) v.push_back(i * 64 + j); }

static void bb_setup(Thread* t)
{
    Sim& s = *g_sim;
    t->bb_next = 0;
    if (s.c->replay)
    {
        auto i = s_bb_dec.find(t->tid);
        if (i != s_bb_dec.end())
            for (auto& p : i->second) if (p.first > t->bb) { t->bb_next = p.first; break; }
    }
    else if (s.p_bb > 0)
    {
        double u = (s.rng.next() >> 11) * (1.0 / 9007199254740992.0);
        double gap = -__builtin_log(1 - u) / s.p_bb;
        t->bb_next = t->bb + 1 + u64(gap > 1e9 ? 1e9 : gap);
    }
}
static void bb_preempt(Thread* t)
{
    HostScope hs;
    Sim& s = *g_sim;
    s_run.clear();
    u64 at = t->bb;
    bb_setup(t);
    if (s.frozen) return;
    for (Thread* x : s.threads) if (x != t && runnable(x)) s_run.push_back(x);
    if (s_run.empty()) return;
    Thread* next = nullptr;
    if (s.c->replay)
    {
        auto& l = s_bb_dec[t->tid];
        for (auto& p : l) if (p.first == at) for (Thread* x : s_run) if (x->tid == p.second) next = x;
        if (!next) return;
    }
    else
    {
        next = s_run[s.rng.below(u32(s_run.size()))];
        dec_rec('b', t->tid, at, next->tid);
    }
    s.hash = mix(s.hash, next->tid);
    t->where = "(code)";
    wake(next);
    switch_to(next);
}
static u64 s_bb_step, s_bb_count;
extern "C" void __sanitizer_cov_trace_pc()
{
    u64 pc = (u64)__builtin_return_address(0) >> 1;
    u32 h = u32(pc & 0x1fffff);
    s_cov_bits[h >> 6] |= 1ull << (h & 63);
    if (!g_sim || !g_sim->cur) return;
    Thread* t = g_sim->cur;
    if (++t->bb == t->bb_next && g_heap_mode) bb_preempt(t);
    // Code that goes on forever without a system call (the longest take about a million blocks).
    if (g_sim->steps != s_bb_step) { s_bb_step = g_sim->steps; s_bb_count = 0; }
    else if (++s_bb_count > 400000000 && g_heap_mode) { s_bb_count = 0; sim_violate("hang", "%s does not return from an endless loop", t->name.c_str()); }
}

//------------------------------------------------------------------------------
Proc* sim_new_proc(const char* name, int con)
{
    HostScope hs;
    Sim& s = *g_sim;
    Proc* p = new Proc;
    p->index = int(s.procs.size());
    p->pid = u32(s.next_pid);
    s.next_pid += 4 + mix(s.c->seed, p->index) % 40 * 4;
    p->name = name;
    p->con = con >= 0 ? con : in_sim() ? cur_proc()->con : 0;
    s.procs.push_back(p);
    g_stats.procs++;
    kernel_init_proc(p);
    return p;
}

Thread* sim_new_thread(Proc* p, const char* name, Fn fn, bool suspended)
{
    HostScope hs;
    Sim& s = *g_sim;
    Thread* t = new Thread;
    t->tid = p->index * 1000 + int(p->threads.size()) + 1;
    t->proc = p;
    t->fn = new Fn(std::move(fn));
    t->name = strf("%s/%d", name, t->tid);
    t->suspended = suspended;
    t->deadline = FOREVER;
    p->threads.push_back(t);
    s.threads.push_back(t);
    int live = 0;
    for (Thread* x : s.threads) live += !x->done;
    if (live > MAX_STACKS - 2) { sim_violate("simlimit", "too many threads"); }
    g_stats.threads++;
    bb_setup(t);
    return t;
}

static void thread_finish(Thread* t, u32 code)
{
    t->done = true;
    t->exit_code = code;
    t->tls.clear();
    kernel_thread_ended(t);
    bool any = false;
    for (Thread* x : t->proc->threads) if (!x->done) any = true;
    if (t == t->proc->threads[0] || !any) // Returning from main ends the process.
    {
        kernel_process_exit(t->proc, code, false);
    }
}

void sim_thread_exit(u32 code)
{
    g_heap_mode = 0;
    Thread* t = g_sim->cur;
    t->count++;
    thread_finish(t, code);
    pick_next(true);
    for (;;) {}
}

void sim_process_exit(u32 code)
{
    g_heap_mode = 0;
    Thread* t = g_sim->cur;
    t->count++;
    kernel_process_exit(t->proc, code, false);
    pick_next(true);
    for (;;) {}
}

void sim_kill(Proc* p, u32 code)
{
    HostScope hs;
    if (!p->alive) return;
    g_stats.crashes++;
    p->killed = true;
    kernel_process_exit(p, code, true);
    if (g_sim->on_crash) g_sim->on_crash(p);
}

void proc_dead(Proc* p)
{
    // Called by the kernel once handles are gone.
    p->alive = false;
    for (Thread* t : p->threads) { t->done = true; t->blocked = false; }
    p->image_data.clear(); p->image_data.shrink_to_fit();
    p->image_heap.clear(); p->image_heap.shrink_to_fit();
}

void sim_join_proc(Proc* p) { sim_block("join", [p] { return !p->alive; }, FOREVER); }

void sim_run()
{
    Sim& s = *g_sim;
    s_main_teb[0] = teb_get(0x08); s_main_teb[1] = teb_get(0x10); s_main_teb[2] = teb_get(0x1478);
    if (s.ended) return;
    pick_next(true);
    heap_check();
    // Reuse stacks of finished threads.
    for (Thread* t : s.threads) if (t->done && t->stack) release_stack(t);
}

// Runs `fn` on a simulated thread of process `p` with no interleaving (final checks
// that need the code under test).
void sim_begin(const Case& c, bool trace)
{
    g_heap_mode = 0;
    mem_init();
    static bool once = false;
    if (!once) { once = true; }
    s_free_stacks.clear();
    for (int i = MAX_STACKS; i--;) s_free_stacks.push_back((char*)STACK_BASE + STACK_SIZE * i);
    g_sim = new Sim;
    Sim& s = *g_sim;
    s.c = &c;
    s.rec = c;
    s.rec.dec.clear();
    s.rng = Rng(mix(c.seed, 77));
    s.epoch = 1700000000ull * 1000000000ull + mix(c.seed, 5) % 1000000000ull * 1000;
    s.now = 1000000000ull + mix(c.seed, 6) % 1000000000ull;
    s.trace = trace;
    s_trace.clear();
    load_decisions(c);
    kernel_reset();
    fs_reset();
}
void sim_end()
{
    Sim& s = *g_sim;
    g_stats.runs++;
    g_stats.steps += s.steps;
    g_stats.switches += s.switches;
    g_stats.sim_ns += s.now;
    if (g_stats.interleavings.size() < 3000000) g_stats.interleavings.insert(s.ihash);
    if (!s.v.id.empty()) g_stats.violations++;
    for (Thread* t : s.threads) { delete t->fn; delete t; }
    for (Proc* p : s.procs) delete p;
    kernel_cleanup();
    delete g_sim;
    g_sim = nullptr;
}

//------------------------------------------------------------------------------
Thread* cur_thread_or_host() { return in_sim() ? g_sim->cur : &s_host_thread; }

static LONG CALLBACK on_exception(EXCEPTION_POINTERS* e)
{
    DWORD code = e->ExceptionRecord->ExceptionCode;
    if (code != EXCEPTION_ACCESS_VIOLATION && code != EXCEPTION_ILLEGAL_INSTRUCTION && code != EXCEPTION_INT_DIVIDE_BY_ZERO && code != EXCEPTION_STACK_OVERFLOW)
        return EXCEPTION_CONTINUE_SEARCH;
    if (!in_sim())
    {
        fprintf(stderr, "crash outside a run: %08lx at %p\n", code, e->ExceptionRecord->ExceptionAddress);
        TerminateProcess(GetCurrentProcess(), 99);
    }
    g_heap_mode = 0;
    // Report the code under test's crash and abandon the run.
    static char msg[128];
    sprintf(msg, "crash %08lx at %p (address %p)", code, e->ExceptionRecord->ExceptionAddress, (void*)(e->ExceptionRecord->NumberParameters > 1 ? e->ExceptionRecord->ExceptionInformation[1] : 0));
    struct Tramp { static void go() { sim_violate("crash", "%s", msg); for (;;) {} } };
    e->ContextRecord->Rip = (u64)&Tramp::go;
    e->ContextRecord->Rsp = (e->ContextRecord->Rsp & ~15ull) - 256 - 8;
    return EXCEPTION_CONTINUE_EXECUTION;
}
static void on_terminate()
{
    if (in_sim()) sim_violate("terminate", "std::terminate called");
    fprintf(stderr, "terminate outside a run\n");
    TerminateProcess(GetCurrentProcess(), 96);
}
void core_init()
{
    mem_init();
    AddVectoredExceptionHandler(1, on_exception);
    std::set_terminate(on_terminate);
}
