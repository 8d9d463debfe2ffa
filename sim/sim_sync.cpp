// Threads and locks of the C++ runtime (winpthreads), function-local statics and
// thread locals.  State is kept by the simulator, keyed by process and address.
#include "sim.h"
#include "sim_int.h"
#include "sim_kern.h"
#include <errno.h>
#include <string.h>
#include <time.h>

// Only the code under test synchronises; the simulator itself never waits.
static bool sut() { return in_sim() && g_heap_mode; }
typedef std::pair<Proc*, u64> PKey;
struct PMutex { int kind = 0; Thread* owner = nullptr; int depth = 0; };
struct PCond { std::deque<std::pair<Thread*, bool*>> waiters; };
static std::map<PKey, PMutex>* s_mutexes;
static std::map<PKey, PCond>* s_conds;
static std::map<PKey, Thread*>* s_guards;
static void init() { if (!s_mutexes) { s_mutexes = new std::map<PKey, PMutex>; s_conds = new std::map<PKey, PCond>; s_guards = new std::map<PKey, Thread*>; } }
void sync_reset() { HostScope h; init(); s_mutexes->clear(); s_conds->clear(); s_guards->clear(); }
void sync_thread_ended(Thread*) {}
void sync_proc_dead(Proc* p)
{
    init();
    for (auto i = s_mutexes->begin(); i != s_mutexes->end();) if (i->first.first == p) i = s_mutexes->erase(i); else ++i;
    for (auto i = s_conds->begin(); i != s_conds->end();) if (i->first.first == p) i = s_conds->erase(i); else ++i;
    for (auto i = s_guards->begin(); i != s_guards->end();) if (i->first.first == p) i = s_guards->erase(i); else ++i;
}
static PMutex& mtx(intptr_t* m)
{
    init();
    PKey k(cur_proc(), (u64)m);
    auto i = s_mutexes->find(k);
    if (i == s_mutexes->end()) { PMutex x; x.kind = *m == -3 ? 1 : 0; i = s_mutexes->insert({ k, x }).first; }
    return i->second;
}
static int lock(intptr_t* m, u64 timeout, const char* api)
{
    PMutex* x = &mtx(m);
    Thread* t = g_sim->cur;
    // Windows ends a process that would wait for a thread that exiting has ended.
    if (t->proc->exiting && x->owner && x->owner->done) { sim_note("lock of an ended thread, while exiting"); sim_process_exit(t->proc->exit_code); }
    if (x->owner == t)
    {
        if (x->kind == 1) { sim_point(api); x->depth++; return 0; }
        sim_violate("deadlock", "thread %s locks a mutex that it already holds", t->name.c_str());
        return EDEADLK;
    }
    if (!timeout) { sim_point(api); if (x->owner) return EBUSY; }
    else
    {
        sim_point(api);
        if (!sim_block(api, [x] { return !x->owner; }, timeout)) return ETIMEDOUT;
    }
    x->owner = t; x->depth = 1;
    return 0;
}
extern "C" {
int __wrap_pthread_mutex_lock(intptr_t* m) { if (!sut()) return 0; KE k; return lock(m, FOREVER, "mutex_lock"); }
int __wrap_pthread_mutex_trylock(intptr_t* m) { if (!sut()) return 0; KE k; return lock(m, 0, "mutex_trylock"); }
int __wrap_pthread_mutex_unlock(intptr_t* m)
{
    if (!sut()) return 0;
    KE k;
    PMutex& x = mtx(m);
    if (x.owner != g_sim->cur) { sim_violate("mutex", "unlock of a mutex that the thread does not hold"); return EPERM; }
    if (--x.depth == 0) { x.owner = nullptr; sim_point("mutex_unlock"); }
    return 0;
}
int __wrap_pthread_mutex_init(intptr_t* m, void* attr) { *m = -1; if (sut()) { KE k; init(); s_mutexes->erase(PKey(cur_proc(), (u64)m)); if (attr) mtx(m).kind = 1; } return 0; }
int __wrap_pthread_mutex_destroy(intptr_t* m) { if (sut()) { KE k; init(); auto i = s_mutexes->find(PKey(cur_proc(), (u64)m)); if (i != s_mutexes->end()) { if (i->second.owner) sim_violate("mutex", "destroy of a locked mutex"); s_mutexes->erase(i); } } return 0; }
int __wrap_pthread_cond_init(intptr_t* c, void*) { *c = -1; if (sut()) { KE k; init(); s_conds->erase(PKey(cur_proc(), (u64)c)); } return 0; }
int __wrap_pthread_cond_destroy(intptr_t* c) { if (sut()) { KE k; init(); s_conds->erase(PKey(cur_proc(), (u64)c)); } return 0; }
static int cond_wait(intptr_t* c, intptr_t* m, u64 timeout)
{
    KE k; init();
    PCond& x = (*s_conds)[PKey(cur_proc(), (u64)c)];
    bool* woken = new bool(false);
    x.waiters.push_back({ g_sim->cur, woken });
    PMutex& mm = mtx(m); mm.owner = nullptr; mm.depth = 0;
    bool ok = sim_block("cond_wait", [woken] { return *woken; }, timeout);
    auto& y = (*s_conds)[PKey(cur_proc(), (u64)c)];
    for (size_t i = y.waiters.size(); i--;) if (y.waiters[i].second == woken) y.waiters.erase(y.waiters.begin() + i);
    delete woken;
    lock(m, FOREVER, "mutex_lock");
    return ok ? 0 : ETIMEDOUT;
}
int __wrap_pthread_cond_wait(intptr_t* c, intptr_t* m) { if (!sut()) return 0; return cond_wait(c, m, FOREVER); }
int __wrap_pthread_cond_timedwait(intptr_t* c, intptr_t* m, const struct _timespec64* ts)
{
    if (!sut()) return 0;
    u64 abs = u64(ts->tv_sec) * 1000000000ull + ts->tv_nsec, now = g_sim->epoch + g_sim->now;
    return cond_wait(c, m, abs > now ? abs - now : 1);
}
int __wrap_pthread_cond_signal(intptr_t* c) { if (!sut()) return 0; KE k; init(); auto& x = (*s_conds)[PKey(cur_proc(), (u64)c)]; for (auto& w : x.waiters) if (!*w.second) { *w.second = true; break; } sim_point("cond_signal"); return 0; }
int __wrap_pthread_cond_broadcast(intptr_t* c) { if (!sut()) return 0; KE k; init(); auto& x = (*s_conds)[PKey(cur_proc(), (u64)c)]; for (auto& w : x.waiters) *w.second = true; sim_point("cond_broadcast"); return 0; }

uintptr_t __wrap_pthread_self() { return in_sim() ? uintptr_t(g_sim->cur->tid) : 1; }
int __wrap_pthread_create(uintptr_t* id, void*, void* (*fn)(void*), void* arg)
{
    KE k;
    if (!in_sim()) return EAGAIN;
    sim_point("pthread_create");
    if (sim_fault("pthread_create")) return EAGAIN;
    Thread* t = sim_new_thread(cur_proc(), "std::thread", [fn, arg] { SutScope s; fn(arg); });
    t->daemon = g_sim->cur->daemon;
    *id = uintptr_t(t->tid);
    sim_point("pthread_created");
    return 0;
}
static Thread* find_thread(uintptr_t id) { for (Thread* t : cur_proc()->threads) if (uintptr_t(t->tid) == id) return t; return nullptr; }
int __wrap_pthread_join(uintptr_t id, void** ret)
{
    KE k;
    Thread* t = find_thread(id);
    if (!t || t->detached) return EINVAL;
    if (t == g_sim->cur) return EDEADLK;
    sim_block("pthread_join", [t] { return t->done; }, FOREVER);
    if (ret) *ret = nullptr;
    t->detached = true;
    return 0;
}
int __wrap_pthread_detach(uintptr_t id)
{
    KE k;
    Thread* t = find_thread(id);
    if (!t || t->detached) return EINVAL;
    t->detached = true;
    sim_point("pthread_detach");
    return 0;
}
int __wrap_nanosleep(const struct timespec* r, struct timespec*) { KE k; sim_block("nanosleep", nullptr, u64(r->tv_sec) * 1000000000ull + r->tv_nsec + 1); return 0; }
int __wrap_nanosleep64(const struct _timespec64* r, struct _timespec64*) { KE k; sim_block("nanosleep", nullptr, u64(r->tv_sec) * 1000000000ull + r->tv_nsec + 1); return 0; }
static void clk(int id, i64& s, long& n) { u64 v = g_sim ? g_sim->now : 1000000000ull; if (id == 0) v += g_sim ? g_sim->epoch + g_clock_skew : 1700000000ull * 1000000000ull; s = i64(v / 1000000000ull); n = long(v % 1000000000ull); }
int __wrap_clock_gettime(int id, struct timespec* t) { i64 s; long n; clk(id, s, n); t->tv_sec = s; t->tv_nsec = n; return 0; }
int __wrap_clock_gettime64(int id, struct _timespec64* t) { i64 s; long n; clk(id, s, n); t->tv_sec = s; t->tv_nsec = n; return 0; }
}

//------------------------------------------------------------------------------
// Function-local statics.
API(int, __cxa_guard_acquire, (u64* g))
{
    if (*(char*)g) return 0;
    if (!in_sim()) return 1;
    KE k; init();
    PKey key(cur_proc(), (u64)g);
    Thread* me = g_sim->cur;
    for (;;)
    {
        auto i = s_guards->find(key);
        if (i == s_guards->end()) break;
        if (i->second == me) { sim_violate("deadlock", "recursive initialisation of a static"); return 0; }
        sim_block("guard", [key] { return !s_guards->count(key); }, FOREVER);
        if (*(char*)g) return 0;
    }
    (*s_guards)[key] = me;
    return 1;
}
API(void, __cxa_guard_release, (u64* g)) { *(char*)g = 1; if (!in_sim()) return; KE k; init(); s_guards->erase(PKey(cur_proc(), (u64)g)); }
API(void, __cxa_guard_abort, (u64* g)) { if (!in_sim()) return; KE k; init(); s_guards->erase(PKey(cur_proc(), (u64)g)); }

// Thread locals: gcc's emulated TLS objects.
struct emutls_object { u64 size, align; void* ptr; void* templ; };
API(void*, __emutls_get_address, (emutls_object* o))
{
    Thread* t = cur_thread_or_host();
    void* p;
    {
        KE k;
        auto i = t->tls.find(o);
        if (i != t->tls.end()) return i->second;
    }
    { SutScope s; p = malloc(o->size + o->align); p = (void*)(((u64)p + o->align - 1) / o->align * o->align); if (o->templ) memcpy(p, o->templ, o->size); else memset(p, 0, o->size); }
    { KE k; t->tls[o] = p; }
    return p;
}
