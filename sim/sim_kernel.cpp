// Simulated Windows kernel: objects, handles, waiting, threads, processes, clocks,
// environment.
#include "sim.h"
#include "sim_int.h"
#include "sim_kern.h"
#include <process.h>
#include <errno.h>
#include <string.h>
#include <stdlib.h>
#include <algorithm>
#include <time.h>

//------------------------------------------------------------------------------
static std::map<string, void*>* s_apis;
void api_register(const char* n, void* f) { HostScope h; if (!s_apis) s_apis = new std::map<string, void*>; (*s_apis)[n] = f; }

static Proc* s_host_proc;
Proc* the_proc()
{
    if (in_sim()) return g_sim->cur->proc;
    if (!s_host_proc) { HostScope h; s_host_proc = new Proc; s_host_proc->pid = 4; s_host_proc->name = "host"; kernel_init_proc(s_host_proc); }
    return s_host_proc;
}

void set_last_error(DWORD e) { cur_thread_or_host()->last_error = e; }
DWORD get_last_error() { return cur_thread_or_host()->last_error; }
void set_errno_(int e) { cur_thread_or_host()->err_no = e; }

void obj_ref(KObj* o) { o->refs++; }
void obj_unref(KObj* o) { if (--o->refs == 0) delete o; }
void obj_pin(KObj* o) { obj_ref(o); cur_thread_or_host()->pins.push_back(o); }
void obj_unpin(KObj* o) { auto& p = cur_thread_or_host()->pins; for (size_t i = p.size(); i--;) if (p[i] == o) { p.erase(p.begin() + i); obj_unref(o); return; } }

HANDLE handle_new(Proc* p, KObj* o, u32 access)
{
    u64 h = p->next_handle; p->next_handle += 4;
    Handle e; e.obj = o; e.access = access;
    obj_ref(o);
    p->handles[h] = e;
    return (HANDLE)h;
}
KObj* handle_get(HANDLE h, u32* access)
{
    Proc* p = the_proc();
    if (h == (HANDLE)-1) return p->obj;                                  // Current process.
    if (h == (HANDLE)-2) return in_sim() ? thread_obj(g_sim->cur) : nullptr; // Current thread.
    auto i = p->handles.find((u64)h);
    if (i == p->handles.end()) return nullptr;
    if (access) *access = i->second.access;
    return i->second.obj;
}
bool handle_close(Proc* p, HANDLE h)
{
    auto i = p->handles.find((u64)h);
    if (i == p->handles.end()) return false;
    KObj* o = i->second.obj;
    p->handles.erase(i);
    o->closed(p);
    obj_unref(o);
    return true;
}
int proc_open_handles(Proc* p, const char* type)
{
    int n = 0;
    for (auto& h : p->handles) if (!type || !strcmp(h.second.obj->type, type)) n++;
    return n;
}

static std::wstring lower(const std::wstring& s) { std::wstring r = s; for (auto& c : r) if (c >= 'A' && c <= 'Z') c += 32; return r; }
void env_set(Proc* p, const wchar_t* n, const wchar_t* v)
{
    if (!v) p->env.erase(lower(n)); else p->env[lower(n)] = { n, v };
}
void env_set(Proc* p, const char* n, const char* v) { HostScope h; if (v) env_set(p, widen(n).c_str(), widen(v).c_str()); else env_set(p, widen(n).c_str(), nullptr); }

//------------------------------------------------------------------------------

void kernel_init_proc(Proc* p)
{
    HostScope h;
    ProcObj* o = new ProcObj; o->p = p; o->refs = 1; p->obj = o; o->pid = p->pid;
    const std::pair<const char*, const char*> envs[] = {
        { "SystemRoot", "C:\\Windows" }, { "TEMP", "C:\\temp" }, { "TMP", "C:\\temp" }, { "USERPROFILE", "C:\\users\\sim" },
        { "HOME", "C:\\users\\sim" }, { "LOCALAPPDATA", "C:\\users\\sim\\AppData\\Local" }, { "ComSpec", "C:\\Windows\\system32\\cmd.exe" },
        { "PATH", "C:\\Windows\\system32;C:\\Windows" }, { "PATHEXT", ".COM;.EXE;.BAT;.CMD" }, { "USERNAME", "sim" } };
    for (auto& e : envs) env_set(p, e.first, e.second);
    for (int i = 0; i < 3; ++i)
    {
        HANDLE c = handle_new(p, new ConObj(i == 0, &con_of(p->con)), 0);
        p->std_handles[i] = (u64)c;
        FdEnt f; f.handle = (u64)c; f.open = true; f.text = true;
        p->fds[i] = f;
    }
    // Events that static constructors made: the constructors ran once, every process has its own event.
    if (s_host_proc && p != s_host_proc)
        for (auto& e : s_host_proc->handles)
            if (!strcmp(e.second.obj->type, "event") && !p->handles.count(e.first))
            {
                EventObj* from = (EventObj*)e.second.obj; EventObj* ev = new EventObj; ev->manual = from->manual; ev->set = from->set;
                Handle n; n.obj = ev; obj_ref(ev); p->handles[e.first] = n;
                if (p->next_handle <= e.first) p->next_handle = e.first + 4;
            }
}

ThreadObj* thread_obj(Thread* t)
{
    if (!t->obj) { ThreadObj* o = new ThreadObj; o->t = t; o->tid = t->tid; o->refs = 1; t->obj = o; o->done = t->done; }
    return (ThreadObj*)t->obj;
}
void kernel_thread_ended(Thread* t)
{
    std::vector<KObj*> pins; pins.swap(t->pins);
    for (KObj* o : pins) obj_unref(o);
    if (t->obj) { ((ThreadObj*)t->obj)->done = true; ((ThreadObj*)t->obj)->code = t->exit_code; }
    sync_thread_ended(t);
}
void kernel_process_exit(Proc* p, u32 code, bool crashed)
{
    HostScope hs;
    if (!p->alive) return;
    stdio_proc_exit(p, crashed);
    for (Thread* t : p->threads) if (!t->done) { t->done = true; t->exit_code = code; kernel_thread_ended(t); }
    std::vector<u64> hs2;
    for (auto& h : p->handles) hs2.push_back(h.first);
    for (u64 h : hs2) handle_close(p, (HANDLE)h);
    p->exit_code = code;
    ProcObj* o = (ProcObj*)p->obj;
    o->done = true; o->code = code;
    sync_proc_dead(p);
    proc_dead(p);
    sim_note("process %s ended (%08x)%s", p->name.c_str(), code, crashed ? " CRASHED" : "");
}
static Registry s_reg;
Registry& registry() { return s_reg; }
static std::map<u32, Proc*> s_pids;
std::map<string, ProgramFn>& programs() { static std::map<string, ProgramFn> p; return p; }

void kernel_reset()
{
    console_reset(); clipboard_reset();
    s_reg = Registry();
    programs().clear();
    sync_reset();
    stdio_reset();
}
void kernel_cleanup()
{
}

Proc* find_pid(u32 pid) { if (!g_sim) return nullptr; for (Proc* p : g_sim->procs) if (p->pid == pid && p->alive) return p; return nullptr; }

//------------------------------------------------------------------------------
// Handles and waiting.
API(BOOL, CloseHandle, (HANDLE h))
{
    KE k; sim_point("CloseHandle");
    if ((u64)h >= ~u64(15)) return TRUE; // Pseudo handles.
    if (!handle_close(the_proc(), h)) { sim_count("bad_close"); set_last_error(ERROR_INVALID_HANDLE); if (g_on_bad_close) g_on_bad_close(h); return FALSE; }
    return TRUE;
}
void (*g_on_bad_close)(HANDLE);
API(DWORD, GetLastError, ()) { return get_last_error(); }
API(void, SetLastError, (DWORD e)) { set_last_error(e); }

API(BOOL, DuplicateHandle, (HANDLE sp, HANDLE h, HANDLE dp, LPHANDLE out, DWORD access, BOOL inherit, DWORD opts))
{
    KE k; sim_point("DuplicateHandle");
    int f = sim_fault("DuplicateHandle");
    if (f) { set_last_error(ERROR_NOT_ENOUGH_MEMORY); return FALSE; }
    KObj* spo = handle_get(sp), *dpo = handle_get(dp);
    Proc* src = spo && !strcmp(spo->type, "process") ? ((ProcObj*)spo)->p : the_proc();
    Proc* dst = dpo && !strcmp(dpo->type, "process") ? ((ProcObj*)dpo)->p : the_proc();
    KObj* o = nullptr; u32 acc = 0;
    if (h == (HANDLE)-1) o = src->obj;
    else if (h == (HANDLE)-2) o = thread_obj(g_sim->cur);
    else { auto i = src->handles.find((u64)h); if (i != src->handles.end()) { o = i->second.obj; acc = i->second.access; } }
    if (!o) { set_last_error(ERROR_INVALID_HANDLE); return FALSE; }
    if (!(opts & DUPLICATE_SAME_ACCESS) && access) acc = access;
    HANDLE n = handle_new(dst, o, acc);
    dst->handles[(u64)n].inherit = inherit;
    o->dup(dst);
    if (opts & DUPLICATE_CLOSE_SOURCE) handle_close(src, h);
    if (out) *out = n;
    return TRUE;
}
API(BOOL, SetHandleInformation, (HANDLE h, DWORD mask, DWORD flags))
{
    KE k;
    auto i = the_proc()->handles.find((u64)h);
    if (i == the_proc()->handles.end()) { set_last_error(ERROR_INVALID_HANDLE); return FALSE; }
    if (mask & HANDLE_FLAG_INHERIT) i->second.inherit = !!(flags & HANDLE_FLAG_INHERIT);
    return TRUE;
}
API(BOOL, GetHandleInformation, (HANDLE h, LPDWORD flags))
{
    KE k;
    auto i = the_proc()->handles.find((u64)h);
    if (i == the_proc()->handles.end()) { set_last_error(ERROR_INVALID_HANDLE); return FALSE; }
    *flags = i->second.inherit ? HANDLE_FLAG_INHERIT : 0;
    return TRUE;
}
static u64 tmo(DWORD t) { return t == INFINITE ? FOREVER : ms(t); }
API(DWORD, WaitForSingleObject, (HANDLE h, DWORD timeout))
{
    KE k; sim_point("WaitForSingleObject");
    KObj* o = handle_get(h);
    if (!o) { set_last_error(ERROR_INVALID_HANDLE); return WAIT_FAILED; }
    obj_pin(o);
    Thread* t = cur_thread_or_host();
    bool ok = sim_block("WaitForSingleObject", [o, t] { return o->signaled(t); }, tmo(timeout));
    if (ok) o->consume(t);
    obj_unpin(o);
    return ok ? WAIT_OBJECT_0 : WAIT_TIMEOUT;
}
API(DWORD, WaitForSingleObjectEx, (HANDLE h, DWORD timeout, BOOL)) { return sim_WaitForSingleObject(h, timeout); }
API(DWORD, WaitForMultipleObjects, (DWORD n, const HANDLE* hs, BOOL all, DWORD timeout))
{
    KE k; sim_point("WaitForMultipleObjects");
    std::vector<KObj*> o;
    for (DWORD i = 0; i < n; ++i) { KObj* x = handle_get(hs[i]); if (!x) { sim_note("waiting for a bad handle, number %u of %u: %llx", unsigned(i), unsigned(n), (u64)hs[i]); set_last_error(ERROR_INVALID_HANDLE); for (auto y : o) obj_unpin(y); return WAIT_FAILED; } obj_pin(x); o.push_back(x); }
    Thread* t = cur_thread_or_host();
    bool ok = sim_block("WaitForMultipleObjects", [&o, t, all] { for (auto x : o) { bool s = x->signaled(t); if (s && !all) return true; if (!s && all) return false; } return !!all; }, tmo(timeout));
    DWORD r = WAIT_TIMEOUT;
    if (ok)
    {
        for (DWORD i = 0; i < n; ++i)
            if (o[i]->signaled(t)) { o[i]->consume(t); if (r == WAIT_TIMEOUT) r = WAIT_OBJECT_0 + i; if (!all) break; }
    }
    for (auto y : o) obj_unpin(y);
    if (g_sim->trace) { HostScope z; sim_note("waited for %u objects (%s): %u", unsigned(n), [&] { string t; for (DWORD i = 0; i < n; ++i) t += strf("%llx ", (u64)hs[i]); return t; }().c_str(), unsigned(r)); }
    return r;
}
API(DWORD, WaitForMultipleObjectsEx, (DWORD n, const HANDLE* hs, BOOL all, DWORD timeout, BOOL)) { return sim_WaitForMultipleObjects(n, hs, all, timeout); }
API(void, Sleep, (DWORD msec)) { KE k; if (msec) sim_block("Sleep", nullptr, tmo(msec)); else sim_point("Sleep0"); }
API(void, SleepEx, (DWORD msec, BOOL)) { sim_Sleep(msec); }
API(BOOL, SwitchToThread, ()) { KE k; sim_point("SwitchToThread"); return TRUE; }

//------------------------------------------------------------------------------
static std::map<string, KObj*>& named() { static std::map<string, KObj*> m; return m; }
API(HANDLE, CreateEventA, (LPSECURITY_ATTRIBUTES, BOOL manual, BOOL initial, LPCSTR name))
{
    KE k; sim_point("CreateEvent");
    if (sim_fault("CreateEvent")) { set_last_error(ERROR_NOT_ENOUGH_MEMORY); return nullptr; }
    EventObj* e = new EventObj; e->manual = manual; e->set = initial;
    set_last_error(0);
    return handle_new(the_proc(), e);
}
API(HANDLE, CreateEventW, (LPSECURITY_ATTRIBUTES sa, BOOL manual, BOOL initial, LPCWSTR)) { return sim_CreateEventA(sa, manual, initial, nullptr); }
API(BOOL, SetEvent, (HANDLE h))
{
    KE k; sim_point("SetEvent");
    KObj* o = handle_get(h); if (!o || strcmp(o->type, "event")) { set_last_error(ERROR_INVALID_HANDLE); return FALSE; }
    ((EventObj*)o)->set = true; return TRUE;
}
API(BOOL, ResetEvent, (HANDLE h))
{
    KE k; sim_point("ResetEvent");
    KObj* o = handle_get(h); if (!o || strcmp(o->type, "event")) { set_last_error(ERROR_INVALID_HANDLE); return FALSE; }
    ((EventObj*)o)->set = false; return TRUE;
}
API(HANDLE, CreateMutexA, (LPSECURITY_ATTRIBUTES, BOOL own, LPCSTR name))
{
    KE k; sim_point("CreateMutex");
    MutexObj* m = nullptr;
    DWORD err = 0;
    if (name && g_sim)
    {
        for (auto p : g_sim->procs) if (p->alive) for (auto& h : p->handles)
            if (!strcmp(h.second.obj->type, "mutex") && ((MutexObj*)h.second.obj)->name == name) { m = (MutexObj*)h.second.obj; err = ERROR_ALREADY_EXISTS; }
    }
    if (!m) { m = new MutexObj; if (name) m->name = name; if (own) { m->owner = cur_thread_or_host(); m->depth = 1; } }
    set_last_error(err);
    return handle_new(the_proc(), m);
}
API(BOOL, ReleaseMutex, (HANDLE h))
{
    KE k; sim_point("ReleaseMutex");
    KObj* o = handle_get(h); if (!o || strcmp(o->type, "mutex")) { set_last_error(ERROR_INVALID_HANDLE); return FALSE; }
    MutexObj* m = (MutexObj*)o;
    if (m->owner != cur_thread_or_host()) { set_last_error(ERROR_NOT_OWNER); return FALSE; }
    if (--m->depth == 0) m->owner = nullptr;
    return TRUE;
}
API(HANDLE, CreateSemaphoreA, (LPSECURITY_ATTRIBUTES, LONG init, LONG max, LPCSTR)) { KE k; SemObj* s = new SemObj; s->n = init; s->max = max; return handle_new(the_proc(), s); }
API(BOOL, ReleaseSemaphore, (HANDLE h, LONG n, LPLONG prev))
{
    KE k; sim_point("ReleaseSemaphore");
    KObj* o = handle_get(h); if (!o || strcmp(o->type, "semaphore")) { set_last_error(ERROR_INVALID_HANDLE); return FALSE; }
    if (prev) *prev = ((SemObj*)o)->n; ((SemObj*)o)->n += n; return TRUE;
}

//------------------------------------------------------------------------------
// Threads.
API(HANDLE, CreateThread, (LPSECURITY_ATTRIBUTES, SIZE_T, LPTHREAD_START_ROUTINE fn, LPVOID arg, DWORD flags, LPDWORD id))
{
    KE k; sim_point("CreateThread");
    if (sim_fault("CreateThread")) { set_last_error(ERROR_NOT_ENOUGH_MEMORY); return nullptr; }
    Thread* t = sim_new_thread(cur_proc(), "thread", [fn, arg] { u32 c; { SutScope s; c = fn(arg); } g_sim->cur->exit_code = c; sim_thread_exit(c); }, !!(flags & CREATE_SUSPENDED));
    t->daemon = g_sim->cur->daemon;
    ThreadObj* o = thread_obj(t);
    if (id) *id = t->tid;
    return handle_new(cur_proc(), o);
}
API(uintptr_t, _beginthreadex, (void*, unsigned, unsigned (__stdcall *fn)(void*), void* arg, unsigned flags, unsigned* id))
{
    KE k;
    DWORD i = 0;
    uintptr_t h = (uintptr_t)sim_CreateThread(nullptr, 0, (LPTHREAD_START_ROUTINE)fn, arg, flags, &i);
    if (id) *id = i;
    if (!h) set_errno_(EAGAIN);
    return h;
}
API(void, _endthreadex, (unsigned code)) { sim_thread_exit(code); }
API(void, ExitThread, (DWORD code)) { sim_thread_exit(code); }
static Thread* th(HANDLE h) { KObj* o = handle_get(h); if (!o || strcmp(o->type, "thread")) { set_last_error(ERROR_INVALID_HANDLE); return nullptr; } return ((ThreadObj*)o)->done ? nullptr : ((ThreadObj*)o)->t; }
API(DWORD, ResumeThread, (HANDLE h))
{
    KE k; sim_point("ResumeThread");
    KObj* o = handle_get(h);
    if (o && !strcmp(o->type, "remote_thread")) { RemoteThreadObj* r = (RemoteThreadObj*)o; DWORD p = r->suspend; if (r->suspend) r->suspend--; return p; }
    Thread* t = th(h); if (!t) return (DWORD)-1; bool was = t->suspended; t->suspended = false; return was ? 1 : 0;
}
API(DWORD, SuspendThread, (HANDLE h))
{
    KE k; sim_point("SuspendThread");
    KObj* o = handle_get(h);
    if (o && !strcmp(o->type, "remote_thread")) { if (sim_fault("SuspendThread")) return (DWORD)-1; return ((RemoteThreadObj*)o)->suspend++; }
    Thread* t = th(h); if (!t) return (DWORD)-1; bool was = t->suspended; t->suspended = true; if (t == g_sim->cur) sim_block("suspended", [] { return true; }, FOREVER); return was ? 1 : 0;
}
API(BOOL, TerminateThread, (HANDLE h, DWORD code)) { KE k; sim_point("TerminateThread"); Thread* t = th(h); if (!t) return FALSE; t->done = true; t->exit_code = code; kernel_thread_ended(t); if (t == g_sim->cur) sim_thread_exit(code); return TRUE; }
API(BOOL, GetExitCodeThread, (HANDLE h, LPDWORD code))
{
    KE k; KObj* o = handle_get(h);
    if (o && !strcmp(o->type, "remote_thread")) { *code = ((RemoteThreadObj*)o)->done ? ((RemoteThreadObj*)o)->code : STILL_ACTIVE; return TRUE; }
    if (!o || strcmp(o->type, "thread")) { set_last_error(ERROR_INVALID_HANDLE); return FALSE; }
    ThreadObj* t = (ThreadObj*)o; *code = t->done ? t->code : STILL_ACTIVE; return TRUE;
}
API(DWORD, GetCurrentThreadId, ()) { return in_sim() ? g_sim->cur->tid : 1; }
API(HANDLE, GetCurrentThread, ()) { return (HANDLE)-2; }
API(DWORD, GetCurrentProcessId, ()) { return the_proc()->pid; }
API(HANDLE, GetCurrentProcess, ()) { return (HANDLE)-1; }
API(int, getpid, ()) { return the_proc()->pid; }
API(int, _getpid, ()) { return the_proc()->pid; }
API(DWORD, GetProcessId, (HANDLE h)) { KE k; KObj* o = handle_get(h); return o && !strcmp(o->type, "process") ? ((ProcObj*)o)->pid : 0; }
API(BOOL, GetExitCodeProcess, (HANDLE h, LPDWORD code))
{
    KE k; sim_point("GetExitCodeProcess"); KObj* o = handle_get(h);
    if (!o || strcmp(o->type, "process")) { set_last_error(ERROR_INVALID_HANDLE); return FALSE; }
    *code = ((ProcObj*)o)->done ? ((ProcObj*)o)->code : STILL_ACTIVE; return TRUE;
}
API(BOOL, TerminateProcess, (HANDLE h, UINT code))
{
    KE k; KObj* o = handle_get(h); if (!o || strcmp(o->type, "process")) return FALSE;
    Proc* p = ((ProcObj*)o)->p; if (p == cur_proc()) sim_process_exit(code);
    if (!((ProcObj*)o)->done) kernel_process_exit(p, code, true); return TRUE;
}
extern "C" int sim_no_atexit(void (*)()) { return 0; }
// Ending a process ends its other threads, then runs what atexit() has registered.
static void at_exit(u32 code)
{
    Proc* p; { HostScope h; p = cur_proc(); if (p->at_exit.empty()) return; p->exiting = true;
        for (Thread* t : p->threads) if (t != g_sim->cur && !t->done) { t->done = true; t->exit_code = code; kernel_thread_ended(t); } }
    for (;;)
    {
        void (*fn)(); { HostScope h; if (p->at_exit.empty()) return; fn = p->at_exit.back(); p->at_exit.pop_back(); }
        SutScope z; fn();
    }
}
API(void, ExitProcess, (UINT code)) { if (in_sim()) at_exit(code); sim_process_exit(code); }
API(void, exit, (int code)) { if (!in_sim()) _exit(code); at_exit(code); KE k; stdio_flush_all(the_proc()); sim_process_exit(code); }
API(void, abort, ()) { if (in_sim()) { sim_violate("abort", "abort() called"); } TerminateProcess(GetCurrentProcess(), 95); }
API(int, raise, (int)) { return 0; }
// The C runtime's signals for Ctrl-C and Ctrl-Break: a control handler that's installed by the first signal() call, and
// resets the signal's handler before calling it.
static BOOL WINAPI crt_ctrl(DWORD type)
{
    int sig = type == CTRL_C_EVENT ? 2 : 21;
    void* f; { HostScope h; Proc& p = *the_proc(); f = p.sig[sig]; if (f && f != (void*)1) p.sig[sig] = nullptr; }
    if (!f) return FALSE;
    if (f != (void*)1) ((void (*)(int))f)(sig);
    return TRUE;
}
API(void*, signal, (int sig, void* f))
{
    KE k; Proc& p = *the_proc(); void* old = p.sig[sig]; p.sig[sig] = f;
    if (f && !p.sig_installed && (sig == 2 || sig == 21)) { p.sig_installed = true; auto& l = con().ctrl[the_proc()]; l.push_back((void*)&crt_ctrl); }
    return old;
}
API(int, atexit, (void (*fn)())) { HostScope hs; the_proc()->at_exit.push_back(fn); return 0; }
// Sessions are judged by what they do: a release build has no assertions, so there they're only counted.
void failed_assertion(const char* e, const char* f)
{
    HostScope h;
    if (g_sim->count_asserts) { sim_note("assertion failed: %s, %s", e, f); sim_count("failed_assertions"); }
    else sim_violate("assert", "assertion failed: %s, %s", e, f);
}
API(void, _assert, (const char* e, const char* f, unsigned l)) { const char* b = strrchr(f, '/'); failed_assertion(e, b ? b + 1 : f); }
API(void, _wassert, (const wchar_t* e, const wchar_t* f, unsigned l)) { HostScope h; string fs = narrow(f); size_t p = fs.find_last_of("/\\"); failed_assertion(narrow(e).c_str(), fs.c_str() + (p == string::npos ? 0 : p + 1)); }
API(int*, _errno, ()) { return &cur_thread_or_host()->err_no; }
API(int, _get_errno, (int* e)) { *e = cur_thread_or_host()->err_no; return 0; }
API(int, _set_errno, (int e)) { cur_thread_or_host()->err_no = e; return 0; }
API(void*, _set_invalid_parameter_handler, (void*)) { return nullptr; }
API(LPTOP_LEVEL_EXCEPTION_FILTER, SetUnhandledExceptionFilter, (LPTOP_LEVEL_EXCEPTION_FILTER)) { return nullptr; }
API(UINT, SetErrorMode, (UINT)) { return 0; }

//------------------------------------------------------------------------------
// Clocks.
static u64 now_ns() { return g_sim ? g_sim->now : 1000000000ull; }
static u64 wall_ns() { return (g_sim ? g_sim->epoch : 1700000000ull * 1000000000ull) + now_ns() + g_clock_skew; }
i64 g_clock_skew = 0;
static u64 filetime() { return wall_ns() / 100 + 116444736000000000ull; }
u64 sim_filetime() { return filetime(); }
API(DWORD, GetTickCount, ()) { return DWORD(now_ns() / 1000000) ; }
API(ULONGLONG, GetTickCount64, ()) { return now_ns() / 1000000; }
API(BOOL, QueryPerformanceCounter, (LARGE_INTEGER* i)) { KE k; sim_point("QueryPerformanceCounter"); i->QuadPart = now_ns() / 100; return TRUE; }
API(BOOL, QueryPerformanceFrequency, (LARGE_INTEGER* i)) { i->QuadPart = 10000000; return TRUE; }
API(void, GetSystemTimeAsFileTime, (LPFILETIME f)) { u64 v = filetime(); f->dwLowDateTime = u32(v); f->dwHighDateTime = u32(v >> 32); }
API(void, GetSystemTime, (LPSYSTEMTIME s)) { FILETIME f; sim_GetSystemTimeAsFileTime(&f); FileTimeToSystemTime(&f, s); }
API(void, GetLocalTime, (LPSYSTEMTIME s)) { sim_GetSystemTime(s); }
API(__time64_t, _time64, (__time64_t* t)) { __time64_t v = __time64_t(wall_ns() / 1000000000ull); if (t) *t = v; return v; }
API(__time64_t, time, (__time64_t* t)) { return sim__time64(t); }
API(long, clock, ()) { return long(now_ns() / 1000000); }
API(struct tm*, _localtime64, (const __time64_t* t)) { return _gmtime64(t); }
API(int, _localtime64_s, (struct tm* o, const __time64_t* t)) { struct tm* r = _gmtime64(t); if (!r) return EINVAL; *o = *r; return 0; }
API(int, rand, ()) { Proc* p = the_proc(); p->rand_state = p->rand_state * 214013 + 2531011; return (p->rand_state >> 16) & 0x7fff; }
API(void, srand, (unsigned s)) { the_proc()->rand_state = s; }

//------------------------------------------------------------------------------
// Environment and current directory.
API(DWORD, GetEnvironmentVariableW, (LPCWSTR n, LPWSTR buf, DWORD size))
{
    KE k;
    auto& e = the_proc()->env; auto i = e.find(lower(n));
    if (i == e.end()) { set_last_error(ERROR_ENVVAR_NOT_FOUND); return 0; }
    auto& v = i->second.second;
    if (size <= v.size()) return DWORD(v.size() + 1);
    memcpy(buf, v.c_str(), (v.size() + 1) * 2);
    return DWORD(v.size());
}
API(DWORD, GetEnvironmentVariableA, (LPCSTR n, LPSTR buf, DWORD size))
{
    KE k;
    auto& e = the_proc()->env; auto i = e.find(lower(widen(n)));
    if (i == e.end()) { set_last_error(ERROR_ENVVAR_NOT_FOUND); return 0; }
    string v = narrow(i->second.second);
    if (size <= v.size()) return DWORD(v.size() + 1);
    memcpy(buf, v.c_str(), v.size() + 1);
    return DWORD(v.size());
}
API(BOOL, SetEnvironmentVariableW, (LPCWSTR n, LPCWSTR v)) { KE k; env_set(the_proc(), n, v); return TRUE; }
API(BOOL, SetEnvironmentVariableA, (LPCSTR n, LPCSTR v)) { KE k; env_set(the_proc(), n, v); return TRUE; }
API(int, _wputenv_s, (const wchar_t* n, const wchar_t* v)) { KE k; env_set(the_proc(), n, v && *v ? v : nullptr); return 0; }
API(int, putenv, (const char* s)) { KE k; string x = s; size_t p = x.find('='); if (p == string::npos) return -1; string v = x.substr(p + 1); env_set(the_proc(), x.substr(0, p).c_str(), v.empty() ? nullptr : v.c_str()); return 0; }
API(char*, getenv, (const char* n))
{
    KE k;
    auto& e = the_proc()->env; auto i = e.find(lower(widen(n)));
    if (i == e.end()) return nullptr;
    static char ring[8][1024]; static int r; r = (r + 1) % 8;
    string v = narrow(i->second.second); v.resize(std::min<size_t>(v.size(), 1023)); strcpy(ring[r], v.c_str());
    return ring[r];
}
API(LPWCH, GetEnvironmentStringsW, ())
{
    KE k;
    std::wstring b;
    for (auto& e : the_proc()->env) { b += e.second.first; b += L'='; b += e.second.second; b += L'\0'; }
    b += L'\0';
    wchar_t* p = (wchar_t*)malloc(b.size() * 2); memcpy(p, b.data(), b.size() * 2);
    return p;
}
API(BOOL, FreeEnvironmentStringsW, (LPWCH p)) { KE k; free(p); return TRUE; }
API(DWORD, GetCurrentDirectoryW, (DWORD n, LPWSTR b))
{
    KE k; auto& c = the_proc()->cwd;
    if (n <= c.size()) return DWORD(c.size() + 1);
    memcpy(b, c.c_str(), (c.size() + 1) * 2); return DWORD(c.size());
}
API(BOOL, SetCurrentDirectoryW, (LPCWSTR p))
{
    KE k; sim_point("SetCurrentDirectory");
    std::wstring f = full_path(p);
    if (!fs_is_dir(f)) { set_last_error(ERROR_PATH_NOT_FOUND); return FALSE; }
    if (f.size() > 3 && f.back() == '\\') f.pop_back();
    the_proc()->cwd = fs_display_path(f);
    return TRUE;
}

//------------------------------------------------------------------------------
API(HMODULE, LoadLibraryA, (LPCSTR n)) { return LoadLibraryA(n); }
FARPROC proc_by_name(HMODULE m, const string& n);
API(FARPROC, GetProcAddress, (HMODULE m, LPCSTR n))
{
    KE k;
    if ((u64)n > 65535) { auto i = s_apis->find(n); if (i != s_apis->end()) return (FARPROC)i->second; }
    // Behave like a Windows where the optional newer APIs are missing.
    if ((u64)n > 65535 && g_hidden_procs.count(n)) return nullptr;
    if ((u64)n <= 65535) return nullptr;
    return proc_by_name(m, n);
}
std::set<string> g_hidden_procs;
API(LPWSTR, GetCommandLineW, ()) { static wchar_t c[] = L"cmd.exe"; return c; }
API(HMODULE, GetModuleHandleA, (LPCSTR n)) { KE k; if (!n && the_proc()->exe) return (HMODULE)the_proc()->exe; return GetModuleHandleA(n); }
API(int, MessageBoxA, (HWND, LPCSTR text, LPCSTR title, UINT)) { sim_note("MessageBox: %s: %s", title ? title : "", text ? text : ""); sim_count("messagebox"); return IDCANCEL; }
API(int, MessageBoxW, (HWND, LPCWSTR text, LPCWSTR title, UINT)) { sim_count("messagebox"); return IDCANCEL; }
API(void, OutputDebugStringW, (LPCWSTR)) {}
API(void, OutputDebugStringA, (LPCSTR)) {}
API(BOOL, MessageBeep, (UINT)) { return TRUE; }

//------------------------------------------------------------------------------
// Processes.
static Proc* spawn(const wchar_t* cmd, const u64 std_h[3], bool inherit_all, Proc* parent)
{
    string c = narrow(cmd);
    // Find a program whose name appears in the command line.
    ProgramFn fn; string pn;
    for (auto& p : programs()) if (c.find(p.first) != string::npos && p.first.size() > pn.size()) { fn = p.second; pn = p.first; }
    if (!fn) return nullptr;
    Proc* p = sim_new_proc(strf("child(%s)", pn.c_str()).c_str());
    p->native = true;
    p->env = parent->env; p->cwd = parent->cwd;
    if (inherit_all)
        for (auto& h : parent->handles)
            if (h.second.inherit) { p->handles[h.first] = h.second; obj_ref(h.second.obj); h.second.obj->dup(p); if (p->next_handle <= h.first) p->next_handle = h.first + 4; }
    for (int i = 0; i < 3; ++i)
    {
        auto it = parent->handles.find(std_h[i]);
        if (it == parent->handles.end()) continue;
        if (inherit_all && p->handles.count(std_h[i]) && p->handles[std_h[i]].obj == it->second.obj) { p->std_handles[i] = std_h[i]; continue; }
        if (strcmp(it->second.obj->type, "console")) { p->std_handles[i] = std_h[i]; continue; } // Not inheritable: not usable by the child.
    }
    string line = c;
    Thread* t = sim_new_thread(p, pn.c_str(), [p, fn, line] { HostScope h; u32 code = fn(p, line); g_sim->cur->exit_code = code; sim_process_exit(code); });
    (void)t;
    return p;
}
API(BOOL, CreateProcessW, (LPCWSTR app, LPWSTR cmd, LPSECURITY_ATTRIBUTES, LPSECURITY_ATTRIBUTES, BOOL inherit, DWORD flags, LPVOID env, LPCWSTR cwd, LPSTARTUPINFOW si, LPPROCESS_INFORMATION pi))
{
    KE k; sim_point("CreateProcess");
    if (sim_fault("CreateProcess")) { set_last_error(ERROR_NOT_ENOUGH_MEMORY); return FALSE; }
    Proc* me = the_proc();
    u64 sh[3]; for (int i = 0; i < 3; ++i) sh[i] = me->std_handles[i];
    if (si && (si->dwFlags & STARTF_USESTDHANDLES)) { sh[0] = (u64)si->hStdInput; sh[1] = (u64)si->hStdOutput; sh[2] = (u64)si->hStdError; }
    Proc* p = spawn(cmd ? cmd : app, sh, inherit, me);
    if (!p) { set_last_error(ERROR_FILE_NOT_FOUND); return FALSE; }
    sim_note("CreateProcess %s", narrow(cmd ? cmd : app).c_str());
    pi->hProcess = handle_new(me, p->obj);
    pi->hThread = handle_new(me, thread_obj(p->threads[0]));
    pi->dwProcessId = p->pid; pi->dwThreadId = p->threads[0]->tid;
    return TRUE;
}
API(BOOL, CreateProcessA, (LPCSTR app, LPSTR cmd, LPSECURITY_ATTRIBUTES a, LPSECURITY_ATTRIBUTES b, BOOL inherit, DWORD flags, LPVOID env, LPCSTR cwd, LPSTARTUPINFOA si, LPPROCESS_INFORMATION pi))
{
    KE k;
    std::wstring wa = app ? widen(app) : L"", wc = cmd ? widen(cmd) : L"";
    return sim_CreateProcessW(app ? wa.c_str() : nullptr, cmd ? &wc[0] : nullptr, a, b, inherit, flags, env, nullptr, (LPSTARTUPINFOW)si, pi);
}
API(HANDLE, OpenProcess, (DWORD access, BOOL, DWORD pid))
{
    KE k; sim_point("OpenProcess");
    if (sim_fault("OpenProcess")) { set_last_error(ERROR_ACCESS_DENIED); return nullptr; }
    Proc* p = find_pid(pid);
    if (!p) { set_last_error(ERROR_INVALID_PARAMETER); return nullptr; }
    return handle_new(the_proc(), p->obj, access);
}
API(intptr_t, _cwait, (int* status, intptr_t h, int))
{
    KE k;
    KObj* o = handle_get((HANDLE)h);
    if (!o || strcmp(o->type, "process")) { set_errno_(ECHILD); return -1; }
    obj_pin(o);
    sim_block("_cwait", [o] { return ((ProcObj*)o)->done; }, FOREVER);
    if (status) *status = int(((ProcObj*)o)->code);
    u32 pid = ((ProcObj*)o)->pid;
    obj_unpin(o);
    handle_close(the_proc(), (HANDLE)h);
    return pid;
}
API(HANDLE, CreateJobObjectA, (LPSECURITY_ATTRIBUTES, LPCSTR)) { KE k; return handle_new(the_proc(), new KObj("job")); }
API(BOOL, AssignProcessToJobObject, (HANDLE, HANDLE)) { return TRUE; }
API(BOOL, SetInformationJobObject, (HANDLE, int, LPVOID, DWORD)) { return TRUE; }
