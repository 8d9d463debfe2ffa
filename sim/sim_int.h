// Internal interfaces between the simulator's parts.
#pragma once
#include "sim.h"
void kernel_init_proc(Proc* p);
void kernel_thread_ended(Thread* t);
void kernel_process_exit(Proc* p, u32 code, bool crashed);
void kernel_reset();
void kernel_cleanup();
void proc_dead(Proc* p);
Thread* cur_thread_or_host();
void sim_begin(const Case& c, bool trace);
void sim_end();
void core_init();
std::vector<string>& sim_trace();
u64 cov_count();
void cov_export(std::vector<u32>& v);
u64 heap_live_blocks();
u64 heap_live_bytes();
void image_size(u64& data, u64& heap);
void sync_reset();

// Enter the simulated kernel: host heap while inside.
struct KE { int save; KE() : save(g_heap_mode) { g_heap_mode = 0; } ~KE() { g_heap_mode = save; } };

void api_register(const char* name, void* fn);
struct ApiReg { ApiReg(const char* n, void* f) { api_register(n, f); } };
// Declares the simulated version of an imported function.
#define API(ret, name, args) \
    extern "C" ret sim_##name args; \
    extern "C" { void* __simp_##name = (void*)sim_##name; } \
    static ApiReg s_reg_##name(#name, (void*)sim_##name); \
    extern "C" ret sim_##name args

struct KObj
{
    const char* type;
    int refs = 0;
    explicit KObj(const char* t) : type(t) {}
    virtual ~KObj() {}
    virtual bool signaled(Thread*) { return true; }
    virtual void consume(Thread*) {}
    virtual void closed(Proc*) {}                   // One handle was closed.
    virtual void dup(Proc*) {}
};
void obj_ref(KObj* o);
void obj_unref(KObj* o);
// Keeps an object alive during a blocking call, even if the caller gets killed in it.
void obj_pin(KObj* o);
void obj_unpin(KObj* o);
HANDLE handle_new(Proc* p, KObj* o, u32 access = 0);
KObj* handle_get(HANDLE h, u32* access = nullptr);
bool handle_close(Proc* p, HANDLE h);
void set_last_error(DWORD e);
DWORD get_last_error();
void set_errno_(int e);
Proc* the_proc();                                   // Current process (a boot process outside of runs).
std::wstring full_path(const wchar_t* p);
