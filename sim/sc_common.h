// Helpers shared by the scenarios.  Scenario files are compiled against the code under
// test and are retargeted like it: OS calls made in them reach the simulated system.
#pragma once
#include "sim.h"
#include "sim_kern.h"
#include <algorithm>

#include <core/base.h>
#include <core/str.h>
#include <core/str_iter.h>
#include <core/settings.h>
#include <core/os.h>
#include <core/path.h>

inline void set_setting(const char* name, const char* value)
{
    setting* s = settings::find(name);
    if (!s || !s->set(value)) sim_violate("harness", "cannot set %s=%s", name, value);
}

// A random set of scheduling parameters; stored in the case.
inline void gen_sched(Rng& r, Case& c, bool crash, bool stall = true)
{
    static const char* pre[] = { "0.02", "0.1", "0.3", "0.6" };
    c.sets("p_preempt", pre[r.below(4)]);
    static const char* bb[] = { "0", "0", "0.0005", "0.005" };
    c.sets("p_bb", bb[r.below(4)]);
    static const char* dl[] = { "0", "0", "0.004", "0.03" };
    c.sets("p_delay", stall ? dl[r.below(4)] : "0");
    static const char* cr[] = { "0.001", "0.004", "0.015" };
    if (crash && r.chance(0.6)) { c.sets("p_crash", cr[r.below(3)]); c.seti("crashes", r.range(1, 3)); }
}
inline void use_sched(const Case& c)
{
    Sim& s = *g_sim;
    s.p_preempt = c.getf("p_preempt", 0.1);
    s.p_bb = c.getf("p_bb", 0);
    s.p_delay = c.getf("p_delay", 0);
    s.p_crash = c.getf("p_crash", 0);
    s.crash_budget = c.geti("crashes", 0);
    s.p_fault = c.getf("p_fault", 0);
    s.fault_budget = c.geti("faults", 0);
    s.faults_on = c.geti("faults", 0) > 0;
}
inline void quiesce() { Sim& s = *g_sim; s.p_preempt = s.p_bb = s.p_delay = s.p_crash = 0; s.crash_budget = s.fault_budget = 0; s.faults_on = false; }

// Runs `fn` in a new simulated process with one thread, and (from the host) to its end.
inline Proc* host_run_proc(const char* name, Fn fn)
{
    Proc* p = sim_new_proc(name);
    sim_new_thread(p, name, std::move(fn));
    sim_run();
    return p;
}
// From a simulated thread: runs a child process and waits for it.
template <class F> inline Proc* child_proc(const char* name, F f)
{
    HostScope hs;
    Fn fn(f);                               // (Closures of processes live on the host's heap.)
    Proc* p = sim_new_proc(name);
    p->env = cur_proc()->env;
    p->cwd = cur_proc()->cwd;
    sim_new_thread(p, name, std::move(fn));
    sim_join_proc(p);
    return p;
}
inline string hstr(const char* p, size_t n) { return string(p, n); }
inline string show(const string& s) { string r; for (size_t i = 0; i < s.size() && i < 60; ++i) { unsigned char c = s[i]; if (c >= 32 && c < 127) r += char(c); else r += strf("\\x%02x", c); } if (s.size() > 60) r += strf("...(%d bytes)", int(s.size())); return r; }

// Sends the current process's stdout (and stderr) to a file of the simulated file system.
inline void redirect_out(const wchar_t* path)
{
    HANDLE f = CreateFileW(path, GENERIC_READ|GENERIC_WRITE, FILE_SHARE_READ|FILE_SHARE_WRITE, nullptr, CREATE_ALWAYS, 0, nullptr);
    HostScope hs;
    Proc* p = cur_proc();
    for (int i = 1; i <= 2; ++i) { p->std_handles[i] = (u64)f; p->fds[i].handle = (u64)f; }
}
