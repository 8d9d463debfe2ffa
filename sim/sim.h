// The simulator's core interface.  See /verif/DESIGN.md.
#pragma once
#ifndef WIN32_LEAN_AND_MEAN
#define WIN32_LEAN_AND_MEAN
#endif
#include <windows.h>
#include <stdint.h>
#include <stdio.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <unordered_map>
#include <functional>
#include <memory>
#include <deque>

typedef uint64_t u64;
typedef uint32_t u32;
typedef int64_t i64;
typedef std::string string;

// Heap mode: 0 = host heap (simulator, oracles), 1 = simulated process heap.
extern int g_heap_mode;
struct HostScope { int save; HostScope() : save(g_heap_mode) { g_heap_mode = 0; } ~HostScope() { g_heap_mode = save; } };
struct SutScope { int save; SutScope() : save(g_heap_mode) { g_heap_mode = 1; } ~SutScope() { g_heap_mode = save; } };

//------------------------------------------------------------------------------
struct Rng
{
    u64 s;
    explicit Rng(u64 seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    u64 next() { u64 z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    u32 below(u32 n) { return n ? u32((next() >> 11) % n) : 0; }
    int range(int a, int b) { return a + int(below(u32(b - a + 1))); }
    bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(u32(v.size()))]; }
};
u64 mix(u64 a, u64 b);
u64 hash_str(const char* p, size_t n, u64 h = 1469598103934665603ull);

//------------------------------------------------------------------------------
// A case: everything a run depends on.
struct Op
{
    int actor = 0;
    string verb;
    std::vector<string> a;
    const string& arg(size_t i) const { static string e; return i < a.size() ? a[i] : e; }
    int num(size_t i) const { return i < a.size() ? atoi(a[i].c_str()) : 0; }
};
struct Case
{
    string scenario;
    u64 seed = 1;
    bool replay = false;                    // Decisions come only from the maps.
    std::map<string, string> cfg;
    std::vector<Op> ops;
    std::map<string, string> dec;           // Recorded scheduling decisions and faults.
    string expect_id;                       // Violation that a replay must reproduce.
    string expect_msg;
    u64 expect_hash = 0;

    int geti(const char* k, int d = 0) const { auto i = cfg.find(k); return i == cfg.end() ? d : atoi(i->second.c_str()); }
    string gets(const char* k, const char* d = "") const { auto i = cfg.find(k); return i == cfg.end() ? string(d) : i->second; }
    void seti(const char* k, i64 v) { cfg[k] = std::to_string(v); }
    void sets(const char* k, const string& v) { cfg[k] = v; }
    double getf(const char* k, double d = 0) const { auto i = cfg.find(k); return i == cfg.end() ? d : atof(i->second.c_str()); }
    void add(int actor, const char* verb, std::vector<string> args = {}) { Op o; o.actor = actor; o.verb = verb; o.a = std::move(args); ops.push_back(std::move(o)); }
};
string case_to_text(const Case& c);
bool case_from_text(const string& text, Case& c);
string esc(const string& s);
string unesc(const string& s);

//------------------------------------------------------------------------------
struct Proc;
struct KObj;
struct Thread;
typedef std::function<void()> Fn;
typedef std::function<bool()> Pred;

struct Ctx { void* rsp; };

struct Thread
{
    int tid = 0;
    Proc* proc = nullptr;
    Fn* fn = nullptr;
    string name;
    Ctx ctx;
    char* stack = nullptr;
    void* teb[3] = {};
    bool started = false, done = false, detached = false, suspended = false, daemon = false;
    bool blocked = false;
    Pred* pred = nullptr;
    u64 deadline = 0;
    bool timed_out = false;
    u64 count = 0;                          // Scheduling points so far.
    u64 bb = 0;                             // Basic blocks so far.
    u64 faultc = 0;
    int heap_mode = 1;
    DWORD last_error = 0;
    int err_no = 0;
    u32 exit_code = 0;
    void* retval = nullptr;
    KObj* obj = nullptr;                    // Thread kernel object.
    int held = 0;                           // File locks held (for checks).
    const char* where = "";
    std::map<void*, void*> tls;
    u64 stall_until = 0;
    u64 bb_next = 0;
    std::vector<KObj*> pins;                // Kernel objects held by calls in progress.
};

struct Handle { KObj* obj = nullptr; u32 access = 0; bool inherit = false; };
struct FdEnt { u64 handle = 0; bool text = false, append = false, open = false; };

struct Proc
{
    int index = 0;
    u32 pid = 0;
    string name;
    bool alive = true, killed = false, native = false;
    u32 exit_code = 0;
    std::map<std::wstring, std::pair<std::wstring, std::wstring>> env; // key lower -> (name, value)
    std::wstring cwd = L"C:\\work";
    std::map<u64, Handle> handles;
    u64 next_handle = 0x100;
    std::map<int, FdEnt> fds;
    std::vector<Thread*> threads;
    std::vector<char> image_data, image_heap;
    bool image_valid = false;
    KObj* obj = nullptr;
    u32 rand_state = 1;
    std::map<int, void*> sig; bool sig_installed = false; struct Thread* ctrl_thread = nullptr; u64 ctrl_changes = 0;   // C runtime signals.
    string out, errout;                     // Captured stdout / stderr.
    u64 std_handles[3] = {};
    int con = 0;                            // Which console it belongs to.
    void* exe = nullptr;                    // What GetModuleHandle(nullptr) returns, if set.
    std::set<void*> files;                  // Open stdio streams.
    void* invalid_param = nullptr;
    std::vector<void (*)()> at_exit; bool exiting = false;
};

//------------------------------------------------------------------------------
struct Violation { string id, msg, known; };

struct Stats
{
    u64 runs = 0, steps = 0, switches = 0, sim_ns = 0, violations = 0, procs = 0, threads = 0, crashes = 0, deadlocks_avoided = 0;
    std::map<string, u64> faults;           // kind -> times injected.
    std::map<string, u64> counters;         // Scenario counters.
    std::unordered_set<u64> interleavings;
    std::unordered_set<u64> states;
};
extern Stats g_stats;

struct FaultPolicy
{
    // Returns a fault code for this call (0 = none).
    std::function<int(const char* api, const std::wstring& path, Rng& rng)> pick;
};

struct Sim
{
    const Case* c = nullptr;
    Case rec;                               // What gets recorded.
    Rng rng;
    u64 now = 0;                            // Nanoseconds since the simulated boot.
    u64 epoch = 0;                          // Simulated wall clock at boot (unix ns).
    std::vector<Proc*> procs;
    std::vector<Thread*> threads;
    Thread* cur = nullptr;
    Proc* loaded = nullptr;
    bool ended = false;
    Violation v;
    u64 hash = 0;
    u64 ihash = 0;
    u64 steps = 0, max_steps = 400000;
    bool count_asserts = false;      // Count failed assertions instead of reporting them.
    u64 switches = 0;
    double p_preempt = 0.1;
    double p_bb = 0;                        // Per basic block preemption probability.
    double p_delay = 0;                     // Stall probability per scheduling point.
    double p_crash = 0;
    int crash_budget = 0;
    bool faults_on = false;
    double p_fault = 0;
    int fault_budget = 0;
    FaultPolicy policy;
    std::function<void(Proc*)> on_crash;
    std::function<bool(Proc*)> may_crash;
    // Observes changes to files, just before they are made: op is 't' (truncate to n), 'w' (write at n), 'd' (delete).
    std::function<void(char op, const string& path, u64 n)> on_fs;
    std::function<void(const char* api)> invariant; // Called at scheduling points, in host mode.
    bool trace = false;
    u64 next_pid = 1000;
    bool frozen = false;                    // No scheduling (final checks).
    int logsink = 0;
};
extern Sim* g_sim;
inline bool in_sim() { return g_sim && g_sim->cur; }

// Scheduling points.  `api` must be a string literal.
void sim_point(const char* api);
bool sim_block(const char* api, Pred pred, u64 timeout_ns); // true = satisfied, false = timed out.
const u64 FOREVER = ~0ull;
void sim_violate(const char* id, const char* fmt, ...);
// A violation that matches a known finding: reported as such if the run was told to expect it.
void sim_known(const char* known, const char* id, const char* fmt, ...);
extern std::set<string> g_known;
void sim_note(const char* fmt, ...);                // Trace text (only kept when tracing).
void sim_mark(const char* what, u64 value);         // Adds to the trace hash.
int sim_fault(const char* api, const std::wstring& path = std::wstring());
void sim_count(const char* counter, u64 n = 1);
void sim_state(u64 h);
[[noreturn]] void sim_thread_exit(u32 code);
[[noreturn]] void sim_process_exit(u32 code);
void sim_kill(Proc* p, u32 code = 0xdead);          // Crash: only kernel and disk state survive.

Proc* sim_new_proc(const char* name, int con = -1);    // con: its console, -1 = the creator's.
Thread* sim_new_thread(Proc* p, const char* name, Fn fn, bool suspended = false);
// From a simulated thread: wait for another process to end.
void sim_join_proc(Proc* p);
void sim_sleep(u64 ns);
inline u64 ms(u64 n) { return n * 1000000ull; }
inline Proc* cur_proc() { return g_sim->cur->proc; }

//------------------------------------------------------------------------------
// Simulated file system, as seen by scenarios (host side).
void fs_reset();
void fs_mkdir(const char* path);
void fs_write(const char* path, const string& data);
bool fs_exists(const char* path);
string fs_read(const char* path);
std::vector<string> fs_list(const char* dir);
int fs_open_count(const char* path);
u64 fs_hash();
void fs_set_mtime(const char* path, i64 unix_secs);
void fs_set_limit(i64 bytes);                       // Disk capacity, -1 = unlimited.
i64 fs_used();
void fs_preload_real(const char* real_dir, const char* sim_dir);
void fs_snapshot_base();                            // fs_reset() goes back to this.
int proc_open_handles(Proc* p, const char* type = nullptr);

// Image of the code under test.
void image_boot_snapshot();                         // After static init (and optional boot).

//------------------------------------------------------------------------------
struct Scenario
{
    const char* name;
    const char* props;                              // Which property ids it can report.
    void (*generate)(Rng& r, Case& c, int tier);
    void (*run)(const Case& c);                     // Runs on the host; creates processes; calls sim_run().
    void (*boot)() = nullptr;                       // Once, in the boot process, before the snapshot.
};
void register_scenario(const Scenario& s);
struct RegScenario { RegScenario(const char* n, const char* p, void (*g)(Rng&, Case&, int), void (*r)(const Case&), void (*b)() = nullptr) { Scenario s; s.name = n; s.props = p; s.generate = g; s.run = r; s.boot = b; register_scenario(s); } };

void sim_run();                                     // Runs until all non-daemon threads ended.

std::wstring widen(const char* s);
string narrow(const std::wstring& s);
string narrow(const wchar_t* s);
string strf(const char* fmt, ...);
