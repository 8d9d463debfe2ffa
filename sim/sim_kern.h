#pragma once
#include "sim.h"
#include "sim_int.h"

struct ProcObj : KObj { Proc* p = nullptr; u32 pid = 0; bool done = false; u32 code = 0; ProcObj() : KObj("process") {} bool signaled(Thread*) override { return done; } };
struct ThreadObj : KObj { Thread* t = nullptr; int tid = 0; bool done = false; u32 code = 0; ThreadObj() : KObj("thread") {} bool signaled(Thread*) override { return done; } };
struct RemoteThreadObj : KObj { int suspend = 0; bool done = false; u32 code = 0; RemoteThreadObj() : KObj("remote_thread") {} bool signaled(Thread*) override { return done; } };
struct EventObj : KObj { bool manual = false, set = false; EventObj() : KObj("event") {} bool signaled(Thread*) override { return set; } void consume(Thread*) override { if (!manual) set = false; } };
struct MutexObj : KObj { Thread* owner = nullptr; int depth = 0; string name; MutexObj() : KObj("mutex") {} bool signaled(Thread* t) override { return !owner || owner == t || owner->done; } void consume(Thread* t) override { if (owner != t) { owner = t; depth = 0; } depth++; } };
struct SemObj : KObj { LONG n = 0, max = 0; SemObj() : KObj("semaphore") {} bool signaled(Thread*) override { return n > 0; } void consume(Thread*) override { n--; } };
struct PipeBuf { std::deque<char> data; size_t cap = 4096; int readers = 0, writers = 0; u64 total_in = 0, total_out = 0; };
struct PipeObj : KObj
{
    std::shared_ptr<PipeBuf> b; bool writer;
    PipeObj(std::shared_ptr<PipeBuf> p, bool w) : KObj("pipe"), b(p), writer(w) { if (w) b->writers++; else b->readers++; }
    ~PipeObj() override { if (writer) b->writers--; else b->readers--; }
};
ThreadObj* thread_obj(Thread* t);

typedef std::function<u32(Proc*, const string&)> ProgramFn;
std::map<string, ProgramFn>& programs();

struct Cell { std::wstring ch; WORD attr; BYTE half; };      // half: 1, 2 = the halves of a wide character.
typedef std::vector<Cell> Row;
struct Con
{
    std::deque<INPUT_RECORD> input;
    DWORD in_mode = 0x1f7, out_mode = 7;
    string out;                     // Everything written (UTF-8).
    bool keep_out = true, emulate = false;
    std::wstring title = L"sim";
    u64 reads = 0;
    std::map<std::wstring, std::map<std::wstring, std::pair<std::wstring, std::wstring>>> alias2;
    std::map<Proc*, std::vector<void*>> ctrl;
    std::vector<std::function<void(DWORD)>> on_ctrl;
    std::function<void(const string&)> on_write;
    std::function<void()> on_empty;
    std::function<bool(const INPUT_RECORD&)> respond_hook; // Takes over a terminal's response.
    std::function<bool(int, const string&)> query_hook;     // Takes over the answer to query N.
    // The screen: a buffer of size.X * size.Y cells, with a window of `rows` rows at `top`.
    std::deque<Row> buf;
    std::deque<string> scrollback;
    COORD size = { 80, 25 };
    int rows = 25, top = 0;
    COORD cursor = { 0, 0 };
    bool pend = false;              // The cursor is past the last column.
    COORD saved = { 0, 0 }; bool saved_pend = false;
    WORD attr = 7;
    bool visible = true; DWORD cursor_size = 25; int shape = 0;
    std::wstring esc; wchar_t hs = 0;
    string unknown;                 // Sequences that the terminal does not know.
    u64 scrolled = 0, bells = 0, responses = 0, ctrl_count = 0, ctrl_pending = 0;
    int osc_color_reply = 0;        // 1 = answers OSC 10/11 with ST, 2 = with BEL.
    int reading = 0; bool abort_read = false; std::wstring cooked;

    void init(int w, int rows, int h);
    void write(const wchar_t* s, size_t n);
    void resize(int w, int r);
    void key(WORD vk, wchar_t ch, DWORD state);
    void ctrl_event(DWORD type);
    string row_text(int y) const;
    bool vt() const;
    void blank(Row& r, int x0, int x1); void split(Row& r, int x); void scroll_up(); void show_cursor(); void line_feed();
    void put(const std::wstring& ch, int w); void goto_xy(int x, int y); void respond(const string& s); void answer(int n, const string& s);
    void csi(const std::wstring& params, wchar_t fin); void osc(const std::wstring& s); void dcs(const std::wstring& s); void odd(const std::wstring& s);
};
Con& con();                         // The current process's console.
Con& con_of(int id);
int con_width(u32 c);
void con_write(const wchar_t* p, size_t n);
void console_reset();
std::wstring& clipboard();
unsigned long long clipboard_reads();
void clipboard_reset();
struct ConObj : KObj { bool in; Con* c; ConObj(bool i, Con* k) : KObj("console"), in(i), c(k) {} bool signaled(Thread*) override { return !in || !c->input.empty(); } };
struct RegKey { std::map<std::wstring, std::pair<DWORD, string>> values; std::map<std::wstring, std::wstring> names; };
struct Registry { std::map<std::wstring, RegKey> keys; std::wstring deny; }; // deny: no write access below this.
Registry& registry();

extern void (*g_on_bad_close)(HANDLE);
extern i64 g_clock_skew;
extern std::set<string> g_hidden_procs;
u64 sim_filetime();
Proc* find_pid(u32 pid);
void env_set(Proc* p, const wchar_t* n, const wchar_t* v);
void env_set(Proc* p, const char* n, const char* v);

void sync_thread_ended(Thread* t);
void sync_proc_dead(Proc* p);
void sync_reset();
void stdio_proc_exit(Proc* p, bool crashed);
void stdio_flush_all(Proc* p);
void stdio_reset();

// Files.
bool fs_is_dir(const std::wstring& full);
std::wstring fs_display_path(const std::wstring& full);
HANDLE k_open(const wchar_t* path, DWORD access, DWORD share, DWORD disp, DWORD flags, const char* api);
bool k_read(HANDLE h, void* p, u32 n, u32& got);
bool k_write(HANDLE h, const void* p, u32 n, u32& put);
i64 k_seek(HANDLE h, i64 off, int whence);
bool k_set_eof(HANDLE h);
i64 k_size(HANDLE h);
bool k_delete(const wchar_t* path);
int k_type(HANDLE h);   // FILE_TYPE_*
int errno_from(DWORD e);
void make_pipe(HANDLE* r, HANDLE* w, size_t cap);
