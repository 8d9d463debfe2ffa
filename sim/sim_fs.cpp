// Simulated file system: names, handles, share modes, byte range locks, delete
// semantics, disk capacity, and I/O faults.  Only what WriteFile accepted survives a
// crash of the process that wrote it.
#include "sim.h"
#include "sim_int.h"
#include "sim_kern.h"
#include <errno.h>
#include <string.h>
#include <algorithm>
#include <direct.h>
#include <dirent.h>
#include <sys/stat.h>

typedef std::wstring ws;
static ws lower(const ws& s) { ws r = s; for (auto& c : r) { if (c >= 'A' && c <= 'Z') c += 32; else if (c > 127) c = (wchar_t)(u64)CharLowerW((LPWSTR)(u64)c); } return r; }

struct FileObj;
struct Lock { FileObj* owner; u64 off, len; bool excl; };
struct Node
{
    bool dir = false;
    ws name;                                    // Display name.
    Node* parent = nullptr;
    std::shared_ptr<string> data;
    std::map<ws, Node*> kids;
    DWORD attr = 0;
    u64 ctime = 0, mtime = 0, atime = 0;
    u64 id = 0;
    // Per run.
    std::vector<FileObj*> opens;
    std::vector<Lock> locks;
    bool delete_pending = false, unlinked = false;
    int refs = 0;
    string& w() { if (!data) data = std::make_shared<string>(); else if (data.use_count() > 1) data = std::make_shared<string>(*data); return *data; }
    const string& r() { static string e; return data ? *data : e; }
};
static Node* s_root;                            // C:\ .
static Node* s_base;
static u64 s_next_id;
static i64 s_limit = -1;
static i64 s_used;

static Node* node_new(bool dir, const ws& name, Node* parent)
{
    Node* n = new Node; n->dir = dir; n->name = name; n->parent = parent; n->id = ++s_next_id;
    n->attr = dir ? FILE_ATTRIBUTE_DIRECTORY : FILE_ATTRIBUTE_ARCHIVE;
    n->ctime = n->mtime = n->atime = sim_filetime();
    if (parent) parent->kids[lower(name)] = n;
    return n;
}
static void node_free(Node* n) { for (auto& k : n->kids) node_free(k.second); delete n; }
static Node* node_clone(Node* n, Node* parent)
{
    Node* c = new Node(); c->dir = n->dir; c->name = n->name; c->parent = parent; c->data = n->data; c->attr = n->attr;
    c->ctime = n->ctime; c->mtime = n->mtime; c->atime = n->atime; c->id = n->id;
    for (auto& k : n->kids) c->kids[k.first] = node_clone(k.second, c);
    return c;
}
static std::vector<Node*> s_orphans;            // Unlinked nodes, freed at reset.
static Node* root() { if (!s_root) { s_root = node_new(true, L"C:", nullptr); } return s_root; }

void fs_reset()
{
    HostScope h;
    for (Node* n : s_orphans) delete n;
    s_orphans.clear();
    if (s_root) node_free(s_root);
    s_root = nullptr;
    s_limit = -1;
    s_used = 0;
    if (s_base) { s_root = node_clone(s_base, nullptr); s_next_id = 1000000; }
    else { s_next_id = 0; root(); }
    for (const char* d : { "C:\\temp", "C:\\work", "C:\\Windows\\system32", "C:\\users\\sim\\AppData\\Local", "C:\\clink" }) fs_mkdir(d);
}
void fs_snapshot_base() { HostScope h; if (s_base) node_free(s_base); s_base = node_clone(root(), nullptr); }

//------------------------------------------------------------------------------
// Paths.
ws full_path(const wchar_t* p0)
{
    ws p = p0;
    for (auto& c : p) if (c == '/') c = '\\';
    if (p.compare(0, 4, L"\\\\?\\") == 0) p = p.substr(4);
    if (p.size() >= 2 && p[1] == ':')
    {
        if (p.size() == 2 || p[2] != '\\')
        {
            ws cwd = the_proc()->cwd;
            if (lower(cwd.substr(0, 1)) == lower(p.substr(0, 1))) p = cwd + L"\\" + p.substr(2);
            else p = p.substr(0, 2) + L"\\" + p.substr(2);
        }
    }
    else if (!p.empty() && p[0] == '\\' && !(p.size() > 1 && p[1] == '\\')) p = the_proc()->cwd.substr(0, 2) + p;
    else if (p.size() > 1 && p[0] == '\\' && p[1] == '\\') return p;
    else p = the_proc()->cwd + L"\\" + p;
    // Components.
    std::vector<ws> c;
    size_t i = 3;
    bool trail = p.size() > 3 && p.back() == '\\';
    while (i < p.size())
    {
        size_t j = p.find(L'\\', i);
        if (j == ws::npos) j = p.size();
        ws e = p.substr(i, j - i);
        i = j + 1;
        if (e.empty() || e == L".") continue;
        if (e == L"..") { if (!c.empty()) c.pop_back(); continue; }
        while (e.size() > 1 && (e.back() == ' ' || e.back() == '.')) e.pop_back();
        c.push_back(e);
    }
    ws r = p.substr(0, 2) + L"\\";
    for (size_t k = 0; k < c.size(); ++k) { if (k) r += L"\\"; r += c[k]; }
    if (trail && !c.empty()) r += L"\\";
    return r;
}
static void tell(char op, Node* n, u64 v);
static bool split(const ws& full, std::vector<ws>& c)
{
    c.clear();
    if (full.size() < 3 || full[1] != ':') return false;
    if (full[0] == 'D' || full[0] == 'd') c.push_back(L"D:"); else if (full[0] != 'C' && full[0] != 'c') return false;  // Another drive is a child of the root.
    size_t i = 3;
    while (i < full.size()) { size_t j = full.find(L'\\', i); if (j == ws::npos) j = full.size(); if (j > i) c.push_back(full.substr(i, j - i)); i = j + 1; }
    return true;
}
// Finds the node; `parent` and `leaf` are filled in when the parent exists.
static Node* lookup(const ws& full, Node** parent = nullptr, ws* leaf = nullptr)
{
    std::vector<ws> c;
    if (parent) *parent = nullptr;
    if (!split(full, c)) return nullptr;
    Node* n = root();
    for (size_t i = 0; i < c.size(); ++i)
    {
        if (!n->dir) return nullptr;
        if (parent && i + 1 == c.size()) { *parent = n; if (leaf) *leaf = c[i]; }
        auto k = n->kids.find(lower(c[i]));
        if (k == n->kids.end()) return nullptr;
        n = k->second;
    }
    return n;
}
static ws node_path(Node* n)
{
    if (!n->parent) return L"C:\\";
    ws p = n->name;
    for (Node* x = n->parent; x; x = x->parent) p = (x->parent ? x->name : ws(L"C:")) + L"\\" + p;
    if (p.compare(0, 5, L"C:\\D:") == 0) { p = p.substr(3); if (p.size() == 2) p += L"\\"; }
    return p;
}
static void tell(char op, Node* n, u64 v) { if (in_sim() && g_sim->on_fs && !g_sim->frozen) { HostScope h; g_sim->on_fs(op, narrow(node_path(n)), v); } }
bool fs_is_dir(const ws& full) { Node* n = lookup(full); return n && n->dir; }
ws fs_display_path(const ws& full) { Node* n = lookup(full); ws r = n ? node_path(n) : full; if (r.size() > 3 && r.back() == '\\') r.pop_back(); return r; }

//------------------------------------------------------------------------------
struct FileObj : KObj
{
    Node* n = nullptr;
    u32 access = 0, share = 0;
    u64 pos = 0;
    bool append_only = false, doc = false;
    Proc* proc = nullptr;
    string opened_by;
    FileObj() : KObj("file") {}
    ~FileObj() override;
};
static void node_unlink(Node* n)
{
    if (n->unlinked) return;
    n->unlinked = true;
    if (n->parent) { auto k = n->parent->kids.find(lower(n->name)); if (k != n->parent->kids.end() && k->second == n) { n->parent->kids.erase(k); n->parent->mtime = sim_filetime(); } }
    s_used -= i64(n->r().size());
    s_orphans.push_back(n);
}
FileObj::~FileObj()
{
    if (!n) return;
    for (size_t i = n->locks.size(); i--;) if (n->locks[i].owner == this) { n->locks.erase(n->locks.begin() + i); }
    n->opens.erase(std::find(n->opens.begin(), n->opens.end(), this));
    if (doc) n->delete_pending = true;
    if (n->delete_pending && n->opens.empty()) node_unlink(n);
}
struct NulObj : KObj { NulObj() : KObj("nul") {} };

static bool check_share(Node* n, u32 access, u32 share)
{
    bool r = !!(access & (GENERIC_READ | FILE_READ_DATA | FILE_EXECUTE | GENERIC_EXECUTE));
    bool w = !!(access & (GENERIC_WRITE | FILE_WRITE_DATA | FILE_APPEND_DATA | GENERIC_ALL));
    bool d = !!(access & DELETE);
    if (access & GENERIC_ALL) r = d = true;
    if (!r && !w && !d) return true;
    for (FileObj* o : n->opens)
    {
        bool or_ = !!(o->access & (GENERIC_READ | FILE_READ_DATA | FILE_EXECUTE | GENERIC_EXECUTE | GENERIC_ALL));
        bool ow = !!(o->access & (GENERIC_WRITE | FILE_WRITE_DATA | FILE_APPEND_DATA | GENERIC_ALL));
        bool od = !!(o->access & DELETE);
        if (!or_ && !ow && !od) continue;
        if (r && !(o->share & FILE_SHARE_READ)) return false;
        if (w && !(o->share & FILE_SHARE_WRITE)) return false;
        if (d && !(o->share & FILE_SHARE_DELETE)) return false;
        if (or_ && !(share & FILE_SHARE_READ)) return false;
        if (ow && !(share & FILE_SHARE_WRITE)) return false;
        if (od && !(share & FILE_SHARE_DELETE)) return false;
    }
    return true;
}
static bool special(const ws& full0, const wchar_t* orig, HANDLE& h)
{
    ws n = lower(orig);
    size_t s = n.find_last_of(L"\\/"); if (s != ws::npos) n = n.substr(s + 1);
    if (n == L"nul" || n == L"nul:") { h = handle_new(the_proc(), new NulObj, GENERIC_READ | GENERIC_WRITE); return true; }
    if (n == L"conin$") { h = handle_new(the_proc(), new ConObj(true, &con()), GENERIC_READ); return true; }
    if (n == L"conout$" || n == L"con") { h = handle_new(the_proc(), new ConObj(false, &con()), GENERIC_WRITE); return true; }
    return false;
}
static HANDLE fail(DWORD e) { set_last_error(e); return INVALID_HANDLE_VALUE; }
HANDLE k_open(const wchar_t* path, DWORD access, DWORD share, DWORD disp, DWORD flags, const char* api)
{
    KE k;
    ws full = full_path(path);
    sim_point(api);
    if (!*path) return fail(ERROR_PATH_NOT_FOUND);
    HANDLE sh; if (special(full, path, sh)) { set_last_error(0); return sh; }
    for (const wchar_t* p = path; *p; ++p) if (wcschr(L"*?\"<>|", *p) && !(p < path + 4 && !wcsncmp(path, L"\\\\?\\", 4))) return fail(ERROR_INVALID_NAME);
    int f = sim_fault("open", full);
    if (f) return fail(DWORD(f));
    Node* parent; ws leaf;
    Node* n = lookup(full, &parent, &leaf);
    if (flags & FILE_FLAG_DELETE_ON_CLOSE) access |= DELETE;
    bool wants_write = !!(access & (GENERIC_WRITE | GENERIC_ALL | FILE_WRITE_DATA | FILE_APPEND_DATA));
    bool existed = !!n;
    if (n)
    {
        if (disp == CREATE_NEW) return fail(ERROR_FILE_EXISTS);
        if (n->delete_pending) return fail(ERROR_ACCESS_DENIED);
        if (n->dir)
        {
            if (!(flags & FILE_FLAG_BACKUP_SEMANTICS) || disp == CREATE_ALWAYS || disp == TRUNCATE_EXISTING) return fail(ERROR_ACCESS_DENIED);
        }
        if (!full.empty() && full.back() == '\\' && !n->dir) return fail(ERROR_INVALID_NAME);
        if ((n->attr & FILE_ATTRIBUTE_READONLY) && !n->dir && (wants_write || (flags & FILE_FLAG_DELETE_ON_CLOSE) || disp == CREATE_ALWAYS || disp == TRUNCATE_EXISTING)) return fail(ERROR_ACCESS_DENIED);
        if (disp == CREATE_ALWAYS && ((n->attr & FILE_ATTRIBUTE_HIDDEN && !(flags & FILE_ATTRIBUTE_HIDDEN)) || (n->attr & FILE_ATTRIBUTE_SYSTEM && !(flags & FILE_ATTRIBUTE_SYSTEM)))) return fail(ERROR_ACCESS_DENIED);
        u32 eff = access;
        if (disp == CREATE_ALWAYS || disp == TRUNCATE_EXISTING) eff |= FILE_WRITE_DATA;
        if (!check_share(n, eff, share)) { sim_count("sharing_violation"); return fail(ERROR_SHARING_VIOLATION); }
        if (disp == TRUNCATE_EXISTING && !(access & GENERIC_WRITE)) return fail(ERROR_ACCESS_DENIED);
    }
    else
    {
        if (disp == OPEN_EXISTING || disp == TRUNCATE_EXISTING)
            return fail(parent ? ERROR_FILE_NOT_FOUND : ERROR_PATH_NOT_FOUND);
        if (!parent || leaf.empty()) return fail(ERROR_PATH_NOT_FOUND);
        if (full.back() == '\\') return fail(ERROR_PATH_NOT_FOUND);
        n = node_new(false, leaf, parent);
        parent->mtime = n->ctime;
        DWORD a = flags & (FILE_ATTRIBUTE_HIDDEN | FILE_ATTRIBUTE_READONLY | FILE_ATTRIBUTE_SYSTEM | FILE_ATTRIBUTE_TEMPORARY);
        n->attr = FILE_ATTRIBUTE_ARCHIVE | a;
    }
    if (existed && (disp == CREATE_ALWAYS || disp == TRUNCATE_EXISTING))
    {
        tell('t', n, 0);
        s_used -= i64(n->r().size());
        n->w().clear();
        n->mtime = sim_filetime();
        if (disp == CREATE_ALWAYS) n->attr |= FILE_ATTRIBUTE_ARCHIVE | (flags & (FILE_ATTRIBUTE_HIDDEN | FILE_ATTRIBUTE_SYSTEM));
    }
    FileObj* o = new FileObj;
    o->n = n; o->access = access; o->share = share; o->proc = the_proc();
    o->append_only = (access & FILE_APPEND_DATA) && !(access & (GENERIC_WRITE | FILE_WRITE_DATA));
    o->doc = !!(flags & FILE_FLAG_DELETE_ON_CLOSE);
    n->opens.push_back(o);
    sim_note("%s %s access %08x share %x disp %d -> ok", api, narrow(full).c_str(), access, share, disp);
    set_last_error(existed && (disp == CREATE_ALWAYS || disp == OPEN_ALWAYS) ? ERROR_ALREADY_EXISTS : 0);
    return handle_new(the_proc(), o, access);
}
API(HANDLE, CreateFileW, (LPCWSTR path, DWORD access, DWORD share, LPSECURITY_ATTRIBUTES sa, DWORD disp, DWORD flags, HANDLE))
{
    HANDLE h = k_open(path, access, share, disp, flags, "CreateFile");
    if (h != INVALID_HANDLE_VALUE && sa && sa->bInheritHandle) the_proc()->handles[(u64)h].inherit = true;
    return h;
}
API(HANDLE, CreateFileA, (LPCSTR path, DWORD access, DWORD share, LPSECURITY_ATTRIBUTES sa, DWORD disp, DWORD flags, HANDLE t)) { KE k; return sim_CreateFileW(widen(path).c_str(), access, share, sa, disp, flags, t); }

static FileObj* file_get(HANDLE h) { KObj* o = handle_get(h); if (!o || strcmp(o->type, "file")) { set_last_error(ERROR_INVALID_HANDLE); return nullptr; } return (FileObj*)o; }
static bool overlap(const Lock& l, u64 off, u64 len) { return off < l.off + l.len && l.off < off + len; }

static bool lock_free(FileObj* o, u64 off, u64 len, bool excl)
{
    for (auto& l : o->n->locks) if (overlap(l, off, len) && (excl || l.excl)) return false;
    return true;
}
API(BOOL, LockFileEx, (HANDLE h, DWORD flags, DWORD, DWORD lo, DWORD hi, LPOVERLAPPED ov))
{
    KE k; sim_point("LockFileEx");
    FileObj* o = file_get(h); if (!o) return FALSE;
    if (!(o->access & (GENERIC_READ | GENERIC_WRITE | GENERIC_ALL | FILE_READ_DATA | FILE_WRITE_DATA))) { set_last_error(ERROR_ACCESS_DENIED); return FALSE; }
    int f = sim_fault("LockFileEx", node_path(o->n));
    if (f) { set_last_error(ERROR_NO_SYSTEM_RESOURCES); return FALSE; }
    u64 off = u64(ov->Offset) | u64(ov->OffsetHigh) << 32, len = u64(lo) | u64(hi) << 32;
    if (len > ~0ull - off) len = ~0ull - off;
    bool excl = !!(flags & LOCKFILE_EXCLUSIVE_LOCK);
    if (flags & LOCKFILE_FAIL_IMMEDIATELY)
    {
        if (!lock_free(o, off, len, excl)) { set_last_error(ERROR_LOCK_VIOLATION); return FALSE; }
    }
    else
    {
        obj_pin(o);
        sim_block("LockFileEx", [o, off, len, excl] { return lock_free(o, off, len, excl); }, FOREVER);
        obj_unpin(o);
    }
    o->n->locks.push_back({ o, off, len, excl });
    if (in_sim()) g_sim->cur->held++;
    sim_note("locked %s %s", narrow(node_path(o->n)).c_str(), excl ? "excl" : "shared");
    return TRUE;
}
API(BOOL, UnlockFileEx, (HANDLE h, DWORD, DWORD lo, DWORD hi, LPOVERLAPPED ov))
{
    KE k; sim_point("UnlockFileEx");
    FileObj* o = file_get(h); if (!o) return FALSE;
    u64 off = u64(ov->Offset) | u64(ov->OffsetHigh) << 32, len = u64(lo) | u64(hi) << 32;
    if (len > ~0ull - off) len = ~0ull - off;
    auto& ls = o->n->locks;
    for (size_t i = 0; i < ls.size(); ++i)
        if (ls[i].owner == o && ls[i].off == off && ls[i].len == len) { ls.erase(ls.begin() + i); if (in_sim()) g_sim->cur->held--; sim_note("unlocked %s", narrow(node_path(o->n)).c_str()); return TRUE; }
    set_last_error(ERROR_NOT_LOCKED);
    sim_count("not_locked");
    return FALSE;
}

//------------------------------------------------------------------------------
static bool pipe_read(PipeObj* o, void* p, u32 n, u32& got)
{
    got = 0;
    PipeBuf* b = o->b.get();
    obj_pin(o);
    sim_block("pipe_read", [b] { return !b->data.empty() || b->writers == 0; }, FOREVER);
    bool ok = true;
    if (b->data.empty()) { set_last_error(ERROR_BROKEN_PIPE); ok = false; }
    else
    {
        u32 m = u32(std::min<size_t>(n, b->data.size()));
        if (m > 1 && sim_fault("pipe_short_read")) m = 1 + u32(mix(b->total_out, m) % (m - 1));
        for (u32 i = 0; i < m; ++i) { ((char*)p)[i] = b->data.front(); b->data.pop_front(); }
        got = m; b->total_out += m;
    }
    obj_unpin(o);
    return ok;
}
static bool pipe_write(PipeObj* o, const void* p, u32 n, u32& put)
{
    put = 0;
    PipeBuf* b = o->b.get();
    obj_pin(o);
    bool ok = true;
    while (put < n)
    {
        sim_block("pipe_write", [b] { return b->data.size() < b->cap || b->readers == 0; }, FOREVER);
        if (b->readers == 0) { set_last_error(ERROR_NO_DATA); ok = false; break; }
        u32 m = u32(std::min<size_t>(n - put, b->cap - b->data.size()));
        for (u32 i = 0; i < m; ++i) b->data.push_back(((const char*)p)[put + i]);
        put += m; b->total_in += m;
    }
    obj_unpin(o);
    return ok;
}
bool k_read(HANDLE h, void* p, u32 n, u32& got)
{
    KE k;
    got = 0;
    KObj* ko = handle_get(h);
    if (ko && !strcmp(ko->type, "pipe")) { sim_point("ReadFile"); ko = handle_get(h); if (!ko) { set_last_error(ERROR_INVALID_HANDLE); return false; } if (((PipeObj*)ko)->writer) { set_last_error(ERROR_ACCESS_DENIED); return false; } return pipe_read((PipeObj*)ko, p, n, got); }
    if (ko && (!strcmp(ko->type, "nul"))) return true;
    if (ko && (!strcmp(ko->type, "console")))
    {
        if (con().on_empty) con().on_empty();
        return true; // End of input.
    }
    sim_point("ReadFile");
    FileObj* o = file_get(h); if (!o) return false;
    if (!(o->access & (GENERIC_READ | GENERIC_ALL | FILE_READ_DATA))) { set_last_error(ERROR_ACCESS_DENIED); return false; }
    for (auto& l : o->n->locks) if (l.owner != o && l.excl && overlap(l, o->pos, n ? n : 1)) { sim_count("lock_violation_read"); set_last_error(ERROR_LOCK_VIOLATION); return false; }
    int f = sim_fault("read", node_path(o->n));
    if (f) { set_last_error(DWORD(f)); return false; }
    const string& d = o->n->r();
    if (o->pos < d.size()) { got = u32(std::min<u64>(n, d.size() - o->pos)); memcpy(p, d.data() + o->pos, got); o->pos += got; }
    o->n->atime = sim_filetime();
    if (g_sim) sim_note("read %s @%llu %u -> %u", narrow(node_path(o->n)).c_str(), (unsigned long long)(o->pos - got), n, got);
    return true;
}
bool k_write(HANDLE h, const void* p, u32 n, u32& put)
{
    KE k;
    put = 0;
    KObj* ko = handle_get(h);
    if (ko && !strcmp(ko->type, "pipe")) { sim_point("WriteFile"); ko = handle_get(h); if (!ko) { set_last_error(ERROR_INVALID_HANDLE); return false; } if (!((PipeObj*)ko)->writer) { set_last_error(ERROR_ACCESS_DENIED); return false; } return pipe_write((PipeObj*)ko, p, n, put); }
    if (ko && !strcmp(ko->type, "nul")) { put = n; return true; }
    if (ko && !strcmp(ko->type, "console")) { put = n; Proc* pr = the_proc(); if (pr->out.size() < (4u << 20)) pr->out.append((const char*)p, n); if (con().emulate) { string t((const char*)p, n); std::wstring w = widen(t.c_str()); con().write(w.c_str(), w.size()); } return true; }
    sim_point("WriteFile");
    FileObj* o = file_get(h); if (!o) return false;
    if (!(o->access & (GENERIC_WRITE | GENERIC_ALL | FILE_WRITE_DATA | FILE_APPEND_DATA))) { set_last_error(ERROR_ACCESS_DENIED); return false; }
    u64 at = o->append_only ? o->n->r().size() : o->pos;
    for (auto& l : o->n->locks) if (overlap(l, at, n ? n : 1) && (l.owner != o || !l.excl)) { sim_count("lock_violation_write"); set_last_error(ERROR_LOCK_VIOLATION); return false; }
    u32 m = n;
    DWORD err = 0;
    int f = sim_fault("write", node_path(o->n));
    if (f)
    {
        err = DWORD(f & 0xffff);
        m = (f & 0x10000) ? u32(mix(at, n) % (n + 1)) : 0;      // Torn write: part of the data arrives.
        if (m == n && n) m = n - 1;
    }
    u64 end = at + m;
    i64 grow = end > o->n->r().size() ? i64(end - o->n->r().size()) : 0;
    if (s_limit >= 0 && s_used + grow > s_limit)
    {
        i64 room = std::max<i64>(0, s_limit - s_used);
        i64 keep = i64(m) - (grow - room);
        m = u32(std::max<i64>(0, keep));
        err = ERROR_DISK_FULL;
        { g_stats.faults["disk_full"]++; }
        end = at + m;
        grow = end > o->n->r().size() ? i64(end - o->n->r().size()) : 0;
    }
    if (m)
    {
        tell('w', o->n, at);
        string& d = o->n->w();
        if (end > d.size()) d.resize(end, 0);
        memcpy(&d[at], p, m);
        s_used += grow;
        o->n->mtime = sim_filetime();
        o->pos = end;
    }
    put = m;
    sim_note("write %s @%llu %u -> %u%s", narrow(node_path(o->n)).c_str(), (unsigned long long)at, n, m, err ? " ERROR" : "");
    if (err) { set_last_error(err); if (m == 0 || err != ERROR_DISK_FULL) { return false; } return m == n; }
    return true;
}
i64 k_seek(HANDLE h, i64 off, int whence)
{
    KE k;
    FileObj* o = file_get(h); if (!o) return -1;
    i64 b = whence == 0 ? 0 : whence == 1 ? i64(o->pos) : i64(o->n->r().size());
    if (b + off < 0) { set_last_error(ERROR_NEGATIVE_SEEK); return -1; }
    o->pos = u64(b + off);
    return i64(o->pos);
}
bool k_set_eof(HANDLE h)
{
    KE k; sim_point("SetEndOfFile");
    FileObj* o = file_get(h); if (!o) return false;
    if (!(o->access & (GENERIC_WRITE | GENERIC_ALL | FILE_WRITE_DATA))) { set_last_error(ERROR_ACCESS_DENIED); return false; }
    int f = sim_fault("truncate", node_path(o->n));
    if (f) { set_last_error(DWORD(f)); return false; }
    tell('t', o->n, o->pos);
    s_used += i64(o->pos) - i64(o->n->r().size());
    o->n->w().resize(o->pos, 0);
    o->n->mtime = sim_filetime();
    sim_note("truncate %s to %llu", narrow(node_path(o->n)).c_str(), (unsigned long long)o->pos);
    return true;
}
i64 k_size(HANDLE h) { KE k; FileObj* o = file_get(h); return o ? i64(o->n->r().size()) : -1; }
int k_type(HANDLE h)
{
    KObj* o = handle_get(h);
    if (!o) { set_last_error(ERROR_INVALID_HANDLE); return FILE_TYPE_UNKNOWN; }
    set_last_error(0);
    if (!strcmp(o->type, "pipe")) return FILE_TYPE_PIPE;
    if (!strcmp(o->type, "file")) return FILE_TYPE_DISK;
    return FILE_TYPE_CHAR;
}
int errno_from(DWORD e)
{
    switch (e)
    {
    case ERROR_FILE_NOT_FOUND: case ERROR_PATH_NOT_FOUND: case ERROR_INVALID_NAME: case ERROR_INVALID_DRIVE: return ENOENT;
    case ERROR_ACCESS_DENIED: case ERROR_SHARING_VIOLATION: case ERROR_LOCK_VIOLATION: return EACCES;
    case ERROR_FILE_EXISTS: case ERROR_ALREADY_EXISTS: return EEXIST;
    case ERROR_DISK_FULL: return ENOSPC;
    case ERROR_INVALID_HANDLE: return EBADF;
    case ERROR_BROKEN_PIPE: case ERROR_NO_DATA: return EPIPE;
    case ERROR_TOO_MANY_OPEN_FILES: return EMFILE;
    case ERROR_NOT_ENOUGH_MEMORY: return ENOMEM;
    case ERROR_DIR_NOT_EMPTY: return ENOTEMPTY;
    default: return EINVAL;
    }
}
API(BOOL, ReadFile, (HANDLE h, LPVOID p, DWORD n, LPDWORD got, LPOVERLAPPED)) { u32 g; bool ok = k_read(h, p, n, g); if (got) *got = g; return ok; }
API(BOOL, WriteFile, (HANDLE h, LPCVOID p, DWORD n, LPDWORD put, LPOVERLAPPED)) { u32 g; bool ok = k_write(h, p, n, g); if (put) *put = g; return ok; }
API(DWORD, SetFilePointer, (HANDLE h, LONG lo, PLONG hi, DWORD whence))
{
    KE k; sim_point("SetFilePointer");
    i64 off = hi ? (i64(*hi) << 32 | u32(lo)) : lo;
    i64 r = k_seek(h, off, int(whence));
    if (r < 0) return INVALID_SET_FILE_POINTER;
    if (hi) *hi = LONG(r >> 32);
    set_last_error(0);
    return DWORD(r);
}
API(BOOL, SetFilePointerEx, (HANDLE h, LARGE_INTEGER off, PLARGE_INTEGER out, DWORD whence)) { KE k; sim_point("SetFilePointer"); i64 r = k_seek(h, off.QuadPart, int(whence)); if (r < 0) return FALSE; if (out) out->QuadPart = r; return TRUE; }
API(BOOL, SetEndOfFile, (HANDLE h)) { return k_set_eof(h); }
API(BOOL, FlushFileBuffers, (HANDLE)) { return TRUE; }
API(DWORD, GetFileSize, (HANDLE h, LPDWORD hi)) { KE k; sim_point("GetFileSize"); i64 s = k_size(h); if (s < 0) return INVALID_FILE_SIZE; if (hi) *hi = DWORD(s >> 32); set_last_error(0); return DWORD(s); }
API(BOOL, GetFileSizeEx, (HANDLE h, PLARGE_INTEGER p)) { KE k; i64 s = k_size(h); if (s < 0) return FALSE; p->QuadPart = s; return TRUE; }
API(DWORD, GetFileType, (HANDLE h)) { KE k; return k_type(h); }
API(DWORD, GetFinalPathNameByHandleA, (HANDLE h, LPSTR b, DWORD n, DWORD))
{
    KE k; FileObj* o = file_get(h); if (!o) return 0;
    string p = "\\\\?\\" + narrow(node_path(o->n));
    if (p.size() >= n) return DWORD(p.size() + 1);
    strcpy(b, p.c_str()); return DWORD(p.size());
}
API(DWORD, GetFinalPathNameByHandleW, (HANDLE h, LPWSTR b, DWORD n, DWORD))
{
    KE k; FileObj* o = file_get(h); if (!o) return 0;
    ws p = L"\\\\?\\" + node_path(o->n);
    if (p.size() >= n) return DWORD(p.size() + 1);
    wcscpy(b, p.c_str()); return DWORD(p.size());
}

//------------------------------------------------------------------------------
// Enumeration.
static bool wild(const wchar_t* p, const wchar_t* s)
{
    for (; *p; ++p)
    {
        if (*p == '*') { while (*p == '*') ++p; if (!*p) return true; for (; ; ++s) { if (wild(p, s)) return true; if (!*s) return false; } }
        if (*p == '?') { if (*s) ++s; continue; }
        if (!*s) { if (p[0] == '.' && (!p[1] || (p[1] == '*' && !p[2]))) return true; return false; }
        if (*p != *s) return false;
        ++s;
    }
    return !*s;
}
struct FindEnt { ws name; DWORD attr; u64 size, ctime, mtime, atime; };
struct FindObj : KObj { std::vector<FindEnt> ents; size_t next = 0; FindObj() : KObj("find") {} };
static FindEnt ent(const ws& name, Node* n) { return { name, n->attr, n->dir ? 0 : n->r().size(), n->ctime, n->mtime, n->atime }; }
static void put_time(FILETIME& f, u64 t) { f.dwLowDateTime = u32(t); f.dwHighDateTime = u32(t >> 32); }
static FindObj* find_start(const wchar_t* pattern, DWORD& err)
{
    ws full = full_path(pattern);
    if (!full.empty() && full.back() == '\\') { err = ERROR_FILE_NOT_FOUND; return nullptr; }
    size_t s = full.rfind(L'\\');
    ws dir = full.substr(0, s + 1), pat = lower(full.substr(s + 1));
    // full_path strips trailing dots and spaces only from real components.
    Node* d = lookup(dir);
    if (!d) { err = ERROR_PATH_NOT_FOUND; return nullptr; }
    if (!d->dir) { err = ERROR_DIRECTORY; return nullptr; }
    FindObj* f = new FindObj;
    if (pat == L"*.*") pat = L"*";
    if (d->parent && wild(pat.c_str(), L".")) f->ents.push_back(ent(L".", d));
    if (d->parent && wild(pat.c_str(), L"..")) f->ents.push_back(ent(L"..", d->parent));
    for (auto& k : d->kids) if (wild(pat.c_str(), k.first.c_str())) f->ents.push_back(ent(k.second->name, k.second));
    if (f->ents.empty()) { delete f; err = ERROR_FILE_NOT_FOUND; return nullptr; }
    return f;
}
static void fill(const FindEnt& e, WIN32_FIND_DATAW* d)
{
    memset(d, 0, sizeof *d);
    d->dwFileAttributes = e.attr;
    d->nFileSizeLow = u32(e.size); d->nFileSizeHigh = u32(e.size >> 32);
    put_time(d->ftCreationTime, e.ctime); put_time(d->ftLastWriteTime, e.mtime); put_time(d->ftLastAccessTime, e.atime);
    wcsncpy(d->cFileName, e.name.c_str(), MAX_PATH - 1);
}
API(HANDLE, FindFirstFileW, (LPCWSTR pattern, WIN32_FIND_DATAW* d))
{
    KE k; sim_point("FindFirstFile");
    int fl = sim_fault("find", full_path(pattern)); if (fl) { set_last_error(DWORD(fl)); return INVALID_HANDLE_VALUE; }
    DWORD err = 0; FindObj* f = find_start(pattern, err);
    if (!f) return fail(err);
    fill(f->ents[f->next++], d);
    return handle_new(the_proc(), f);
}
API(BOOL, FindNextFileW, (HANDLE h, WIN32_FIND_DATAW* d))
{
    KE k; sim_point("FindNextFile");
    KObj* o = handle_get(h); if (!o || strcmp(o->type, "find")) { set_last_error(ERROR_INVALID_HANDLE); return FALSE; }
    FindObj* f = (FindObj*)o;
    if (f->next >= f->ents.size()) { set_last_error(ERROR_NO_MORE_FILES); return FALSE; }
    fill(f->ents[f->next++], d);
    return TRUE;
}
API(BOOL, FindClose, (HANDLE h)) { KE k; KObj* o = handle_get(h); if (!o || strcmp(o->type, "find")) { set_last_error(ERROR_INVALID_HANDLE); return FALSE; } handle_close(the_proc(), h); return TRUE; }
static void fill64(const FindEnt& e, struct _wfinddata64_t* d)
{
    memset(d, 0, sizeof *d);
    d->attrib = e.attr & 0x37; d->size = e.size;
    auto ut = [](u64 t) { return i64(t - 116444736000000000ull) / 10000000; };
    d->time_create = ut(e.ctime); d->time_write = ut(e.mtime); d->time_access = ut(e.atime);
    wcsncpy(d->name, e.name.c_str(), 259);
}
API(intptr_t, _wfindfirst64, (const wchar_t* pattern, struct _wfinddata64_t* d))
{
    KE k; sim_point("FindFirstFile");
    DWORD err = 0; FindObj* f = find_start(pattern, err);
    if (!f) { set_last_error(err); set_errno_(ENOENT); return -1; }
    fill64(f->ents[f->next++], d);
    return (intptr_t)handle_new(the_proc(), f);
}
API(int, _wfindnext64, (intptr_t h, struct _wfinddata64_t* d))
{
    KE k; sim_point("FindNextFile");
    KObj* o = handle_get((HANDLE)h); if (!o || strcmp(o->type, "find")) { set_errno_(EINVAL); return -1; }
    FindObj* f = (FindObj*)o;
    if (f->next >= f->ents.size()) { set_errno_(ENOENT); return -1; }
    fill64(f->ents[f->next++], d);
    return 0;
}
API(int, _findclose, (intptr_t h)) { return sim_FindClose((HANDLE)h) ? 0 : -1; }

//------------------------------------------------------------------------------
bool k_delete(const wchar_t* path)
{
    KE k; sim_point("DeleteFile");
    ws full = full_path(path);
    int f = sim_fault("delete", full); if (f) { set_last_error(DWORD(f)); return false; }
    Node* n = lookup(full);
    if (!n) { Node* p; lookup(full, &p); set_last_error(p ? ERROR_FILE_NOT_FOUND : ERROR_PATH_NOT_FOUND); return false; }
    if (n->dir || (n->attr & FILE_ATTRIBUTE_READONLY) || n->delete_pending) { set_last_error(ERROR_ACCESS_DENIED); return false; }
    if (!check_share(n, DELETE, FILE_SHARE_READ | FILE_SHARE_WRITE | FILE_SHARE_DELETE)) { sim_count("sharing_violation"); sim_note("DeleteFile %s: sharing violation", narrow(full).c_str()); set_last_error(ERROR_SHARING_VIOLATION); return false; }
    tell('d', n, 0);
    n->delete_pending = true;
    sim_note("DeleteFile %s", narrow(full).c_str());
    if (n->opens.empty()) node_unlink(n);
    return true;
}
API(BOOL, DeleteFileW, (LPCWSTR p)) { return k_delete(p); }
API(int, _unlink, (const char* p)) { KE k; if (k_delete(widen(p).c_str())) return 0; set_errno_(errno_from(get_last_error())); return -1; }
API(int, unlink, (const char* p)) { return sim__unlink(p); }
API(int, remove, (const char* p)) { return sim__unlink(p); }
static bool k_move(const ws& a, const ws& b, bool replace)
{
    sim_point("MoveFile");
    int f = sim_fault("move", a); if (f) { set_last_error(DWORD(f)); return false; }
    Node* n = lookup(a);
    if (!n) { Node* p; lookup(a, &p); set_last_error(p ? ERROR_FILE_NOT_FOUND : ERROR_PATH_NOT_FOUND); return false; }
    Node* p; ws leaf;
    Node* d = lookup(b, &p, &leaf);
    if (!p) { set_last_error(ERROR_PATH_NOT_FOUND); return false; }
    if (d && d != n)
    {
        if (!replace) { set_last_error(ERROR_ALREADY_EXISTS); return false; }
        if (d->dir || (d->attr & FILE_ATTRIBUTE_READONLY) || !d->opens.empty()) { set_last_error(ERROR_ACCESS_DENIED); return false; }
    }
    if (n->delete_pending) { set_last_error(ERROR_ACCESS_DENIED); return false; }
    if (!check_share(n, DELETE, 7)) { set_last_error(ERROR_SHARING_VIOLATION); return false; }
    if (d && d != n) node_unlink(d);
    n->parent->kids.erase(lower(n->name));
    n->name = leaf; n->parent = p; p->kids[lower(leaf)] = n;
    sim_note("MoveFile %s -> %s", narrow(a).c_str(), narrow(b).c_str());
    return true;
}
API(BOOL, MoveFileW, (LPCWSTR a, LPCWSTR b)) { KE k; return k_move(full_path(a), full_path(b), false); }
API(BOOL, MoveFileExW, (LPCWSTR a, LPCWSTR b, DWORD fl)) { KE k; return k_move(full_path(a), full_path(b), !!(fl & MOVEFILE_REPLACE_EXISTING)); }
API(int, rename, (const char* a, const char* b)) { KE k; if (k_move(full_path(widen(a).c_str()), full_path(widen(b).c_str()), false)) return 0; set_errno_(errno_from(get_last_error())); return -1; }
API(BOOL, CopyFileW, (LPCWSTR a, LPCWSTR b, BOOL no_replace))
{
    KE k;
    HANDLE h = k_open(a, GENERIC_READ, FILE_SHARE_READ | FILE_SHARE_WRITE, OPEN_EXISTING, 0, "CopyFile");
    if (h == INVALID_HANDLE_VALUE) return FALSE;
    string d = ((FileObj*)handle_get(h))->n->r();
    handle_close(the_proc(), h);
    h = k_open(b, GENERIC_WRITE, 0, no_replace ? CREATE_NEW : CREATE_ALWAYS, 0, "CopyFile");
    if (h == INVALID_HANDLE_VALUE) return FALSE;
    u32 put; bool ok = k_write(h, d.data(), u32(d.size()), put) && put == d.size();
    handle_close(the_proc(), h);
    if (!ok) { DWORD e = get_last_error(); k_delete(b); set_last_error(e); }
    return ok;
}
API(BOOL, CreateDirectoryW, (LPCWSTR path, LPSECURITY_ATTRIBUTES))
{
    KE k; sim_point("CreateDirectory");
    ws full = full_path(path);
    int f = sim_fault("mkdir", full); if (f) { set_last_error(DWORD(f)); return FALSE; }
    Node* p; ws leaf;
    if (lookup(full, &p, &leaf)) { set_last_error(ERROR_ALREADY_EXISTS); return FALSE; }
    if (!p || leaf.empty()) { set_last_error(ERROR_PATH_NOT_FOUND); return FALSE; }
    node_new(true, leaf, p);
    return TRUE;
}
API(BOOL, RemoveDirectoryW, (LPCWSTR path))
{
    KE k; sim_point("RemoveDirectory");
    Node* n = lookup(full_path(path));
    if (!n || !n->parent) { set_last_error(ERROR_FILE_NOT_FOUND); return FALSE; }
    if (!n->dir) { set_last_error(ERROR_DIRECTORY); return FALSE; }
    if (!n->kids.empty()) { set_last_error(ERROR_DIR_NOT_EMPTY); return FALSE; }
    node_unlink(n);
    return TRUE;
}
API(DWORD, GetFileAttributesW, (LPCWSTR path))
{
    KE k; sim_point("GetFileAttributes");
    ws full = full_path(path);
    if (full.find_first_of(L"*?<>|\"") != ws::npos) { set_last_error(ERROR_INVALID_NAME); return INVALID_FILE_ATTRIBUTES; }
    Node* p; ws leaf;
    Node* n = lookup(full, &p, &leaf);
    if (!n) { set_last_error(p ? ERROR_FILE_NOT_FOUND : ERROR_PATH_NOT_FOUND); return INVALID_FILE_ATTRIBUTES; }
    if (full.size() > 3 && full.back() == '\\' && !n->dir) { set_last_error(ERROR_INVALID_NAME); return INVALID_FILE_ATTRIBUTES; }
    return n->attr;
}
API(DWORD, GetFileAttributesA, (LPCSTR path)) { KE k; return sim_GetFileAttributesW(widen(path).c_str()); }
API(BOOL, SetFileAttributesW, (LPCWSTR path, DWORD a)) { KE k; Node* n = lookup(full_path(path)); if (!n) { set_last_error(ERROR_FILE_NOT_FOUND); return FALSE; } n->attr = (n->attr & FILE_ATTRIBUTE_DIRECTORY) | a; return TRUE; }
API(BOOL, GetFileAttributesExW, (LPCWSTR path, GET_FILEEX_INFO_LEVELS, LPVOID out))
{
    KE k; sim_point("GetFileAttributes");
    Node* n = lookup(full_path(path));
    if (!n) { set_last_error(ERROR_FILE_NOT_FOUND); return FALSE; }
    WIN32_FILE_ATTRIBUTE_DATA* d = (WIN32_FILE_ATTRIBUTE_DATA*)out;
    memset(d, 0, sizeof *d);
    d->dwFileAttributes = n->attr; d->nFileSizeLow = u32(n->r().size());
    put_time(d->ftCreationTime, n->ctime); put_time(d->ftLastWriteTime, n->mtime); put_time(d->ftLastAccessTime, n->atime);
    return TRUE;
}
static DWORD out_str(const ws& s, DWORD n, LPWSTR b) { if (n <= s.size()) return DWORD(s.size() + 1); memcpy(b, s.c_str(), (s.size() + 1) * 2); return DWORD(s.size()); }
API(DWORD, GetFullPathNameW, (LPCWSTR p, DWORD n, LPWSTR b, LPWSTR* part))
{
    KE k;
    if (!*p) { set_last_error(ERROR_INVALID_NAME); return 0; }
    ws f = full_path(p);
    DWORD r = out_str(f, n, b);
    if (r < n && part) { wchar_t* s = wcsrchr(b, '\\'); *part = s && s[1] ? s + 1 : nullptr; }
    return r;
}
API(DWORD, GetLongPathNameW, (LPCWSTR p, LPWSTR b, DWORD n)) { KE k; if (!lookup(full_path(p))) { set_last_error(ERROR_FILE_NOT_FOUND); return 0; } return out_str(p, n, b); }
API(DWORD, GetShortPathNameW, (LPCWSTR p, LPWSTR b, DWORD n)) { KE k; if (!lookup(full_path(p))) { set_last_error(ERROR_FILE_NOT_FOUND); return 0; } return out_str(p, n, b); }
API(DWORD, GetTempPathW, (DWORD n, LPWSTR b)) { KE k; auto& e = the_proc()->env; auto i = e.find(L"tmp"); return out_str((i == e.end() ? ws(L"C:\\temp") : i->second.second) + L"\\", n, b); }
API(UINT, GetDriveTypeW, (LPCWSTR p)) { return p && (p[0] == 'C' || p[0] == 'c' || ((p[0] == 'D' || p[0] == 'd') && fs_exists("D:\\"))) ? DRIVE_FIXED : DRIVE_NO_ROOT_DIR; }
API(BOOL, GetDiskFreeSpaceExW, (LPCWSTR, PULARGE_INTEGER a, PULARGE_INTEGER b, PULARGE_INTEGER c)) { u64 v = s_limit < 0 ? 1ull << 40 : u64(std::max<i64>(0, s_limit - s_used)); if (a) a->QuadPart = v; if (b) b->QuadPart = 1ull << 40; if (c) c->QuadPart = v; return TRUE; }
API(DWORD, SearchPathW, (LPCWSTR path, LPCWSTR name, LPCWSTR ext, DWORD n, LPWSTR b, LPWSTR* part))
{
    KE k; sim_point("SearchPath");
    ws p;
    if (path) p = path; else { p = the_proc()->cwd; auto i = the_proc()->env.find(L"path"); if (i != the_proc()->env.end()) p += L";" + i->second.second; }
    ws nm = name; size_t dot = nm.rfind('.');
    if (ext && dot == ws::npos) nm += ext;
    std::vector<ws> dirs;
    if (nm.find_first_of(L"\\/:") != ws::npos) dirs.push_back(L"");
    else { size_t i = 0; while (i <= p.size()) { size_t j = p.find(';', i); if (j == ws::npos) j = p.size(); if (j > i) dirs.push_back(p.substr(i, j - i) + L"\\"); i = j + 1; } }
    for (auto& d : dirs)
    {
        ws f = full_path((d + nm).c_str());
        Node* x = lookup(f);
        if (x && !x->dir) { DWORD r = out_str(f, n, b); if (r < n && part) *part = wcsrchr(b, '\\') + 1; return r; }
    }
    set_last_error(ERROR_FILE_NOT_FOUND);
    return 0;
}
API(int, _wstat64, (const wchar_t* path, struct _stat64* st))
{
    KE k; sim_point("stat");
    Node* n = lookup(full_path(path));
    if (!n) { set_errno_(ENOENT); return -1; }
    memset(st, 0, sizeof *st);
    st->st_mode = n->dir ? (_S_IFDIR | 0777) : (_S_IFREG | ((n->attr & FILE_ATTRIBUTE_READONLY) ? 0444 : 0666));
    st->st_size = n->dir ? 0 : i64(n->r().size()); st->st_nlink = 1;
    auto ut = [](u64 t) { return i64(t - 116444736000000000ull) / 10000000; };
    st->st_mtime = ut(n->mtime); st->st_atime = ut(n->atime); st->st_ctime = ut(n->ctime);
    return 0;
}
bool fs_utime(const wchar_t* path, i64 unix_secs) { Node* n = lookup(full_path(path)); if (!n) return false; n->mtime = u64(unix_secs) * 10000000 + 116444736000000000ull; return true; }
bool fs_stat_handle(HANDLE h, struct _stat64* st)
{
    KE k;
    memset(st, 0, sizeof *st);
    KObj* o = handle_get(h); if (!o) return false;
    if (strcmp(o->type, "file")) { st->st_mode = !strcmp(o->type, "pipe") ? _S_IFIFO : _S_IFCHR; return true; }
    Node* n = ((FileObj*)o)->n;
    st->st_mode = _S_IFREG | 0666; st->st_size = i64(n->r().size()); st->st_nlink = 1;
    st->st_mtime = st->st_ctime = st->st_atime = i64(n->mtime - 116444736000000000ull) / 10000000;
    return true;
}

//------------------------------------------------------------------------------
void make_pipe(HANDLE* r, HANDLE* w, size_t cap)
{
    KE k;
    auto b = std::make_shared<PipeBuf>();
    b->cap = cap ? cap : 4096;
    *r = handle_new(the_proc(), new PipeObj(b, false), GENERIC_READ);
    *w = handle_new(the_proc(), new PipeObj(b, true), GENERIC_WRITE);
}
API(BOOL, CreatePipe, (PHANDLE r, PHANDLE w, LPSECURITY_ATTRIBUTES sa, DWORD size))
{
    KE k; sim_point("CreatePipe");
    if (sim_fault("CreatePipe")) { set_last_error(ERROR_NO_SYSTEM_RESOURCES); return FALSE; }
    make_pipe(r, w, size);
    if (sa && sa->bInheritHandle) { the_proc()->handles[(u64)*r].inherit = true; the_proc()->handles[(u64)*w].inherit = true; }
    return TRUE;
}
API(BOOL, PeekNamedPipe, (HANDLE h, LPVOID, DWORD, LPDWORD, LPDWORD avail, LPDWORD))
{
    KE k; sim_point("PeekNamedPipe");
    KObj* o = handle_get(h); if (!o || strcmp(o->type, "pipe")) { set_last_error(ERROR_INVALID_HANDLE); return FALSE; }
    PipeBuf* b = ((PipeObj*)o)->b.get();
    if (b->data.empty() && !b->writers) { set_last_error(ERROR_BROKEN_PIPE); return FALSE; }
    if (avail) *avail = DWORD(b->data.size());
    return TRUE;
}

//------------------------------------------------------------------------------
// Host side helpers.
static Node* mk(const ws& full, bool dir)
{
    std::vector<ws> c; split(full, c);
    Node* n = root();
    for (size_t i = 0; i < c.size(); ++i)
    {
        auto k = n->kids.find(lower(c[i]));
        if (k != n->kids.end()) { n = k->second; continue; }
        n = node_new(dir || i + 1 < c.size(), c[i], n);
    }
    return n;
}
static ws hp(const char* p) { ws w = widen(p); for (auto& c : w) if (c == '/') c = '\\'; if (w.size() < 2 || w[1] != ':') w = L"C:" + w; return w; }
void fs_mkdir(const char* p) { HostScope h; mk(hp(p), true); }
void fs_write(const char* p, const string& d) { HostScope h; Node* n = mk(hp(p), false); s_used += i64(d.size()) - i64(n->r().size()); n->data = std::make_shared<string>(d); n->mtime = sim_filetime(); }
bool fs_exists(const char* p) { HostScope h; Node* n = lookup(hp(p)); return n && !n->delete_pending; }
string fs_read(const char* p) { HostScope h; Node* n = lookup(hp(p)); return n ? n->r() : string(); }
std::vector<string> fs_list(const char* p) { HostScope h; std::vector<string> r; Node* n = lookup(hp(p)); if (n) for (auto& k : n->kids) r.push_back(narrow(k.second->name)); return r; }
int fs_open_count(const char* p) { HostScope h; Node* n = lookup(hp(p)); return n ? int(n->opens.size()) : 0; }
void fs_set_mtime(const char* p, i64 s) { HostScope h; Node* n = lookup(hp(p)); if (n) n->mtime = u64(s) * 10000000 + 116444736000000000ull; }
void fs_set_limit(i64 b) { s_limit = b; }
i64 fs_used() { return s_used; }
static u64 hash_node(Node* n, u64 h)
{
    string nm = narrow(n->name); h = hash_str(nm.data(), nm.size(), h);
    if (!n->dir) h = hash_str(n->r().data(), n->r().size(), h);
    for (auto& k : n->kids) h = hash_node(k.second, h);
    return h;
}
u64 fs_hash() { HostScope h; u64 v = 77; for (auto& k : root()->kids) if (k.first != L"repo") v = hash_node(k.second, v); return v; }
void fs_preload_real(const char* real, const char* simdir)
{
    HostScope h;
    fs_mkdir(simdir);
    WIN32_FIND_DATAA d;
    HANDLE f = FindFirstFileA((string(real) + "\\*").c_str(), &d);
    if (f == INVALID_HANDLE_VALUE) return;
    do
    {
        string n = d.cFileName;
        if (n == "." || n == "..") continue;
        string rp = string(real) + "\\" + n, sp = string(simdir) + "\\" + n;
        if (d.dwFileAttributes & FILE_ATTRIBUTE_DIRECTORY) { fs_preload_real(rp.c_str(), sp.c_str()); continue; }
        HANDLE x = CreateFileA(rp.c_str(), GENERIC_READ, 7, nullptr, OPEN_EXISTING, 0, nullptr);
        if (x == INVALID_HANDLE_VALUE) continue;
        string data(GetFileSize(x, nullptr), 0); DWORD got = 0;
        ReadFile(x, &data[0], DWORD(data.size()), &got, nullptr); data.resize(got);
        CloseHandle(x);
        fs_write(sp.c_str(), data);
    } while (FindNextFileA(f, &d));
    FindClose(f);
}
