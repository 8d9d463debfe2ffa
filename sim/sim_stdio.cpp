// Simulated C stdio: streams with user space buffers (lost in a crash), text mode,
// file descriptors, popen/system.
#include "sim.h"
#include "sim_int.h"
#include "sim_kern.h"
#include <errno.h>
#include <fcntl.h>
#include <io.h>
#include <share.h>
#include <stdarg.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/utime.h>
#include <algorithm>

typedef std::wstring ws;
bool fs_stat_handle(HANDLE h, struct _stat64* st);
bool fs_utime(const wchar_t* path, i64 unix_secs);

static const size_t BUF = 4096;
struct SimFile
{
    FILE dummy;                         // Nothing looks inside.
    bool used = false, std_ = false;
    int fd = -1;
    bool rd = false, wr = false, eof = false, err = false;
    int bufmode = _IOFBF;
    string wbuf, rbuf;
    size_t rpos = 0;
    string unget;
    HANDLE child = nullptr;             // For _popen.
    Proc* proc = nullptr;
    void clear() { std_ = false; used = rd = wr = eof = err = false; fd = -1; bufmode = _IOFBF; wbuf.clear(); rbuf.clear(); rpos = 0; unget.clear(); child = nullptr; proc = nullptr; }
};
static const int NF = 2048;
static SimFile* s_files;                // Fixed slots: pointers repeat from run to run.
static FILE s_std[3];
static std::map<std::pair<Proc*, int>, SimFile*>* s_stdmap;

static SimFile* files()
{
    if (!s_files) { HostScope h; s_files = (SimFile*)VirtualAlloc((void*)0x30000000000ull, sizeof(SimFile) * NF, MEM_RESERVE | MEM_COMMIT, PAGE_READWRITE); for (int i = 0; i < NF; ++i) new (&s_files[i]) SimFile; s_stdmap = new std::map<std::pair<Proc*, int>, SimFile*>; }
    return s_files;
}
static SimFile* alloc_file(Proc* p)
{
    SimFile* f = files();
    for (int i = 0; i < NF; ++i) if (!f[i].used) { f[i].clear(); f[i].used = true; f[i].proc = p; return &f[i]; }
    return nullptr;
}
static SimFile* get(FILE* fp)
{
    files();
    if (fp >= s_std && fp < s_std + 3)
    {
        int i = int(fp - s_std);
        SimFile*& f = (*s_stdmap)[{ the_proc(), i }];
        if (!f) { f = alloc_file(the_proc()); f->fd = i; f->std_ = true; f->rd = i == 0; f->wr = i != 0; f->bufmode = i == 2 ? _IONBF : _IOLBF; }
        return f;
    }
    SimFile* f = (SimFile*)fp;
    if (f < s_files || f >= s_files + NF || !f->used)
    {
        sim_violate("stdio", "use of a stream that is not open");
        return nullptr;
    }
    if (f->proc != the_proc() ) { sim_violate("simulator", "stream of another process"); }
    return f;
}
FILE* sim_std_file(int i) { return &s_std[i]; }

//------------------------------------------------------------------------------
// Descriptors.
static FdEnt* fdent(int fd) { auto& m = the_proc()->fds; auto i = m.find(fd); if (i == m.end() || !i->second.open) { set_errno_(EBADF); return nullptr; } return &i->second; }
static int fd_new(HANDLE h, bool text, bool append)
{
    auto& m = the_proc()->fds;
    int fd = 3; while (m.count(fd) && m[fd].open) ++fd;
    FdEnt e; e.handle = (u64)h; e.text = text; e.append = append; e.open = true;
    m[fd] = e;
    return fd;
}
static bool fd_flush_raw(SimFile* f)
{
    if (f->wbuf.empty()) return true;
    FdEnt* e = fdent(f->fd);
    string raw;
    if (!e) { f->wbuf.clear(); f->err = true; return false; }
    bool text = e->text;
    if (text) { for (char c : f->wbuf) { if (c == '\n') raw += '\r'; raw += c; } }
    else raw = f->wbuf;
    f->wbuf.clear();
    if (e->append) k_seek((HANDLE)e->handle, 0, 2);
    u32 put = 0;
    bool ok = k_write((HANDLE)e->handle, raw.data(), u32(raw.size()), put);
    if (!ok) set_errno_(errno_from(get_last_error()));
    else if (put < raw.size()) { ok = false; set_errno_(ENOSPC); }
    if (!ok) f->err = true;
    return ok;
}
// Drop the read-ahead: the descriptor goes back to the logical position.
static void drop_read(SimFile* f)
{
    FdEnt* e = fdent(f->fd);
    if (e && f->rpos < f->rbuf.size() && k_type((HANDLE)e->handle) == FILE_TYPE_DISK) k_seek((HANDLE)e->handle, -i64(f->rbuf.size() - f->rpos), 1);
    f->rbuf.clear(); f->rpos = 0; f->unget.clear();
}
static bool fill(SimFile* f)
{
    FdEnt* e = fdent(f->fd);
    if (!e) { f->err = true; return false; }
    if (f->rpos) { f->rbuf.erase(0, f->rpos); f->rpos = 0; }
    char b[BUF]; u32 got = 0;
    u32 want = f->bufmode == _IONBF ? 1 : BUF;
    if (!k_read((HANDLE)e->handle, b, want, got))
    {
        if (get_last_error() == ERROR_BROKEN_PIPE) { return false; }
        f->err = true; set_errno_(errno_from(get_last_error()));
        return false;
    }
    if (!got) return false;
    f->rbuf.append(b, got);
    return true;
}
static int getc_(SimFile* f)
{
    if (!f->rd) { f->err = true; set_errno_(EBADF); return EOF; }
    if (!f->wbuf.empty()) fd_flush_raw(f);
    if (!f->unget.empty()) { int c = (unsigned char)f->unget.back(); f->unget.pop_back(); return c; }
    for (;;)
    {
        if (f->rpos >= f->rbuf.size())
        {
            bool was = f->err;
            if (!fill(f)) { if (f->err && !was) return EOF; if (!f->err) f->eof = true; return EOF; }
        }
        char c = f->rbuf[f->rpos];
        FdEnt* e = fdent(f->fd);
        if (e && e->text)
        {
            if (c == 26) { f->eof = true; return EOF; }
            if (c == '\r')
            {
                if (f->rpos + 1 >= f->rbuf.size()) fill(f); // (fill keeps the unread byte)
                if (f->rpos + 1 < f->rbuf.size() && f->rbuf[f->rpos + 1] == '\n') { f->rpos++; continue; }
            }
        }
        f->rpos++;
        return (unsigned char)c;
    }
}
static bool put_(SimFile* f, const char* p, size_t n)
{
    if (!f->wr) { f->err = true; set_errno_(EBADF); return false; }
    if (f->rpos < f->rbuf.size() || !f->unget.empty()) drop_read(f);
    bool ok = true;
    while (n)
    {
        size_t m = std::min(n, BUF - f->wbuf.size());
        f->wbuf.append(p, m); p += m; n -= m;
        if (f->wbuf.size() >= BUF) ok = fd_flush_raw(f) && ok;
    }
    if (f->bufmode != _IOFBF && !f->wbuf.empty()) ok = fd_flush_raw(f) && ok;
    return ok;
}
static void mode_parse(const char* m, bool& rd, bool& wr, bool& app, bool& plus, bool& text, bool* excl = nullptr)
{
    rd = wr = app = plus = false; text = true;
    for (; *m && *m != ','; ++m)
        switch (*m) { case 'x': if (excl) *excl = true; break; case 'r': rd = true; break; case 'w': wr = true; break; case 'a': app = true; break; case '+': plus = true; break; case 'b': text = false; break; case 't': text = true; break; }
}
static FILE* fopen_(const wchar_t* path, const char* mode, int shflag)
{
    KE k;
    bool rd, wr, app, plus, text, excl = false; mode_parse(mode, rd, wr, app, plus, text, &excl);
    DWORD access = plus ? GENERIC_READ | GENERIC_WRITE : rd ? GENERIC_READ : GENERIC_WRITE;
    DWORD disp = rd ? OPEN_EXISTING : wr && excl ? CREATE_NEW : wr ? CREATE_ALWAYS : OPEN_ALWAYS;
    DWORD share = shflag == _SH_DENYRW ? 0 : shflag == _SH_DENYWR ? FILE_SHARE_READ : shflag == _SH_DENYRD ? FILE_SHARE_WRITE : FILE_SHARE_READ | FILE_SHARE_WRITE;
    HANDLE h = k_open(path, access, share, disp, 0, "fopen");
    if (h == INVALID_HANDLE_VALUE) { set_errno_(errno_from(get_last_error())); return nullptr; }
    the_proc()->handles[(u64)h].inherit = true;
    SimFile* f = alloc_file(the_proc());
    if (!f) { handle_close(the_proc(), h); set_errno_(EMFILE); return nullptr; }
    f->fd = fd_new(h, text, app);
    f->rd = plus || rd; f->wr = plus || wr || app;
    if (app) k_seek(h, 0, 2);
    the_proc()->files.insert(f);
    return (FILE*)f;
}
API(FILE*, fopen, (const char* path, const char* mode)) { KE k; return fopen_(widen(path).c_str(), mode, _SH_DENYNO); }
API(FILE*, _fsopen, (const char* path, const char* mode, int sh)) { KE k; return fopen_(widen(path).c_str(), mode, sh); }
API(FILE*, _wfopen, (const wchar_t* path, const wchar_t* mode)) { KE k; return fopen_(path, narrow(mode).c_str(), _SH_DENYNO); }
API(FILE*, _wfsopen, (const wchar_t* path, const wchar_t* mode, int sh)) { KE k; return fopen_(path, narrow(mode).c_str(), sh); }
static FILE* fdopen_(int fd, const char* mode)
{
    KE k;
    FdEnt* e = fdent(fd); if (!e) return nullptr;
    bool rd, wr, app, plus, text; mode_parse(mode, rd, wr, app, plus, text);
    SimFile* f = alloc_file(the_proc());
    if (!f) { set_errno_(EMFILE); return nullptr; }
    if (strchr(mode, 'b')) e->text = false; else if (strchr(mode, 't')) e->text = true;
    f->fd = fd; f->rd = plus || rd; f->wr = plus || wr || app;
    the_proc()->files.insert(f);
    return (FILE*)f;
}
API(FILE*, _fdopen, (int fd, const char* mode)) { return fdopen_(fd, mode); }
API(FILE*, fdopen, (int fd, const char* mode)) { return fdopen_(fd, mode); }
API(FILE*, _wfdopen, (int fd, const wchar_t* mode)) { KE k; return fdopen_(fd, narrow(mode).c_str()); }
static int fd_close(int fd)
{
    FdEnt* e = fdent(fd); if (!e) return -1;
    HANDLE h = (HANDLE)e->handle;
    e->open = false;
    sim_point("close");
    if (!handle_close(the_proc(), h)) { sim_count("bad_close"); set_errno_(EBADF); return -1; }
    return 0;
}
static void release(SimFile* f) { f->proc->files.erase(f); f->clear(); }
API(int, fclose, (FILE* fp))
{
    KE k;
    if (!fp) { sim_violate("stdio", "fclose(NULL)"); return EOF; }
    SimFile* f = get(fp); if (!f) return EOF;
    bool ok = true;
    if (!f->wbuf.empty()) ok = fd_flush_raw(f);
    if (sim_fault("fclose")) ok = false;
    if (f->std_) { f->wbuf.clear(); return 0; }
    int fd = f->fd;
    release(f);
    if (fd_close(fd)) ok = false;
    return ok ? 0 : EOF;
}
API(int, fflush, (FILE* fp))
{
    KE k;
    if (!fp) { stdio_flush_all(the_proc()); return 0; }
    SimFile* f = get(fp);
    bool had = !f->wbuf.empty();
    bool ok = fd_flush_raw(f);
    if (!had && f->rd && !f->std_) drop_read(f);
    return ok ? 0 : EOF;
}
API(size_t, fread, (void* p, size_t sz, size_t n, FILE* fp))
{
    KE k; SimFile* f = get(fp);
    size_t total = sz * n, got = 0;
    while (got < total) { int c = getc_(f); if (c == EOF) break; ((char*)p)[got++] = char(c); }
    return sz ? got / sz : 0;
}
API(size_t, fwrite, (const void* p, size_t sz, size_t n, FILE* fp))
{
    KE k; SimFile* f = get(fp);
    return put_(f, (const char*)p, sz * n) ? n : 0;
}
API(int, fgetc, (FILE* fp)) { KE k; return getc_(get(fp)); }
API(int, getc, (FILE* fp)) { KE k; return getc_(get(fp)); }
API(int, ungetc, (int c, FILE* fp)) { KE k; if (c == EOF) return EOF; SimFile* f = get(fp); f->unget += char(c); f->eof = false; return c; }
API(char*, fgets, (char* b, int n, FILE* fp))
{
    KE k; SimFile* f = get(fp);
    int i = 0;
    while (i < n - 1) { int c = getc_(f); if (c == EOF) break; b[i++] = char(c); if (c == '\n') break; }
    if (!i || f->err) { if (!i) return nullptr; }
    b[i] = 0;
    return b;
}
API(int, fputs, (const char* s, FILE* fp)) { KE k; return put_(get(fp), s, strlen(s)) ? 0 : EOF; }
API(int, fputc, (int c, FILE* fp)) { KE k; char x = char(c); return put_(get(fp), &x, 1) ? (unsigned char)x : EOF; }
API(int, putc, (int c, FILE* fp)) { return sim_fputc(c, fp); }
API(int, putchar, (int c)) { return sim_fputc(c, &s_std[1]); }
API(int, puts, (const char* s)) { KE k; SimFile* f = get(&s_std[1]); return put_(f, s, strlen(s)) && put_(f, "\n", 1) ? 0 : EOF; }
API(int, _putws, (const wchar_t* s)) { KE k; return sim_puts(narrow(s).c_str()); }
static int vprint(FILE* fp, const char* fmt, va_list a)
{
    KE k;
    va_list b; va_copy(b, a); int n = __mingw_vsnprintf(nullptr, 0, fmt, b); va_end(b);
    if (n < 0) return n;
    string s(n + 1, 0); __mingw_vsnprintf(&s[0], n + 1, fmt, a);
    return put_(get(fp), s.data(), n) ? n : -1;
}
API(int, __mingw_vfprintf, (FILE* fp, const char* fmt, va_list a)) { return vprint(fp, fmt, a); }
API(int, vfprintf, (FILE* fp, const char* fmt, va_list a)) { return vprint(fp, fmt, a); }
API(int, __mingw_vprintf, (const char* fmt, va_list a)) { return vprint(&s_std[1], fmt, a); }
API(int, vprintf, (const char* fmt, va_list a)) { return vprint(&s_std[1], fmt, a); }
API(int, fprintf, (FILE* fp, const char* fmt, ...)) { va_list a; va_start(a, fmt); int r = vprint(fp, fmt, a); va_end(a); return r; }
API(int, printf, (const char* fmt, ...)) { va_list a; va_start(a, fmt); int r = vprint(&s_std[1], fmt, a); va_end(a); return r; }
API(int, __mingw_vfscanf, (FILE* fp, const char* fmt, va_list a))
{
    KE k; SimFile* f = get(fp);
    string s; int c;
    while ((c = getc_(f)) != EOF && isspace(c)) {}
    while (c != EOF && (isalnum(c) || strchr("+-.", c))) { s += char(c); c = getc_(f); }
    if (c != EOF) { f->unget += char(c); }
    if (s.empty()) return c == EOF ? EOF : 0;
    return __mingw_vsscanf(s.c_str(), fmt, a);
}
API(int, fseek, (FILE* fp, long off, int whence))
{
    KE k; SimFile* f = get(fp);
    if (!f->wbuf.empty() && !fd_flush_raw(f)) return -1;
    drop_read(f);
    f->eof = false;
    FdEnt* e = fdent(f->fd); if (!e) return -1;
    sim_point("fseek");
    if (k_seek((HANDLE)e->handle, off, whence) < 0) { set_errno_(EINVAL); return -1; }
    return 0;
}
API(void, rewind, (FILE* fp)) { sim_fseek(fp, 0, 0); KE k; get(fp)->err = false; }
API(long, ftell, (FILE* fp))
{
    KE k; SimFile* f = get(fp);
    if (!f->wbuf.empty()) fd_flush_raw(f);
    FdEnt* e = fdent(f->fd); if (!e) return -1;
    i64 p = k_seek((HANDLE)e->handle, 0, 1);
    if (p < 0) { set_errno_(EINVAL); return -1; }
    return long(p - i64(f->rbuf.size() - f->rpos) - i64(f->unget.size()));
}
API(int, feof, (FILE* fp)) { KE k; return get(fp)->eof; }
API(int, ferror, (FILE* fp)) { KE k; return get(fp)->err; }
API(void, clearerr, (FILE* fp)) { KE k; SimFile* f = get(fp); f->eof = f->err = false; }
API(int, _fileno, (FILE* fp)) { KE k; return get(fp)->fd; }
API(int, fileno, (FILE* fp)) { KE k; return get(fp)->fd; }
API(int, setvbuf, (FILE* fp, char*, int mode, size_t)) { KE k; get(fp)->bufmode = mode; return 0; }
API(void, setbuf, (FILE* fp, char* b)) { KE k; if (!b) get(fp)->bufmode = _IONBF; }
API(FILE*, freopen, (const char* path, const char* mode, FILE* fp))
{
    KE k; SimFile* f = get(fp);
    fd_flush_raw(f);
    FILE* n = fopen_(widen(path).c_str(), mode, _SH_DENYNO);
    if (!n) return nullptr;
    SimFile* x = get(n);
    std::swap(f->fd, x->fd); std::swap(f->rd, x->rd); std::swap(f->wr, x->wr);
    bool s = x->fd <= 2; int fd = x->fd; release(x); if (!s) fd_close(fd);
    return fp;
}
API(FILE*, __acrt_iob_func, (unsigned i)) { return &s_std[i]; }
API(FILE*, __iob_func, ()) { return &s_std[0]; }
static int s_tmp;
API(char*, tmpnam, (char* b)) { KE k; static char st[64]; char* r = b ? b : st; sprintf(r, "\\s%x.%d", the_proc()->pid, ++s_tmp); return r; }
API(FILE*, tmpfile, ())
{
    KE k;
    ws p = widen(strf("C:\\temp\\t%x.%d", the_proc()->pid, ++s_tmp).c_str());
    HANDLE h = k_open(p.c_str(), GENERIC_READ | GENERIC_WRITE, 7, CREATE_ALWAYS, FILE_FLAG_DELETE_ON_CLOSE, "tmpfile");
    if (h == INVALID_HANDLE_VALUE) { set_errno_(errno_from(get_last_error())); return nullptr; }
    SimFile* f = alloc_file(the_proc()); f->fd = fd_new(h, false, false); f->rd = f->wr = true; the_proc()->files.insert(f);
    return (FILE*)f;
}
API(int, utime, (const char* p, struct _utimbuf* t)) { KE k; if (fs_utime(widen(p).c_str(), t ? i64(t->modtime) : 0)) return 0; set_errno_(ENOENT); return -1; }
API(int, _utime64, (const char* p, struct __utimbuf64* t)) { KE k; if (fs_utime(widen(p).c_str(), t ? i64(t->modtime) : 0)) return 0; set_errno_(ENOENT); return -1; }

//------------------------------------------------------------------------------
static int open_(const wchar_t* path, int of, int shflag)
{
    DWORD access = (of & _O_RDWR) ? GENERIC_READ | GENERIC_WRITE : (of & _O_WRONLY) ? GENERIC_WRITE : GENERIC_READ;
    DWORD share = shflag == _SH_DENYRW ? 0 : shflag == _SH_DENYWR ? FILE_SHARE_READ : shflag == _SH_DENYRD ? FILE_SHARE_WRITE : FILE_SHARE_READ | FILE_SHARE_WRITE;
    DWORD disp = (of & _O_CREAT) ? ((of & _O_EXCL) ? CREATE_NEW : (of & _O_TRUNC) ? CREATE_ALWAYS : OPEN_ALWAYS) : (of & _O_TRUNC) ? TRUNCATE_EXISTING : OPEN_EXISTING;
    DWORD flags = 0;
    if (of & _O_TEMPORARY) { flags |= FILE_FLAG_DELETE_ON_CLOSE; share |= FILE_SHARE_DELETE; access |= DELETE; }
    if (of & _O_SHORT_LIVED) flags |= FILE_ATTRIBUTE_TEMPORARY;
    HANDLE h = k_open(path, access, share, disp, flags, "open");
    if (h == INVALID_HANDLE_VALUE) { set_errno_(errno_from(get_last_error())); return -1; }
    the_proc()->handles[(u64)h].inherit = !(of & _O_NOINHERIT);
    return fd_new(h, !(of & _O_BINARY), !!(of & _O_APPEND));
}
API(int, _wsopen, (const wchar_t* path, int of, int sh, ...)) { KE k; return open_(path, of, sh); }
API(int, _wsopen_s, (int* fd, const wchar_t* path, int of, int sh, int)) { KE k; *fd = open_(path, of, sh); return *fd < 0 ? cur_thread_or_host()->err_no : 0; }
API(int, _sopen_s, (int* fd, const char* path, int of, int sh, int)) { KE k; *fd = open_(widen(path).c_str(), of, sh); return *fd < 0 ? cur_thread_or_host()->err_no : 0; }
API(int, open, (const char* path, int of, ...)) { KE k; return open_(widen(path).c_str(), of, _SH_DENYNO); }
API(int, _open, (const char* path, int of, ...)) { KE k; return open_(widen(path).c_str(), of, _SH_DENYNO); }
API(int, _close, (int fd)) { KE k; return fd_close(fd); }
API(int, close, (int fd)) { KE k; return fd_close(fd); }
API(int, read, (int fd, void* p, unsigned n))
{
    KE k; FdEnt* e = fdent(fd); if (!e) return -1;
    u32 got = 0;
    if (!k_read((HANDLE)e->handle, p, n, got)) { if (get_last_error() == ERROR_BROKEN_PIPE) return 0; set_errno_(errno_from(get_last_error())); return -1; }
    if (e->text) { u32 o = 0; char* c = (char*)p; for (u32 i = 0; i < got; ++i) { if (c[i] == '\r' && i + 1 < got && c[i + 1] == '\n') continue; c[o++] = c[i]; } got = o; }
    return int(got);
}
API(int, _read, (int fd, void* p, unsigned n)) { return sim_read(fd, p, n); }
API(int, write, (int fd, const void* p, unsigned n))
{
    KE k; FdEnt* e = fdent(fd); if (!e) return -1;
    string raw; const char* c = (const char*)p;
    if (e->text) for (unsigned i = 0; i < n; ++i) { if (c[i] == '\n') raw += '\r'; raw += c[i]; } else raw.assign(c, n);
    if (e->append) k_seek((HANDLE)e->handle, 0, 2);
    u32 put = 0;
    if (!k_write((HANDLE)e->handle, raw.data(), u32(raw.size()), put)) { set_errno_(errno_from(get_last_error())); return -1; }
    return put == raw.size() ? int(n) : int(put);
}
API(int, _write, (int fd, const void* p, unsigned n)) { return sim_write(fd, p, n); }
API(intptr_t, _get_osfhandle, (int fd)) { KE k; FdEnt* e = fdent(fd); return e ? (intptr_t)e->handle : -1; }
API(int, _open_osfhandle, (intptr_t h, int flags)) { KE k; if (!handle_get((HANDLE)h)) { set_errno_(EBADF); return -1; } if (sim_fault("_open_osfhandle")) { set_errno_(EMFILE); return -1; } return fd_new((HANDLE)h, !!(flags & _O_TEXT), !!(flags & _O_APPEND)); }
API(int, _isatty, (int fd)) { KE k; FdEnt* e = fdent(fd); return e && k_type((HANDLE)e->handle) == FILE_TYPE_CHAR ? 64 : 0; }
API(int, _fstat64, (int fd, struct _stat64* st)) { KE k; FdEnt* e = fdent(fd); if (!e) return -1; return fs_stat_handle((HANDLE)e->handle, st) ? 0 : -1; }
API(int, _chsize_s, (int fd, __int64 size)) { KE k; FdEnt* e = fdent(fd); if (!e) return EBADF; i64 at = k_seek((HANDLE)e->handle, 0, 1); k_seek((HANDLE)e->handle, size, 0); bool ok = k_set_eof((HANDLE)e->handle); k_seek((HANDLE)e->handle, at, 0); return ok ? 0 : EACCES; }
API(__int64, _lseeki64, (int fd, __int64 off, int whence)) { KE k; FdEnt* e = fdent(fd); if (!e) return -1; return k_seek((HANDLE)e->handle, off, whence); }
API(int, _setmode, (int fd, int mode)) { KE k; FdEnt* e = fdent(fd); if (!e) return -1; int old = e->text ? _O_TEXT : _O_BINARY; e->text = mode != _O_BINARY; return old; }
API(int, _pipe, (int* fds, unsigned size, int mode))
{
    KE k; sim_point("_pipe");
    if (sim_fault("_pipe")) { set_errno_(EMFILE); fds[0] = fds[1] = -1; return -1; }
    HANDLE r, w; make_pipe(&r, &w, size);
    bool inh = !(mode & _O_NOINHERIT);
    the_proc()->handles[(u64)r].inherit = inh; the_proc()->handles[(u64)w].inherit = inh;
    fds[0] = fd_new(r, !(mode & _O_BINARY), false);
    fds[1] = fd_new(w, !(mode & _O_BINARY), false);
    return 0;
}
API(int, _getch, ()) { KE k; auto& in = con().input; sim_block("_getch", [] { return !con().input.empty(); }, FOREVER); INPUT_RECORD r = in.front(); in.pop_front(); return r.Event.KeyEvent.uChar.AsciiChar; }

//------------------------------------------------------------------------------
// Child processes.
extern "C" BOOL sim_CreateProcessW(LPCWSTR, LPWSTR, LPSECURITY_ATTRIBUTES, LPSECURITY_ATTRIBUTES, BOOL, DWORD, LPVOID, LPCWSTR, LPSTARTUPINFOW, LPPROCESS_INFORMATION);
extern "C" intptr_t sim__cwait(int*, intptr_t, int);
static FILE* popen_(const ws& cmd, const char* mode)
{
    bool rd = strchr(mode, 'r') != nullptr;
    HANDLE r, w; 
    if (sim_fault("_popen")) { set_errno_(EMFILE); return nullptr; }
    make_pipe(&r, &w, 1024);
    Proc* p = the_proc();
    p->handles[(u64)(rd ? w : r)].inherit = true;
    STARTUPINFOW si = { sizeof si }; si.dwFlags = STARTF_USESTDHANDLES;
    si.hStdInput = rd ? (HANDLE)p->std_handles[0] : r; si.hStdOutput = rd ? w : (HANDLE)p->std_handles[1]; si.hStdError = (HANDLE)p->std_handles[2];
    PROCESS_INFORMATION pi;
    ws c = L"cmd.exe /c " + cmd;
    BOOL ok = sim_CreateProcessW(nullptr, &c[0], nullptr, nullptr, TRUE, 0, nullptr, nullptr, &si, &pi);
    handle_close(p, rd ? w : r);
    if (!ok) { handle_close(p, rd ? r : w); set_errno_(ENOENT); return nullptr; }
    handle_close(p, pi.hThread);
    SimFile* f = alloc_file(p);
    f->fd = fd_new(rd ? r : w, !strchr(mode, 'b'), false); f->rd = rd; f->wr = !rd; f->child = pi.hProcess;
    p->files.insert(f);
    return (FILE*)f;
}
API(FILE*, _popen, (const char* cmd, const char* mode)) { KE k; return popen_(widen(cmd), mode); }
API(FILE*, _wpopen, (const wchar_t* cmd, const wchar_t* mode)) { KE k; return popen_(cmd, narrow(mode).c_str()); }
API(int, _pclose, (FILE* fp))
{
    KE k; SimFile* f = get(fp);
    fd_flush_raw(f);
    HANDLE ch = f->child; int fd = f->fd;
    release(f); fd_close(fd);
    int st = -1;
    if (ch) sim__cwait(&st, (intptr_t)ch, 0);
    return st;
}
static int system_(const ws& cmd)
{
    stdio_flush_all(the_proc());
    STARTUPINFOW si = { sizeof si }; PROCESS_INFORMATION pi;
    ws c = L"cmd.exe /c " + cmd;
    if (!sim_CreateProcessW(nullptr, &c[0], nullptr, nullptr, TRUE, 0, nullptr, nullptr, &si, &pi)) { set_errno_(ENOENT); return -1; }
    handle_close(the_proc(), pi.hThread);
    int st = -1; sim__cwait(&st, (intptr_t)pi.hProcess, 0);
    return st;
}
API(int, system, (const char* c)) { KE k; return c ? system_(widen(c)) : 1; }
API(int, _wsystem, (const wchar_t* c)) { KE k; return c ? system_(c) : 1; }

//------------------------------------------------------------------------------
//------------------------------------------------------------------------------
void stdio_flush_all(Proc* p)
{
    std::vector<SimFile*> l;
    for (void* f : p->files) l.push_back((SimFile*)f);
    for (int i = 0; i < 3; ++i) { auto s = s_stdmap ? s_stdmap->find({ p, i }) : std::map<std::pair<Proc*, int>, SimFile*>::iterator(); if (s_stdmap && s != s_stdmap->end()) l.push_back(s->second); }
    for (SimFile* f : l) if (!f->wbuf.empty()) fd_flush_raw(f);
}
void stdio_proc_exit(Proc* p, bool crashed)
{
    // A normal exit has flushed the streams (exit()); a killed process loses them.
    if (!crashed && in_sim() && g_sim->cur->proc == p && !p->native) stdio_flush_all(p);
    std::vector<SimFile*> l;
    for (void* f : p->files) l.push_back((SimFile*)f);
    for (SimFile* f : l) { f->clear(); }
    p->files.clear();
    if (s_stdmap) for (int i = 0; i < 3; ++i) { auto s = s_stdmap->find({ p, i }); if (s != s_stdmap->end()) { s->second->clear(); s_stdmap->erase(s); } }
}
void stdio_reset()
{
    files();
    for (int i = 0; i < NF; ++i) if (s_files[i].used) s_files[i].clear();
    s_stdmap->clear();
    s_tmp = 0;
}
