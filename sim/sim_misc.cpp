// Simulated registry, clipboard and the remaining bits of Win32.
#include "sim.h"
#include "sim_int.h"
#include "sim_kern.h"
#include <errno.h>
#include <string.h>
#include <shlobj.h>
#include <tlhelp32.h>
#include <algorithm>

typedef std::wstring ws;
static ws lower(const ws& s) { ws r = s; for (auto& c : r) if (c >= 'A' && c <= 'Z') c += 32; return r; }

//------------------------------------------------------------------------------
// Console aliases (doskey).
static std::map<ws, std::pair<ws, ws>>& aliases(const wchar_t* exe) { return con().alias2[lower(exe)]; }
API(BOOL, AddConsoleAliasW, (LPWSTR src, LPWSTR tgt, LPWSTR exe))
{
    KE k; sim_point("AddConsoleAlias");
    auto& a = aliases(exe);
    if (!tgt || !*tgt) { a.erase(lower(src)); return TRUE; }
    a[lower(src)] = { src, tgt };
    return TRUE;
}
API(DWORD, GetConsoleAliasW, (LPWSTR src, LPWSTR b, DWORD n, LPWSTR exe))
{
    KE k; sim_point("GetConsoleAlias");
    auto& a = aliases(exe); auto i = a.find(lower(src));
    if (i == a.end()) { set_last_error(ERROR_GEN_FAILURE); return 0; }
    size_t need = (i->second.second.size() + 1) * 2;
    if (need > n) { set_last_error(ERROR_INSUFFICIENT_BUFFER); return 0; }
    memcpy(b, i->second.second.c_str(), need);
    return DWORD(need);
}
API(DWORD, GetConsoleAliasesLengthW, (LPWSTR exe)) { KE k; sim_point("GetConsoleAliases"); size_t n = 0; for (auto& i : aliases(exe)) n += (i.second.first.size() + i.second.second.size() + 2) * 2; return DWORD(n); }
API(DWORD, GetConsoleAliasesW, (LPWSTR b, DWORD n, LPWSTR exe))
{
    KE k; sim_point("GetConsoleAliases"); ws s; for (auto& i : aliases(exe)) { s += i.second.first + L"=" + i.second.second; s += L'\0'; }
    if (s.size() * 2 > n) { set_last_error(ERROR_BUFFER_OVERFLOW); return 0; }
    memcpy(b, s.data(), s.size() * 2); return DWORD(s.size() * 2);
}

//------------------------------------------------------------------------------
// Registry.
struct RegObj : KObj { ws key; RegObj() : KObj("regkey") {} };
static bool reg_base(HKEY k, ws& out)
{
    u64 v = (u64)k & 0xffffffff;
    if (v == 0x80000001) { out = L"hku\\s-1-5-21-1001"; return true; }
    if (v == 0x80000003) { out = L"hku"; return true; }
    if (v == 0x80000002) { out = L"hklm"; return true; }
    if (v == 0x80000000) { out = L"hkcr"; return true; }
    if (v >= 0x80000004 && v < 0x80000010) { out = L"hk?"; return true; }
    KObj* o = handle_get((HANDLE)k);
    if (!o || strcmp(o->type, "regkey")) return false;
    out = ((RegObj*)o)->key; return true;
}
static ws reg_path(const ws& base, const wchar_t* sub, REGSAM sam)
{
    ws r = base; if (sub && *sub) { r += L"\\"; r += lower(sub); } while (!r.empty() && r.back() == '\\') r.pop_back();
    // The 32 bit view of HKLM\Software.
    if ((sam & KEY_WOW64_32KEY) && !r.compare(0, 13, L"hklm\\software") && r.compare(0, 25, L"hklm\\software\\wow6432node")) r.insert(13, L"\\wow6432node");
    return r;
}
API(LSTATUS, RegOpenKeyExW, (HKEY k0, LPCWSTR sub, DWORD, REGSAM sam, PHKEY out))
{
    KE k; sim_point("RegOpenKey"); ws b; if (!reg_base(k0, b)) return ERROR_INVALID_HANDLE;
    if (sim_fault("RegOpenKey")) return ERROR_ACCESS_DENIED;
    ws p = reg_path(b, sub, sam);
    if ((sam & KEY_SET_VALUE) && !registry().deny.empty() && !p.compare(0, registry().deny.size(), registry().deny)) return ERROR_ACCESS_DENIED;
    if (!registry().keys.count(p)) return ERROR_FILE_NOT_FOUND;
    RegObj* o = new RegObj; o->key = p; *out = (HKEY)handle_new(the_proc(), o); return 0;
}
API(LSTATUS, RegOpenKeyExA, (HKEY k0, LPCSTR sub, DWORD a, REGSAM s, PHKEY out)) { KE k; return sim_RegOpenKeyExW(k0, sub ? widen(sub).c_str() : nullptr, a, s, out); }
API(LSTATUS, RegCreateKeyExW, (HKEY k0, LPCWSTR sub, DWORD, LPWSTR, DWORD, REGSAM sam, const SECURITY_ATTRIBUTES*, PHKEY out, LPDWORD disp))
{
    KE k; sim_point("RegCreateKey"); ws b; if (!reg_base(k0, b)) return ERROR_INVALID_HANDLE;
    if (sim_fault("RegCreateKey")) return ERROR_ACCESS_DENIED;
    ws p = reg_path(b, sub, sam);
    if ((sam & KEY_SET_VALUE) && !registry().deny.empty() && !p.compare(0, registry().deny.size(), registry().deny)) return ERROR_ACCESS_DENIED;
    if (disp) *disp = registry().keys.count(p) ? REG_OPENED_EXISTING_KEY : REG_CREATED_NEW_KEY;
    for (size_t i = p.find(L'\\'); i != ws::npos; i = p.find(L'\\', i + 1)) registry().keys[p.substr(0, i)];
    registry().keys[p];
    RegObj* o = new RegObj; o->key = p; *out = (HKEY)handle_new(the_proc(), o); return 0;
}
API(LSTATUS, RegCloseKey, (HKEY h)) { KE k; ws b; if (((u64)h & 0xffffffff) >= 0x80000000) return 0; return handle_close(the_proc(), (HANDLE)h) ? 0 : ERROR_INVALID_HANDLE; }
API(LSTATUS, RegQueryValueExW, (HKEY h, LPCWSTR name, LPDWORD, LPDWORD type, LPBYTE data, LPDWORD size))
{
    KE k; sim_point("RegQueryValue"); ws b; if (!reg_base(h, b)) return ERROR_INVALID_HANDLE;
    if (int f = sim_fault("RegQueryValue")) return f == 1 ? ERROR_ACCESS_DENIED : f;
    auto ki = registry().keys.find(b); if (ki == registry().keys.end()) return ERROR_FILE_NOT_FOUND;
    auto i = ki->second.values.find(lower(name ? name : L"")); if (i == ki->second.values.end()) return ERROR_FILE_NOT_FOUND;
    if (type) *type = i->second.first;
    DWORD need = DWORD(i->second.second.size());
    LSTATUS r = 0;
    if (data) { if (size && *size < need) r = ERROR_MORE_DATA; else memcpy(data, i->second.second.data(), need); }
    if (size) *size = need;
    return r;
}
API(LSTATUS, RegQueryValueExA, (HKEY h, LPCSTR name, LPDWORD r, LPDWORD type, LPBYTE data, LPDWORD size))
{
    KE k; DWORD t = 0, n = 0;
    LSTATUS s = sim_RegQueryValueExW(h, name ? widen(name).c_str() : nullptr, nullptr, &t, nullptr, &n); if (s) return s;
    string raw(n, 0); DWORD n2 = n; s = sim_RegQueryValueExW(h, name ? widen(name).c_str() : nullptr, nullptr, &t, (LPBYTE)&raw[0], &n2); if (s) return s;
    if (t == REG_SZ || t == REG_EXPAND_SZ) { ws w((const wchar_t*)raw.data(), raw.size() / 2); while (!w.empty() && !w.back()) w.pop_back(); raw = narrow(w); raw += '\0'; }
    if (type) *type = t;
    DWORD need = DWORD(raw.size()); s = 0;
    if (data) { if (size && *size < need) s = ERROR_MORE_DATA; else memcpy(data, raw.data(), need); }
    if (size) *size = need;
    return s;
}
API(LSTATUS, RegSetValueExW, (HKEY h, LPCWSTR name, DWORD, DWORD type, const BYTE* data, DWORD n))
{
    KE k; sim_point("RegSetValue"); ws b; if (!reg_base(h, b)) return ERROR_INVALID_HANDLE;
    if (sim_fault("RegSetValue")) return ERROR_ACCESS_DENIED;
    registry().keys[b].values[lower(name ? name : L"")] = { type, string((const char*)data, n) };
    return 0;
}
API(LSTATUS, RegDeleteValueW, (HKEY h, LPCWSTR name))
{
    KE k; sim_point("RegDeleteValue"); ws b; if (!reg_base(h, b)) return ERROR_INVALID_HANDLE;
    if (sim_fault("RegDeleteValue")) return ERROR_ACCESS_DENIED;
    return registry().keys[b].values.erase(lower(name ? name : L"")) ? 0 : ERROR_FILE_NOT_FOUND;
}
API(LSTATUS, RegEnumKeyExW, (HKEY h, DWORD index, LPWSTR name, LPDWORD n, LPDWORD, LPWSTR, LPDWORD, PFILETIME))
{
    KE k; ws b; if (!reg_base(h, b)) return ERROR_INVALID_HANDLE;
    for (auto& i : registry().keys)
    {
        if (i.first.compare(0, b.size() + 1, b + L"\\") || i.first.find(L'\\', b.size() + 1) != ws::npos) continue;
        if (index--) continue;
        ws s = i.first.substr(b.size() + 1); if (*n <= s.size()) return ERROR_MORE_DATA; wcscpy(name, s.c_str()); *n = DWORD(s.size()); return 0;
    }
    return ERROR_NO_MORE_ITEMS;
}
API(LSTATUS, RegGetValueW, (HKEY h, LPCWSTR sub, LPCWSTR name, DWORD flags, LPDWORD type, PVOID data, LPDWORD size))
{
    KE k; HKEY x; LSTATUS s = sim_RegOpenKeyExW(h, sub, 0, 0, &x); if (s) return s;
    DWORD t = 0, n = 0; string raw;
    s = sim_RegQueryValueExW(x, name, nullptr, &t, nullptr, &n);
    if (!s && n) { raw.resize(n); s = sim_RegQueryValueExW(x, name, nullptr, &t, (LPBYTE)&raw[0], &n); }
    sim_RegCloseKey(x); if (s) return s;
    if ((flags & 0xffff) != 0xffff) // (RRF_RT_ANY.)
    {
        static const DWORD of[] = { RRF_RT_REG_NONE, RRF_RT_REG_SZ, RRF_RT_REG_EXPAND_SZ, RRF_RT_REG_BINARY, RRF_RT_REG_DWORD };
        DWORD tt = t == REG_EXPAND_SZ && !(flags & RRF_NOEXPAND) ? REG_SZ : t;
        if (tt > 4 || !(flags & of[tt])) return ERROR_UNSUPPORTED_TYPE;
        t = tt;
    }
    // Strings are always terminated.
    if ((t == REG_SZ || t == REG_EXPAND_SZ) && (raw.size() < 2 || raw[raw.size() - 1] || raw[raw.size() - 2])) raw.append(2, '\0');
    if (type) *type = t;
    LSTATUS r = 0;
    if (data) { if (size && *size < raw.size()) r = ERROR_MORE_DATA; else memcpy(data, raw.data(), raw.size()); }
    if (size) *size = DWORD(raw.size());
    return r;
}
API(LSTATUS, RegGetValueA, (HKEY h, LPCSTR sub, LPCSTR name, DWORD, LPDWORD type, PVOID data, LPDWORD size))
{
    KE k; HKEY x; LSTATUS s = sim_RegOpenKeyExA(h, sub, 0, 0, &x); if (s) return s;
    s = sim_RegQueryValueExA(x, name, nullptr, type, (LPBYTE)data, size); sim_RegCloseKey(x); return s;
}

//------------------------------------------------------------------------------
// Modules, folders.
static ws module_path() { return L"C:\\clink\\clink_x64.exe"; }
API(DWORD, GetModuleFileNameW, (HMODULE m, LPWSTR b, DWORD n)) { KE k; ws p = module_path(); if (n <= p.size()) { set_last_error(ERROR_INSUFFICIENT_BUFFER); return n; } wcscpy(b, p.c_str()); return DWORD(p.size()); }
API(DWORD, GetModuleFileNameA, (HMODULE m, LPSTR b, DWORD n)) { KE k; string p = narrow(module_path()); if (n <= p.size()) { set_last_error(ERROR_INSUFFICIENT_BUFFER); return n; } strcpy(b, p.c_str()); return DWORD(p.size()); }
API(HRESULT, SHGetFolderPathW, (HWND, int csidl, HANDLE, DWORD, LPWSTR b)) { KE k; wcscpy(b, (csidl & 0xff) == CSIDL_LOCAL_APPDATA ? L"C:\\users\\sim\\AppData\\Local" : L"C:\\users\\sim"); return S_OK; }
API(BOOL, OpenProcessToken, (HANDLE, DWORD, PHANDLE)) { set_last_error(ERROR_ACCESS_DENIED); return FALSE; }
API(BOOL, OpenThreadToken, (HANDLE, DWORD, BOOL, PHANDLE)) { set_last_error(ERROR_NO_TOKEN); return FALSE; }
API(BOOL, GetTokenInformation, (HANDLE, int, LPVOID, DWORD, PDWORD)) { return FALSE; }
API(BOOL, IsWow64Process, (HANDLE, PBOOL b)) { *b = FALSE; return TRUE; }
API(BOOL, GetSystemPowerStatus, (LPSYSTEM_POWER_STATUS s)) { memset(s, 0, sizeof *s); s->ACLineStatus = 1; return TRUE; }
API(BOOL, NeedCurrentDirectoryForExePathW, (LPCWSTR)) { return TRUE; }
API(HRESULT, AssocQueryStringW, (DWORD, DWORD, LPCWSTR, LPCWSTR, LPWSTR, DWORD*)) { return E_FAIL; }

//------------------------------------------------------------------------------
// Functions looked up by name.  Those that would reach the real system are either
// simulated or reported as missing; pure functions come from the real system.
static LONG NTAPI nt_query_process(HANDLE h, ULONG cls, PVOID info, ULONG n, PULONG size)
{
    KE k;
    if (cls == 0 && n >= 6 * sizeof(ULONG_PTR)) { memset(info, 0, n); ULONG_PTR* p = (ULONG_PTR*)info; p[4] = the_proc()->pid; p[5] = 4; if (size) *size = n; return 0; }
    return 0xC0000002L;
}
static BOOL WINAPI enum_processes(DWORD* ids, DWORD cb, LPDWORD needed)
{
    KE k; DWORD n = 0;
    if (g_sim) for (Proc* p : g_sim->procs) if (p->alive && (n + 1) * 4 <= cb) ids[n++] = p->pid;
    *needed = n * 4; return TRUE;
}
static BOOL WINAPI enum_modules(HANDLE, HMODULE*, DWORD, LPDWORD n) { *n = 0; set_last_error(ERROR_PARTIAL_COPY); return FALSE; }
static DWORD WINAPI module_file_name_ex(HANDLE, HMODULE, LPWSTR b, DWORD n) { KE k; ws p = module_path(); if (n <= p.size()) return 0; wcscpy(b, p.c_str()); return DWORD(p.size()); }
FARPROC proc_by_name(HMODULE m, const string& n)
{
    if (n == "NtQueryInformationProcess") return (FARPROC)nt_query_process;
    if (n == "EnumProcesses") return (FARPROC)enum_processes;
    if (n == "EnumProcessModules") return (FARPROC)enum_modules;
    if (n == "GetModuleFileNameExW") return (FARPROC)module_file_name_ex;
    static const char* const pure[] = { "NormalizeString", "IsNormalizedString", "VariantInit", "SysAllocString", "SysFreeString", "VerQueryValueW" };
    for (auto x : pure) if (n == x) return GetProcAddress(m, x);
    set_last_error(ERROR_PROC_NOT_FOUND);
    return nullptr;
}

//------------------------------------------------------------------------------
// Clipboard.
static ws s_clip; static bool s_clip_open; static u64 s_clip_reads;
API(BOOL, OpenClipboard, (HWND)) { KE k; if (s_clip_open || sim_fault("OpenClipboard")) { set_last_error(ERROR_ACCESS_DENIED); return FALSE; } s_clip_open = true; return TRUE; }
API(BOOL, CloseClipboard, ()) { s_clip_open = false; return TRUE; }
API(BOOL, EmptyClipboard, ()) { s_clip.clear(); return TRUE; }
API(HANDLE, GetClipboardData, (UINT)) { KE k; sim_point("GetClipboardData"); ++s_clip_reads; if (!s_clip_open || s_clip.empty()) return nullptr; return (HANDLE)s_clip.c_str(); }
API(HANDLE, SetClipboardData, (UINT, HANDLE h)) { KE k; if (wchar_t* p = (wchar_t*)GlobalLock(h)) { s_clip = p; GlobalUnlock(h); } GlobalFree(h); return h; }
u64 clipboard_reads() { return s_clip_reads; }
ws& clipboard() { return s_clip; }
void clipboard_reset() { s_clip.clear(); s_clip_open = false; }

//------------------------------------------------------------------------------
// Other processes: not reachable from here.
API(HANDLE, OpenThread, (DWORD, BOOL, DWORD)) { set_last_error(ERROR_ACCESS_DENIED); return nullptr; }
API(HANDLE, CreateRemoteThread, (HANDLE, LPSECURITY_ATTRIBUTES, SIZE_T, LPTHREAD_START_ROUTINE, LPVOID, DWORD, LPDWORD)) { set_last_error(ERROR_ACCESS_DENIED); return nullptr; }
API(LPVOID, VirtualAllocEx, (HANDLE, LPVOID, SIZE_T, DWORD, DWORD)) { set_last_error(ERROR_ACCESS_DENIED); return nullptr; }
API(BOOL, VirtualFreeEx, (HANDLE, LPVOID, SIZE_T, DWORD)) { return FALSE; }
// A process can access its own memory.
static bool own(HANDLE h) { if (h == (HANDLE)-1) return true; KObj* o = handle_get(h); if (o && o == the_proc()->obj) return true; set_last_error(ERROR_ACCESS_DENIED); return false; }
API(BOOL, VirtualProtectEx, (HANDLE h, LPVOID p, SIZE_T n, DWORD f, PDWORD old)) { KE k; if (!own(h)) return FALSE; *old = PAGE_READWRITE; return TRUE; }
API(SIZE_T, VirtualQueryEx, (HANDLE h, LPCVOID p, PMEMORY_BASIC_INFORMATION i, SIZE_T n)) { KE k; if (!own(h)) return 0; return VirtualQuery(p, i, n); }
API(BOOL, ReadProcessMemory, (HANDLE h, LPCVOID p, LPVOID to, SIZE_T n, SIZE_T* got)) { KE k; if (!own(h)) return FALSE; memcpy(to, p, n); if (got) *got = n; return TRUE; }
API(BOOL, WriteProcessMemory, (HANDLE h, LPVOID to, LPCVOID p, SIZE_T n, SIZE_T* put)) { KE k; if (!own(h)) return FALSE; memcpy(to, p, n); if (put) *put = n; return TRUE; }
API(HANDLE, CreateToolhelp32Snapshot, (DWORD, DWORD)) { set_last_error(ERROR_ACCESS_DENIED); return INVALID_HANDLE_VALUE; }
API(BOOL, FlushInstructionCache, (HANDLE, LPCVOID, SIZE_T)) { return TRUE; }
API(HINSTANCE, ShellExecuteA, (HWND, LPCSTR, LPCSTR, LPCSTR, LPCSTR, INT)) { return (HINSTANCE)2; }

//------------------------------------------------------------------------------
// The C library's UTF-8 locale (which msvcrt.dll doesn't have, but the UCRT does).
static size_t utf8_char(u32* out, const char* p, size_t n)
{
    if (!n) return size_t(-2);
    const unsigned char* s = (const unsigned char*)p;
    u32 c = s[0]; size_t len = c < 0x80 ? 1 : c >= 0xc2 && c < 0xe0 ? 2 : c >= 0xe0 && c < 0xf0 ? 3 : c >= 0xf0 && c < 0xf5 ? 4 : 0;
    if (!len) return size_t(-1);
    u32 v = len == 1 ? c : c & (0x7f >> len);
    for (size_t i = 1; i < len; ++i)
    {
        if (i >= n) return size_t(-2);
        if ((s[i] & 0xc0) != 0x80) return size_t(-1);
        v = v << 6 | (s[i] & 0x3f);
    }
    if ((len == 3 && (v < 0x800 || (v >= 0xd800 && v < 0xe000))) || (len == 4 && (v < 0x10000 || v > 0x10ffff))) return size_t(-1);
    if (out) *out = v;
    return v ? len : 0;
}
API(char*, setlocale, (int cat, const char* name)) { return (char*)(name && strcmp(name, ".utf8") && *name && strcmp(name, "en_US.utf8") ? nullptr : "en_US.utf8"); }
API(int, ___mb_cur_max_func, ()) { return 4; }
API(size_t, mbrtoc32, (char32_t* out, const char* s, size_t n, mbstate_t*)) { u32 v; if (!s) return 0; size_t r = utf8_char(&v, s, n); if (out && r != size_t(-1) && r != size_t(-2)) *out = char32_t(v); return r; }
API(size_t, mbrtowc, (wchar_t* out, const char* s, size_t n, mbstate_t*)) { u32 v; if (!s) return 0; size_t r = utf8_char(&v, s, n); if (out && r != size_t(-1) && r != size_t(-2)) *out = wchar_t(v > 0xffff ? 0xfffd : v); return r; }
API(size_t, mbrlen, (const char* s, size_t n, mbstate_t*)) { return s ? utf8_char(nullptr, s, n) : 0; }
API(size_t, c32rtomb, (char* s, char32_t c, mbstate_t*))
{
    char t[4]; if (!s) { s = t; c = 0; }
    if (c < 0x80) { s[0] = char(c); return 1; }
    if (c < 0x800) { s[0] = char(0xc0 | c >> 6); s[1] = char(0x80 | (c & 63)); return 2; }
    if (c >= 0x110000 || (c >= 0xd800 && c < 0xe000)) { errno = EILSEQ; return size_t(-1); }
    if (c < 0x10000) { s[0] = char(0xe0 | c >> 12); s[1] = char(0x80 | (c >> 6 & 63)); s[2] = char(0x80 | (c & 63)); return 3; }
    s[0] = char(0xf0 | c >> 18); s[1] = char(0x80 | (c >> 12 & 63)); s[2] = char(0x80 | (c >> 6 & 63)); s[3] = char(0x80 | (c & 63)); return 4;
}

// Windows 11.
API(BOOL, GetVersionExA, (LPOSVERSIONINFOA v)) { v->dwMajorVersion = 10; v->dwMinorVersion = 0; v->dwBuildNumber = 22631; v->dwPlatformId = VER_PLATFORM_WIN32_NT; v->szCSDVersion[0] = 0; return TRUE; }
API(BOOL, GetVersionExW, (LPOSVERSIONINFOW v)) { v->dwMajorVersion = 10; v->dwMinorVersion = 0; v->dwBuildNumber = 22631; v->dwPlatformId = VER_PLATFORM_WIN32_NT; v->szCSDVersion[0] = 0; return TRUE; }
