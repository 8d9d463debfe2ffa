// Interactive sessions: the real host (hooks, editor, scripts, history) inside a simulated
// cmd.exe, on a simulated console, with a simulated person typing.
#include "sc_common.h"
#include "host/host_cmd.h"
#include "utils/app_context.h"
#include <lib/history_db.h>
INT_PTR WINAPI initialise_clink(const app_context::desc& app_desc);
extern "C" DWORD WINAPI sim_GetEnvironmentVariableW(LPCWSTR, LPWSTR, DWORD);

namespace {

//------------------------------------------------------------------------------
// What clink sees as the image of cmd.exe: an import table with the functions that it hooks.
enum { F_READ, F_WRITE, F_SETENV, F_SETSTRS, F_GETENV, F_TITLE, F_COUNT };
const char* const F_NAMES[] = { "ReadConsoleW", "WriteConsoleW", "SetEnvironmentVariableW", "SetEnvironmentStringsW", "GetEnvironmentVariableW", "SetConsoleTitleW" };
alignas(4096) BYTE s_exe[4096] = { 1 };
void* (&slot(int i)) { return ((void**)(s_exe + 0x800))[i]; }
void make_exe()
{
    memset(s_exe, 0, sizeof s_exe);
    auto* d = (IMAGE_DOS_HEADER*)s_exe; d->e_magic = IMAGE_DOS_SIGNATURE; d->e_lfanew = 0x80;
    auto* n = (IMAGE_NT_HEADERS*)(s_exe + 0x80); n->Signature = IMAGE_NT_SIGNATURE;
    n->OptionalHeader.SizeOfImage = sizeof s_exe; n->OptionalHeader.NumberOfRvaAndSizes = 16;
    n->OptionalHeader.DataDirectory[1] = { 0x400, 40 };
    auto* i = (IMAGE_IMPORT_DESCRIPTOR*)(s_exe + 0x400); i->Name = 0x500; i->OriginalFirstThunk = 0x600; i->FirstThunk = 0x800;
    strcpy((char*)s_exe + 0x500, "KERNEL32.dll");
    void* f[] = { (void*)ReadConsoleW, (void*)WriteConsoleW, (void*)SetEnvironmentVariableW, (void*)SetEnvironmentStringsW, (void*)GetEnvironmentVariableW, (void*)SetConsoleTitleW };
    for (int k = 0; k < F_COUNT; ++k)
    {
        ((uintptr_t*)(s_exe + 0x600))[k] = 0xa00 + k * 0x40;
        strcpy((char*)s_exe + 0xa00 + k * 0x40 + 2, F_NAMES[k]);
        slot(k) = f[k];
    }
    cur_proc()->exe = s_exe;
}

//------------------------------------------------------------------------------
// cmd.exe.  Host-side state.
// The directories of sessions that change them; what `cd` is to change to.
const char* const DIRS[] = { "C:\\work", "C:\\work\\alpha", "C:\\work\\alpha\\beta", "C:\\work\\my dir", "C:\\work\\my dir\\in", "C:\\work\\\xc3\xa9t\xc3\xa9", "C:\\top", "C:\\top\\low", "C:\\work\\dir", "C:\\work\\a+b", "C:\\", "D:\\", "D:\\data", "D:\\data\\x", "C:\\work\\scripts", "C:\\temp", "C:\\prof" };
string full_of(const string& cwd, string p)
{
    for (auto& c : p) if (c == '/') c = '\\';
    if (p.size() >= 2 && p[1] == ':') { if (p.size() == 2 || p[2] != '\\') p = tolower(cwd[0]) == tolower(p[0]) ? cwd + "\\" + p.substr(2) : p.substr(0, 2) + "\\" + p.substr(2); }
    else if (!p.empty() && p[0] == '\\' && (p.size() < 2 || p[1] != '\\')) p = cwd.substr(0, 2) + p;
    else if (!p.empty() && p[0] == '\\') return "";
    else p = cwd + "\\" + p;
    std::vector<string> c; string e;
    for (size_t i = 3; i <= p.size(); ++i)
    {
        if (i < p.size() && p[i] != '\\') { e += p[i]; continue; }
        if (e == "..") { if (!c.empty()) c.pop_back(); }
        else if (!e.empty() && e != ".") { while (e.size() > 1 && (e.back() == ' ' || e.back() == '.')) e.pop_back(); c.push_back(e); }
        e.clear();
    }
    string r = p.substr(0, 2) + "\\"; for (size_t k = 0; k < c.size(); ++k) { if (k) r += "\\"; r += c[k]; }
    return r;
}
string dir_of(const string& cwd, const string& p) { string f = full_of(cwd, p); for (auto d : DIRS) if (!_stricmp(d, f.c_str())) return d; return ""; }
string cd_arg(string a, bool& d) { d = !_strnicmp(a.c_str(), "/d", 2); if (d) a = a.substr(2); string r; for (char c : a) if (c != '"') r += c; size_t b = r.find_first_not_of(" \t"); if (b == string::npos) return ""; r = r.substr(b); while (!r.empty() && (r.back() == ' ' || r.back() == '\t')) r.pop_back(); return r; }
bool is_drive(const string& v) { return v.size() == 2 && v[1] == ':' && isalpha((unsigned char)v[0]); }

struct Shell
{
    std::map<char, string> drives; std::vector<string> cwds;
    string profile; int con = 0; Proc* p = nullptr;
    // Waiting for something, and not for its turn.
    bool quiet() const { if (!p) return false; for (auto* t : p->threads) if (!t->done && !(t->blocked && t->stall_until <= g_sim->now)) return false; return true; }
    int errorlevel = 0;
    bool done = false, executing = false, reading = false, ctrl_c = false;
    std::vector<string> lines, asked, all;
    int prompts = 0;
    // What should have appeared on the screen: text, 'L' = the next line read, 'A' = the next answer read.
    struct Seg { char kind; string text; };
    std::vector<Seg> tr; string pending_prompt;
    void text(const string& t) { if (tr.empty() || tr.back().kind) tr.push_back({ 0, t }); else tr.back().text += t; }
};

//------------------------------------------------------------------------------
// Reference model of a session: what the typed keys mean, regardless of when they are typed.
typedef std::u32string us;
us to32(const string& s) { us r; for (size_t i = 0; i < s.size();) { unsigned char c = s[i]; int n = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4; u32 v = n == 1 ? c : c & (0x7f >> n); for (int k = 1; k < n && i + k < s.size(); ++k) v = v << 6 | (s[i + k] & 0x3f); r += char32_t(v); i += n; } return r; }
string to8(const us& s) { string r; for (u32 c : s) { if (c < 0x80) r += char(c); else if (c < 0x800) { r += char(0xc0 | c >> 6); r += char(0x80 | (c & 63)); } else if (c < 0x10000) { r += char(0xe0 | c >> 12); r += char(0x80 | (c >> 6 & 63)); r += char(0x80 | (c & 63)); } else { r += char(0xf0 | c >> 18); r += char(0x80 | (c >> 12 & 63)); r += char(0x80 | (c >> 6 & 63)); r += char(0x80 | (c & 63)); } } return r; }
string trim(string s) { while (!s.empty() && isspace((unsigned char)s.back())) s.pop_back(); size_t a = 0; while (a < s.size() && isspace((unsigned char)s[a])) ++a; return s.substr(a); }
std::vector<string> commands(const string& line) { std::vector<string> v; string cur; bool q = false; for (char c : line) { if (c == '"') q = !q; if (c == '&' && !q) { v.push_back(cur); cur.clear(); } else cur += c; } v.push_back(cur); return v; }
string verb_of(const string& c) { string t = trim(c); size_t sp = t.find_first_of(" =/.\\\"("); string v = t.substr(0, sp); for (auto& x : v) x = char(tolower(x)); return v; }
string arg_of(const string& c) { string t = trim(c); size_t sp = t.find_first_of(" =/.\\\"("); return sp == string::npos ? "" : trim(t.substr(sp)); }

int level_of(const string& a) { return int(strtoll(a.c_str(), nullptr, 10)); }      // (Status codes beyond the range of int wrap.)

// What the scripts of a session decide about its lines (see hook_scripts).
struct Hooks
{
    bool on = false;
    std::vector<std::pair<string, string>> f, h;                // Filters; history handlers.
    std::map<int, string> p;                                    // What onprovideline provides, by the number of the call.
    std::vector<std::vector<string>> fn;                        // Functions bound to keys.
    int pcalls = 0, asks = 0;                                   // Number of asks by keys.
    std::map<int, std::pair<string, bool>> promised;            // What the terminal answers to query N, or that it won't.
    std::vector<string> log;
    void add(const string& t) { if (on) log.push_back(t); }
};
std::vector<string> split(const string& s, char sep) { std::vector<string> v(1); for (char c : s) if (c == sep) v.push_back(""); else v.back() += c; return v; }
string subst(const string& t, const string& rest) { string r; for (char c : t) if (c == '*') r += rest; else r += c; return r; }

struct Ed
{
    Hooks hooks;
    struct Line { string cmd; bool shown; string display; bool dir = false; string cwd; };    // What cmd.exe gets; what's on the screen.
    struct Q { us text; bool macro; };
    us buf; size_t cur = 0; bool killed = false;
    std::vector<us> ring; int kidx = 0; us yanked; bool can_pop = false; // Kill ring.
    int anchor = -1; bool over = false, plain = true, suggest = false; // Selection; overwrite mode; started empty and only edited since.
    std::deque<Q> queue; us partial; bool has_partial = false;
    std::vector<Line> lines; std::vector<std::pair<string, string>> asked; // Answer, display.
    std::deque<string> cont; int mode = 0;                      // 0 = editing, 1 = ask, 2 = yes/no.
    us cooked; bool done = false; int errorlevel = 0, exitcode = 0;
    std::vector<us> hist; int hpos = -1; us saved;
    std::map<string, string> macros;
    string clip; int paste = 3;                                 // delete, space, ampersand, crlf.
    bool space_ok = true; int dupe = 2;                         // history.ignore_space; add, ignore, erase_prev.
    bool noscreen = false;                                      // A macro changed directory: the prompt between its lines isn't filtered again.
    bool dirs = false; string cwd = "C:\\work"; std::vector<string> dirhist; std::map<char, string> drives; bool erase_dirs = false;
    bool nohist = false;                                        // The model no longer knows the history.

    void add_history(const us& l)
    {
        string t = to8(l); size_t a = t.find_first_not_of(" \t"); if (a == string::npos) a = t.size();
        for (const char* w : { "exit", "history" }) { size_t n = strlen(w); if (!_strnicmp(t.c_str() + a, w, n) && !isalnum((unsigned char)t[a + n]) && t[a + n] != '\\' && t[a + n] != '/') return; }
        for (size_t i = 0; i < hooks.h.size(); ++i)
        {
            auto& h = hooks.h[i]; hooks.add(strf("h%d|", int(i) + 1) + t);
            if (h.first == "cancel" && t.find(h.second) != string::npos) return;
            if (h.first == "error" && t.find(h.second) != string::npos) { t = to8(l); break; }
            if (h.first == "append" && t.compare(0, 4, "echo") == 0) t += h.second;
        }
        store(to32(t));
    }
    void store(const us& l)
    {
        if (l.empty()) return;
        if (space_ok && (l[0] == ' ' || l[0] == '\t')) return;
        if (dupe) for (size_t i = hist.size(); i-- > 0;) if (hist[i] == l) { if (dupe == 1) return; hist.erase(hist.begin() + i); }
        hist.push_back(l);
    }
    // doskey: $* and $T only.
    bool expand(const string& l, std::vector<string>& out)
    {
        size_t e = l.find(' '); string n = l.substr(0, e); for (auto& c : n) c = char(tolower(c));
        auto i = macros.find(n); if (i == macros.end()) return false;
        string rest = e == string::npos ? "" : l.substr(e); size_t a = rest.find_first_not_of(' '); rest = a == string::npos ? "" : rest.substr(a);
        out.assign(1, "");
        const string& t = i->second;
        for (size_t k = 0; k < t.size(); ++k)
            if (t[k] == '$' && k + 1 < t.size() && t[k + 1] == '*') { out.back() += rest; ++k; }
            else if (t[k] == '$' && k + 1 < t.size() && t[k + 1] == 'T') { out.push_back(""); ++k; }
            else out.back() += t[k];
        return true;
    }
    // Directory shortcuts.
    static bool prev_dir(const string& t, bool only_cd)
    {
        string s = trim(t), c = s;
        for (auto& x : c) x = char(tolower(x));
        size_t n = c.compare(0, 5, "chdir") == 0 ? 5 : c.compare(0, 2, "cd") == 0 ? 2 : 0;
        if (!n) return !only_cd && s == "-";
        bool space = false; size_t i = n; while (i < c.size() && (c[i] == ' ' || c[i] == '\t')) { space = true; ++i; }
        if (c.compare(i, 2, "/d") == 0) { space = false; i += 2; while (i < c.size() && (c[i] == ' ' || c[i] == '\t')) { space = true; ++i; } }
        return space && c.substr(i) == "-";
    }
    // A directory, and a separator; or dots.
    string shortcut(const string& t0)
    {
        string s = trim(t0), r; bool q = false, first = true, pct = false;
        for (size_t i = 0; i < s.size(); ++i)
        {
            char c = s[i];
            if (c == '<' || c == '|' || c == '>') return "";
            if (!q && strchr(" \t@()&+=;,", c)) return "";
            if (c == '"') { q = !q; first = false; continue; }
            if (c == '^') { first = false; if (!q && i + 1 < s.size()) continue; }
            if (c == '%') { first = false; pct = true; }
            if (first && strchr("./\\", c)) { for (auto n : { "call", "cd", "chdir", "dir", "echo", "md", "mkdir", "popd", "pushd" }) if (!_stricmp(n, r.c_str())) return ""; first = false; }
            r += c;
        }
        if (pct) { string l = r; for (auto& x : l) x = char(tolower(x)); size_t b = l.find("%sim_dir%"); if (b != string::npos) r.replace(b, 9, "C:\\top"); }
        if (r.empty()) return "";
        size_t dots = 0; while (dots < r.size() && r[dots] == '.') ++dots;
        auto sep = [](char c) { return c == '/' || c == '\\'; };
        if (dots >= 2 && (dots == r.size() || (dots + 1 == r.size() && sep(r[dots])))) { string x; for (size_t i = 1; i < dots; ++i) x += "..\\"; return dir_of(cwd, x); }
        bool chain = true; for (size_t i = 0; i < r.size(); ++i) if (i % 3 == 2 ? !sep(r[i]) : r[i] != '.') chain = false;
        if (!sep(r.back()) && !(chain && r.size() % 3 == 2)) return "";
        return dir_of(cwd, r);
    }
    void at_prompt()
    {
        if (erase_dirs) for (size_t i = dirhist.size(); i-- > 0;) if (!_stricmp(dirhist[i].c_str(), cwd.c_str())) dirhist.erase(dirhist.begin() + i);
        if (dirhist.empty() || _stricmp(dirhist.back().c_str(), cwd.c_str())) dirhist.push_back(cwd);
        if (dirhist.size() > 100) dirhist.erase(dirhist.begin());
    }
    void change(const string& d) { if (tolower(d[0]) != tolower(cwd[0])) drives[char(tolower(cwd[0]))] = cwd; cwd = d; }
    // What cmd.exe is to get for a line.
    std::vector<string> filter(const string& typed)
    {
        std::vector<string> r(1, typed); hooks.add("e|" + typed);
        for (size_t i = 0; i < hooks.f.size(); ++i)
        {
            auto& f = hooks.f[i]; string& t = r[0]; hooks.add(strf("f%d|", int(i) + 1) + t);
            if (f.first == "error" && t.find(f.second) != string::npos) { t = typed; break; }
            if (f.first == "append" && t.compare(0, 4, "echo") == 0) t += f.second;
            if (f.first == "stop" && t.find(f.second) != string::npos) { t += "S"; break; }
            if (f.first == "drop" && t.compare(0, 4, "drop") == 0) t.clear();
            if (f.first == "cdtable" && t.compare(0, 3, " cd") == 0) { r.push_back("echo after" + f.second); break; }
            if (f.first == "table" && t.compare(0, 5, "split") == 0) { string rest = t.substr(5); r.clear(); for (auto& x : split(f.second, '|')) if (x != "true") r.push_back(subst(x, rest)); break; }
        }
        return r;
    }
    void accept(const us& l, bool provided = false)
    {
        if (!provided) add_history(l);
        hpos = -1;
        string t = to8(l), t0 = t; bool cd = false;
        if (dirs && prev_dir(t, true) && !macros.count("cd")) { cd = true; t = dirhist.size() > 1 ? " cd \"" + dirhist[dirhist.size() - 2] + "\"" : ""; }
        std::vector<string> x = filter(t), all;
        for (auto& y : x) { std::vector<string> v; if ((cd && &y == &x[0]) || !expand(y, v)) v.assign(1, y); all.insert(all.end(), v.begin(), v.end()); }
        for (size_t i = all.size(); i-- > 1;) queue.push_front({ to32(all[i]), true });
        lines.push_back({ all[0], !provided, t0 });
        if (dirs)
        {
            if (all.size() > 1) noscreen = true;
            if (cd && x.size() > 0 && x[0] == t) { lines.back().dir = !t.empty(); if (!t.empty()) change(dirhist[dirhist.size() - 2]); cont.clear(); go(); return; }
            bool prev = !cd && prev_dir(all[0], false); string d = prev ? dirhist.size() > 1 ? dirhist[dirhist.size() - 2] : "" : shortcut(all[0]);
            if (prev || !d.empty()) { lines.back().dir = true; if (prev && d.empty()) { lines.back().dir = false; lines.back().cmd = ""; } else change(d); cont.clear(); go(); return; }
        }
        start(all[0]);
    }
    void start(const string& l) { cont.clear(); for (auto& c : commands(l)) cont.push_back(c); go(); }
    // Runs cmd.exe up to where it needs the keyboard.
    void go()
    {
        for (;;)
        {
            while (!cont.empty())
            {
                string c = cont.front(); cont.pop_front();
                string v = verb_of(c);
                if (v == "exit") { done = true; exitcode = atoi(arg_of(c).c_str()); if (!lines.empty()) lines.back().cwd = cwd; return; }
                if (v == "fail") errorlevel = level_of(arg_of(c));
                else if (v == "ok") errorlevel = 0;
                else if (v == "ask")
                {
                    if (!queue.empty()) { Q q = queue.front(); queue.pop_front(); string t = to8(q.text); asked.push_back({ trim(t), q.macro ? "" : t + "\r\n" }); continue; }
                    if (has_partial) { has_partial = false; string t = to8(partial); partial.clear(); asked.push_back({ trim(t), t + "\r\n" }); continue; }
                    mode = 1; cooked.clear(); return;
                }
                else if (v == "echo" || v == "set" || v == "wait" || v == "lines" || v == "title" || v.empty()) ;
                else if (v == "cd" || v == "chdir")
                {
                    if (!dirs) continue;
                    bool d; string a = cd_arg(arg_of(c), d); if (a.empty()) continue; string x = dir_of(cwd, a);
                    if (a.size() > 1 && a[1] == ':' && tolower(a[0]) != tolower(cwd[0]) && !d) { if (!x.empty()) drives[char(tolower(a[0]))] = x; continue; }
                    if (!x.empty()) cwd = x; else errorlevel = 1;
                }
                else if (dirs && is_drive(v)) { drives[char(tolower(cwd[0]))] = cwd; string& t = drives[v[0]]; if (t.empty()) t = string(1, char(toupper(v[0]))) + ":\\"; if (!dir_of(cwd, t).empty()) cwd = t; else errorlevel = 1; }
                else errorlevel = 9009;
            }
            if (!lines.empty()) lines.back().cwd = cwd;
            if (queue.empty() || !queue.front().macro) { hooks.add("b"); at_prompt(); }
            if (queue.empty())
            {
                if (!hooks.on || has_partial) break;
                hooks.add(strf("p%d", ++hooks.pcalls));
                if (!hooks.p.count(hooks.pcalls)) break;
                accept(to32(hooks.p[hooks.pcalls]), true); return;
            }
            Q q = queue.front(); queue.pop_front();
            if (!q.macro) { accept(q.text); return; }
            lines.push_back({ to8(q.text), false, "" });
            for (auto& c : commands(to8(q.text))) cont.push_back(c);
        }
        mode = 0; buf.clear(); if (has_partial) { buf = partial; has_partial = false; partial.clear(); }
        cur = buf.size(); killed = over = false; anchor = -1; plain = buf.empty();
    }
    static bool word(char32_t c) { return c < 128 && isalnum(int(c)); }
    void kill_range(size_t a, size_t b, bool forward)
    {
        if (a >= b) return;
        us t = buf.substr(a, b - a); buf.erase(a, b - a); cur = a;
        if (killed && !ring.empty()) ring.back() = forward ? ring.back() + t : t + ring.back();
        else { if (ring.size() == 10) ring.erase(ring.begin()); ring.push_back(t); }
        kidx = int(ring.size()) - 1;
    }
    size_t fword(size_t p) { while (p < buf.size() && !word(buf[p])) ++p; while (p < buf.size() && word(buf[p])) ++p; return p; }
    size_t bword(size_t p) { while (p && !word(buf[p - 1])) --p; while (p && word(buf[p - 1])) --p; return p; }
    // Returns false if the key must not be typed now.
    bool key(const string& k)
    {
        us was = buf; int h = hpos;
        bool kd = killed, cp = can_pop; int an = anchor;
        if (!type(k)) { killed = kd; can_pop = cp; anchor = an; return false; }
        if (h >= 0 && hpos == h && buf != was) hpos = -2; // Editing a recalled line: no more moving in the history.
        return true;
    }
    bool type(const string& k)
    {
        if (done) return false;
        if (mode)
        {
            if (k == "enter") { string t = to8(cooked); asked.push_back({ trim(t), t + "\r\n" }); mode = 0; go(); return true; }
            if (k == "back") { if (!cooked.empty()) cooked.pop_back(); return true; }
            us u = to32(k); if (u.size() != 1) return false;
            if (u[0] > 0xffff || con_width(u[0]) != 1) return false;
            cooked += u; return true;
        }
        bool was = killed, pop = can_pop; killed = can_pop = false; int sel = anchor; anchor = -1;
        if (suggest && cur == buf.size() && (k == "right" || k == "c-f" || k == "end" || k == "c-e" || k == "m-f" || k == "c-right" || k == "s-right" || k == "s-end" || k == "cs-right")) { killed = was; can_pop = pop; anchor = sel; return false; } // Would accept a suggestion.
        const size_t lo = sel < 0 ? cur : std::min(cur, size_t(sel)), hi = sel < 0 ? cur : std::max(cur, size_t(sel));
        auto unselect = [&] { if (lo == hi) return false; buf.erase(lo, hi - lo); cur = lo; return true; };
        if (k[0] == 's' || k[0] == 'c')
        {
            bool s = true; size_t from = sel < 0 ? cur : size_t(sel);
            if (k == "s-left") { if (cur) --cur; } else if (k == "s-right") { if (cur < buf.size()) ++cur; }
            else if (k == "cs-left") cur = bword(cur); else if (k == "cs-right") cur = fword(cur);
            else if (k == "s-home") cur = 0; else if (k == "s-end") cur = buf.size();
            else if (k == "c-ins" || k == "s-del")
            {
                us t = sel < 0 ? buf : buf.substr(lo, hi - lo); if (!t.empty()) clip = to8(t);
                if (k == "s-del") unselect(); else anchor = sel;
                return true;
            }
            else s = false;
            if (s) { anchor = int(from); return true; }
        }
        if (k.compare(0, 3, "hs-") == 0)    // history-search-backward, several times; end.
        {
            if (hpos != -1 || nohist || !cur || suggest) return false;
            us pre = buf.substr(0, cur); int i = int(hist.size()), hit = -1;
            for (int n = atoi(k.c_str() + 3); n > 0; --n) { while (--i >= 0 && (hist[i].compare(0, pre.size(), pre) || (hit >= 0 && hist[i] == hist[hit]))) ; if (i < 0) break; hit = i; }
            if (hit >= 0) { buf = hist[hit]; hpos = -2; plain = false; }
            cur = buf.size();
            return true;
        }
        if (k.compare(0, 3, "rs-") == 0)    // reverse-search-history: text, several times; Enter.
        {
            if (hpos != -1 || nohist || !buf.empty() || suggest) return false;
            us t = to32(k.substr(5)), got; int l = -1; size_t at = 0;
            for (size_t n = 1; n <= t.size(); ++n) { int i = int(hist.size()); while (--i >= 0 && hist[i].find(t.substr(0, n)) == us::npos) ; if (i < 0) break; l = i; got = t.substr(0, n); at = hist[i].rfind(got); }
            for (int n = k[3] - '0'; l >= 0 && n > 0 && got == t; --n)
            {
                size_t p = at ? hist[l].rfind(t, at - 1) : us::npos; int i = l;
                if (p == us::npos) { while (--i >= 0 && (hist[i] == hist[l] || (p = hist[i].rfind(t)) == us::npos)) ; if (i < 0) break; }
                l = i; at = p;
            }
            if (l >= 0) buf = hist[l];
            us x = buf; buf.clear(); cur = 0; accept(x);
            return true;
        }
        if (k.compare(0, 3, "lf-") == 0)
        {
            size_t n = atoi(k.c_str() + 3); if (n >= hooks.fn.size() || sel >= 0 || hpos != -1) { killed = was; can_pop = pop; anchor = sel; return false; }
            for (auto& o : hooks.fn[n])
            {
                string a = o.substr(1); int len = int(buf.size());
                if (o[0] == 'i') { us t = to32(a); buf.insert(cur, t); cur += t.size(); }
                if (o[0] == 'c') cur = std::min(atoi(a.c_str()) - 1, len);
                if (o[0] == 'r') { int x = atoi(a.c_str()) - 1, y = atoi(a.substr(a.find(':') + 1).c_str()) - 1; if (x > y) std::swap(x, y); x = std::min(x, len); y = std::min(y, len); buf.erase(x, y - x); cur = std::min(cur, buf.size()); }
                if (o[0] == 't') { hooks.add("t"); ++hooks.asks; }
                if (o[0] == 'l') hooks.add("l|" + to8(buf) + strf("|%d|%d", int(buf.size()), int(cur) + 1));
            }
            return true;
        }
        if (k == "c-pgup") { us l = to32(" cd .."); string was = to8(buf); size_t n = lines.size(); buf.clear(); cur = 0; accept(l); lines[n].display = was; noscreen = true; return true; } // (It isn't shown.)
        if (k == "ins") { over = !over; return true; }
        if ((k == "back" || k == "del" || k == "c-d" || k == "c-del" || k == "c-back" || k == "m-d") && unselect()) { killed = was; return true; }
        if (k == "undo" || k == "m-r") { if (!plain) { killed = was; can_pop = pop; anchor = sel; return false; } buf.clear(); cur = 0; return true; }
        if (k == "m-y") { if (!pop || ring.empty()) { killed = was; can_pop = pop; anchor = sel; return false; } size_t l = ring[kidx].size(); buf.erase(cur - l, l); cur -= l; if (--kidx < 0) kidx = int(ring.size()) - 1; buf.insert(cur, ring[kidx]); cur += ring[kidx].size(); can_pop = true; return true; }
        if (k == "m-u" || k == "m-l") { size_t b = fword(cur); for (size_t i = cur; i < b; ++i) if (buf[i] < 128) buf[i] = k == "m-u" ? toupper(int(buf[i])) : tolower(int(buf[i])); cur = b; return true; }
        if (k == "enter") { us l = buf; buf.clear(); cur = 0; accept(l); return true; }
        if (k == "back" && over) { if (!cur) return true; buf.erase(--cur, 1); if (cur < buf.size()) buf.insert(cur, us(1, ' ')); return true; }
        if (k == "back") { if (cur) buf.erase(--cur, 1); return true; }
        if (k == "del" || k == "c-d") { if (k == "c-d" && buf.empty()) { killed = was; return false; } if (cur < buf.size()) buf.erase(cur, 1); return true; }
        if (k == "left" || k == "c-b") { if (cur) --cur; return true; }
        if (k == "right" || k == "c-f") { if (cur < buf.size()) ++cur; return true; }
        if (k == "home" || k == "c-a") { cur = 0; return true; }
        if (k == "end" || k == "c-e") { cur = buf.size(); return true; }
        if (k == "m-b" || k == "c-left") { cur = bword(cur); return true; }
        if (k == "m-f" || k == "c-right") { cur = fword(cur); return true; }
        if (k == "c-k" || k == "c-end") { if (cur == buf.size()) return true; killed = was && k == "c-k"; kill_range(cur, buf.size(), true); killed = true; return true; }
        if (k == "c-u" || k == "c-home") { if (!cur) return true; killed = was && k == "c-u"; kill_range(0, cur, false); killed = true; return true; }
        if (k == "c-w") { if (!cur) return true; killed = was; size_t a = cur; while (a && buf[a - 1] == ' ') --a; while (a && buf[a - 1] != ' ') --a; kill_range(a, cur, false); killed = true; return true; }
        if (k == "c-del") { size_t b = fword(cur); if (b == cur) return true; kill_range(cur, b, true); killed = true; return true; }
        if (k == "m-d") { size_t b = fword(cur); if (b == cur) return true; kill_range(cur, b, true); killed = true; return true; } // Its first half (Esc) ends a series of kills.
        if (k == "c-back") { size_t a = bword(cur); if (a == cur) return true; killed = was; kill_range(a, cur, false); killed = true; return true; }
        if (k == "c-y") { if (ring.empty()) return true; buf.insert(cur, ring[kidx]); cur += ring[kidx].size(); can_pop = true; return true; }
        if (k == "c-t") { if (buf.size() < 2 || !cur) return true; if (cur == buf.size()) --cur; std::swap(buf[cur - 1], buf[cur]); ++cur; return true; }
        if (k == "up" || k == "c-p")
        {
            if (hpos == -2 || nohist) { killed = was; return false; }
            if (hpos < 0) { if (hist.empty()) return true; plain = false; saved = buf; hpos = int(hist.size()); }
            if (hpos > 0) { --hpos; buf = hist[hpos]; cur = buf.size(); }
            return true;
        }
        if (k == "down" || k == "c-n")
        {
            if (hpos == -2 || nohist) { killed = was; return false; }
            if (hpos < 0) return true;
            if (++hpos == int(hist.size())) { buf = saved; hpos = -1; cur = buf.size(); } else { buf = hist[hpos]; cur = buf.size(); }
            return true;
        }
        if (k == "c-v" || k == "s-ins")
        {
            if (clip.empty()) return true;
            us t = to32(clip), first; std::vector<us> more; bool brk = false;
            us x; bool prev = false;
            for (auto c : t)
            {
                if (c != '\r' && c != '\n') { x += c; prev = false; }
                else if (paste == 3) { if (c == '\n') x += c; }
                else if (paste && !prev) { x += paste == 1 ? ' ' : '&'; prev = true; }
            }
            size_t n = x.find(U'\n');
            first = x.substr(0, n);
            unselect();
            buf.insert(cur, first); cur += first.size();
            if (n == us::npos) return true;
            x.erase(0, n + 1);
            us l = buf; buf.clear(); cur = 0;
            while ((n = x.find(U'\n')) != us::npos) { queue.push_back({ x.substr(0, n), false }); x.erase(0, n + 1); }
            if (!x.empty()) { partial = x; has_partial = true; }
            accept(l);
            return true;
        }
        us u = to32(k); if (u.size() != 1) { killed = was; return false; }
        unselect();
        if (over && cur < buf.size()) buf.erase(cur, 1);
        buf.insert(cur, u); ++cur;
        return true;
    }
};
struct M { const ::Case* c; Shell s[2]; int ns = 1; Ed ed; bool resized = false, broken = false, idled = false; bool patient = false; string banner; Proc* user = nullptr; } *m;
Shell* me() { for (int i = 0; i < m->ns; ++i) if (m->s[i].p == cur_proc()) return &m->s[i]; return nullptr; }

void out(const string& t)
{
    std::wstring w = widen(t.c_str()); DWORD n;
    if (Shell* s = me()) if (s->executing) s->text(t);
    SutScope z; ((BOOL (WINAPI*)(HANDLE, const void*, DWORD, LPDWORD, LPVOID))slot(F_WRITE))(GetStdHandle(STD_OUTPUT_HANDLE), w.c_str(), DWORD(w.size()), &n, nullptr);
}
bool in(string& line, int max, bool* ok = nullptr)
{
    static wchar_t buf[8192]; DWORD n = 0; BOOL r;
    CONSOLE_READCONSOLE_CONTROL ctl = { sizeof ctl, 0, 1 << 9, 0 };
    { SutScope z; r = ((BOOL (WINAPI*)(HANDLE, void*, DWORD, LPDWORD, CONSOLE_READCONSOLE_CONTROL*))slot(F_READ))(GetStdHandle(STD_INPUT_HANDLE), buf, max, &n, &ctl); }
    line = narrow(std::wstring(buf, n));
    return r;
}
string getenv_(const wchar_t* name)
{
    wchar_t b[2048]; DWORD n; { SutScope z; n = ((DWORD (WINAPI*)(LPCWSTR, LPWSTR, DWORD))slot(F_GETENV))(name, b, 2048); }
    return n && n < 2048 ? narrow(std::wstring(b, n)) : string();
}
void setenv_(const string& name, const string& value)
{
    std::wstring n = widen(name.c_str()), v = widen(value.c_str());
    SutScope z; ((BOOL (WINAPI*)(LPCWSTR, LPCWSTR))slot(F_SETENV))(n.c_str(), value.empty() ? nullptr : v.c_str());
}
string cwd() { return narrow(cur_proc()->cwd); }
string expand_prompt(const string& p)
{
    string r;
    for (size_t i = 0; i < p.size(); ++i)
    {
        if (p[i] != '$' || i + 1 >= p.size()) { r += p[i]; continue; }
        switch (tolower(p[++i]))
        {
        case 'p': r += cwd(); break; case 'g': r += '>'; break; case 'l': r += '<'; break; case 's': r += ' '; break;
        case '_': r += "\r\n"; break; case 'h': r += "\b \b"; break; case 'e': r += "\x1b"; break; case '$': r += '$'; break; case 'n': r += cwd()[0]; break;
        }
    }
    return r;
}
string expand_vars(Shell& s, const string& l)
{
    string r;
    for (size_t i = 0; i < l.size(); ++i)
    {
        if (l[i] != '%') { r += l[i]; continue; }
        size_t e = l.find('%', i + 1); if (e == string::npos) { r += l[i]; continue; }
        string n = l.substr(i + 1, e - i - 1);
        string v = n == "errorlevel" ? std::to_string(s.errorlevel) : getenv_(widen(n.c_str()).c_str());
        r += v.empty() ? l.substr(i, e - i + 1) : v; i = e;
    }
    return r;
}
void write_to(const string& path, const string& text)
{
    std::wstring w = widen(path.c_str());
    HANDLE h = CreateFileW(w.c_str(), GENERIC_WRITE, FILE_SHARE_READ, nullptr, CREATE_ALWAYS, 0, nullptr);
    DWORD n; if (h != INVALID_HANDLE_VALUE) { WriteFile(h, text.data(), DWORD(text.size()), &n, nullptr); CloseHandle(h); }
}
void execute(Shell& s, const string& raw)
{
    string line = expand_vars(s, raw);
    for (auto& c0 : commands(line))
    {
        string c = c0, file;
        for (;;) { size_t e = c.find("2>nul"); if (e == string::npos) break; c.erase(e, 5); }
        size_t g = c.find(">\""); if (g != string::npos) { size_t e = c.find('"', g + 2); file = c.substr(g + 2, e - g - 2); c = c.substr(0, g); }
        c = trim(c);
        string verb = verb_of(c), arg = arg_of(c);
        if (s.ctrl_c) { s.ctrl_c = false; break; }
        if (verb.empty()) continue;
        if (verb == "echo") { if (file.empty()) out(arg + "\r\n"); else write_to(file, arg + " \r\n"); }
        else if (verb == "set") { size_t e = arg.find('='); if (e != string::npos) setenv_(arg.substr(0, e), arg.substr(e + 1)); }
        else if (verb == "fail") s.errorlevel = level_of(arg);
        else if (verb == "ok") s.errorlevel = 0;
        else if (verb == "wait") sim_sleep(ms(std::min(std::max(atoi(arg.c_str()), 0), 3000)));
        else if (verb == "lines") { for (int i = 0; i < std::min(atoi(arg.c_str()), 60); ++i) out(strf("line %d\r\n", i)); }
        else if (verb == "cd" || verb == "chdir")
        {
            bool d; string a = cd_arg(arg, d); if (a.empty()) continue;
            if (a.size() > 1 && a[1] == ':' && tolower(a[0]) != tolower(cwd()[0]) && !d) { if (!dir_of(cwd(), a).empty()) s.drives[char(tolower(a[0]))] = dir_of(cwd(), a); continue; }
            std::wstring w = widen(a.c_str()); if (!SetCurrentDirectoryW(w.c_str())) s.errorlevel = 1;
        }
        else if (is_drive(verb))
        {
            char to = verb[0]; s.drives[char(tolower(cwd()[0]))] = cwd(); string& t = s.drives[to]; if (t.empty()) t = string(1, char(toupper(to))) + ":\\";
            std::wstring w = widen(t.c_str()); if (!SetCurrentDirectoryW(w.c_str())) s.errorlevel = 1;
        }
        else if (verb == "ask") { out(arg + "? "); string r; in(r, 1023); s.tr.push_back({ 'A' }); s.asked.push_back(trim(r)); }
        else if (verb == "title") { std::wstring w = widen(arg.c_str()); SutScope z; ((BOOL (WINAPI*)(LPCWSTR))slot(F_TITLE))(w.c_str()); }
        else if (verb == "exit") { s.done = true; if (!arg.empty()) s.errorlevel = atoi(arg.c_str()); return; }
        else { s.errorlevel = 9009; out("'" + verb + "' is not recognized as an internal or external command,\r\noperable program or batch file.\r\n"); }
    }
}
bool is_probe(const string& l) { return l.find("clink_dummy_capture_env") != string::npos; }

// What the commands that scripts run write: numbered lines, or one text.
string child_text(const string& id, int lines) { string t; for (int i = 0; i < lines; ++i) t += strf("%s:%d\r\n", id.c_str(), i); return t; }
void w_out(const string& t) { DWORD n; WriteFile(GetStdHandle(STD_OUTPUT_HANDLE), t.data(), DWORD(t.size()), &n, nullptr); }
// cmd.exe /c out ID LINES CHUNK DELAY LINGER RC | say TEXT DELAY
u32 child_main(Proc*, const string& line)
{
    std::vector<string> a; size_t b = line.find("/c "); string t = b == string::npos ? "" : line.substr(b + 3);
    for (size_t i = 0; i < t.size();) { size_t e = t.find(' ', i); if (e == string::npos) e = t.size(); if (e > i) a.push_back(t.substr(i, e - i)); i = e + 1; }
    sim_count("script_commands");
    if (a.size() >= 7 && a[0] == "out")
    {
        string x = child_text(a[1], atoi(a[2].c_str())); size_t chunk = atoi(a[3].c_str());
        for (size_t i = 0; i < x.size(); i += chunk) { if (i) sim_sleep(ms(atoi(a[4].c_str()))); w_out(x.substr(i, chunk)); }
        if (atoi(a[5].c_str())) { CloseHandle(GetStdHandle(STD_OUTPUT_HANDLE)); sim_sleep(ms(atoi(a[5].c_str()))); }
        return atoi(a[6].c_str());
    }
    if (a.size() >= 3 && a[0] == "say") { sim_sleep(ms(atoi(a[2].c_str()))); w_out(a[1] + "\r\n"); return 0; }
    return 1;
}

BOOL WINAPI shell_ctrl(DWORD) { for (int i = 0; i < m->ns; ++i) if (m->s[i].p == cur_proc()) m->s[i].ctrl_c = true; return TRUE; }

void shell_main(Shell* ps)
{
    HostScope hs;
    Shell& s = *ps;
    make_exe();
    SetConsoleCtrlHandler(shell_ctrl, TRUE);
    SetEnvironmentVariableW(L"PROMPT", widen(m->c->gets("prompt", "$p$g").c_str()).c_str());
    INT_PTR rc;
    {
        SutScope z;
        app_context::desc d; d.force = true; d.quiet = m->c->geti("quiet", 1); d.log = m->c->geti("log", 0); d.inherit_id = false;
        strcpy(d.state_dir, s.profile.c_str());
        d.tick = GetTickCount();
        rc = initialise_clink(d);
    }
    if (rc != 1) { sim_violate("harness", "initialise_clink failed (%d)", int(rc)); return; }
    bool first = true, probed = false; int empty = 0;
    string gap;
    while (!s.done && !g_sim->ended)
    {
        string p = expand_prompt(getenv_(L"PROMPT"));
        if (!first) out("\r\n");
        static const string tag = "C\bL\bI\bN\bK\b \b";       // Clink's hidden tag on %PROMPT%.
        if (!probed) gap = first ? "" : "\r\n";    // The probe takes back the line feed that follows it.
        s.pending_prompt = gap + (p.compare(0, tag.size(), tag) ? p : p.substr(tag.size()));
        first = false;
        s.prompts++;
        if (int k = m->c->geti("async"))
        {
            setenv_("SIM_N", std::to_string(s.prompts % 10));
            string t; for (int i = 1; i <= k; ++i) t += strf("[%d=%d]", i, s.prompts % 10);
            s.pending_prompt += t;
        }
        out(p);
        string l;
        s.reading = true;
        in(l, 8191);
        s.reading = false;
        if (g_sim->ended) return;
        bool full = l.size() >= 2 && l.substr(l.size() - 2) == "\r\n";
        if ((l.empty() || l == "\r\n") && ++empty > 100) { sim_violate("E.hung", "the session reads empty lines over and over, without any input"); return; }
        if (!l.empty() && l != "\r\n" && !is_probe(l.substr(0, l.size() - 2))) empty = 0;
        if (!full) { if (l.empty()) { s.ctrl_c = false; continue; } sim_violate("E01", "cmd.exe was given an unterminated line: %s", show(l).c_str()); return; }
        l.resize(l.size() - 2);
        s.all.push_back(l);
        sim_note("line: %s", l.c_str());
        s.executing = !(probed = is_probe(l));
        if (s.executing && m->c->geti("seen"))
        {
            // What the script saw at this prompt (it does not run for lines from the queue).
            string seen = narrow(cur_proc()->env[L"sim_seen"].second);
            if (!seen.empty())
            {
                setenv_("SIM_SEEN", "");
                sim_count("errorlevels_checked");
                if (seen != std::to_string(s.errorlevel)) { sim_violate("E.errorlevel", "a script was told that the last command ended with %s, it was %d", seen.c_str(), s.errorlevel); return; }
            }
        }
        if (s.executing) { s.text(s.pending_prompt); s.tr.push_back({ 'L' }); s.lines.push_back(l); }
        s.ctrl_c = false;
        execute(s, l);
        if (s.executing) s.cwds.push_back(cwd());
        s.executing = false;
    }
    SutScope z;
    ExitProcess(s.errorlevel);
}

//------------------------------------------------------------------------------
void type(Con& c, const string& name)
{
    const DWORD C = LEFT_CTRL_PRESSED, A = LEFT_ALT_PRESSED, E = ENHANCED_KEY;
    if (name.compare(0, 3, "lf-") == 0) { c.key(VK_F5 + atoi(name.c_str() + 3), 0, C); return; }
    if (name.compare(0, 3, "hs-") == 0) { for (int i = atoi(name.c_str() + 3); i > 0; --i) if (i & 1) c.key(VK_PRIOR, 0, E); else c.key(VK_F8, 0, 0); type(c, "end"); return; }
    if (name.compare(0, 3, "rs-") == 0) { type(c, "c-r"); type(c, name.substr(5)); for (int i = name[3] - '0'; i > 0; --i) type(c, "c-r"); type(c, "enter"); return; }
    if (name == "enter") c.key(VK_RETURN, '\r', 0);
    else if (name == "back") c.key(VK_BACK, 8, 0);
    else if (name == "left") c.key(VK_LEFT, 0, E);
    else if (name == "right") c.key(VK_RIGHT, 0, E);
    else if (name == "up") c.key(VK_UP, 0, E);
    else if (name == "down") c.key(VK_DOWN, 0, E);
    else if (name == "home") c.key(VK_HOME, 0, E);
    else if (name == "end") c.key(VK_END, 0, E);
    else if (name == "del") c.key(VK_DELETE, 0, E);
    else if (name == "esc") c.key(VK_ESCAPE, 27, 0);
    else if (name == "tab") c.key(VK_TAB, 9, 0);
    else if (name[0] == 'f' && name.size() == 2 && isdigit((unsigned char)name[1])) c.key(WORD(VK_F1 + name[1] - '1'), 0, 0);
    else if (name == "ins") c.key(VK_INSERT, 0, E);
    else if (name == "c-pgup") c.key(VK_PRIOR, 0, E | C);
    else if (name == "undo") for (int i = 0; i < 120; ++i) c.key('Z', 26, C);
    else if (name == "s-left") c.key(VK_LEFT, 0, E | SHIFT_PRESSED);
    else if (name == "s-right") c.key(VK_RIGHT, 0, E | SHIFT_PRESSED);
    else if (name == "cs-left") c.key(VK_LEFT, 0, E | C | SHIFT_PRESSED);
    else if (name == "cs-right") c.key(VK_RIGHT, 0, E | C | SHIFT_PRESSED);
    else if (name == "s-home") c.key(VK_HOME, 0, E | SHIFT_PRESSED);
    else if (name == "s-end") c.key(VK_END, 0, E | SHIFT_PRESSED);
    else if (name == "s-del") c.key(VK_DELETE, 0, E | SHIFT_PRESSED);
    else if (name == "s-ins") c.key(VK_INSERT, 0, E | SHIFT_PRESSED);
    else if (name == "c-ins") c.key(VK_INSERT, 0, E | C);
    else if (name == "c-del") c.key(VK_DELETE, 0, E | C);
    else if (name == "c-left") c.key(VK_LEFT, 0, E | C);
    else if (name == "c-right") c.key(VK_RIGHT, 0, E | C);
    else if (name == "c-home") c.key(VK_HOME, 0, E | C);
    else if (name == "c-end") c.key(VK_END, 0, E | C);
    else if (name == "c-back") c.key(VK_BACK, 127, C);
    else if (name.size() == 3 && name[0] == 'c' && name[1] == '-') c.key(toupper(name[2]), name[2] & 31, C);
    else if (name.size() == 3 && name[0] == 'm' && name[1] == '-') c.key(toupper(name[2]), name[2], A);
    else for (wchar_t w : widen(name.c_str())) { SHORT vk = w < 128 ? VkKeyScanW(w) : 0; c.key(w < 128 ? WORD(vk & 0xff) : 0, w, (vk & 0x100) && w < 128 ? SHIFT_PRESSED : 0); }
}


void noise(Con& c, int what)
{
    INPUT_RECORD r = {};
    switch (what % 6)
    {
    case 0: r.EventType = FOCUS_EVENT; r.Event.FocusEvent.bSetFocus = what & 8; break;
    case 1: r.EventType = MENU_EVENT; break;
    case 2: r.EventType = KEY_EVENT; r.Event.KeyEvent.bKeyDown = TRUE; r.Event.KeyEvent.wRepeatCount = 1; r.Event.KeyEvent.wVirtualKeyCode = what & 8 ? VK_SHIFT : VK_CONTROL; r.Event.KeyEvent.dwControlKeyState = what & 8 ? SHIFT_PRESSED : LEFT_CTRL_PRESSED; break;
    case 3: r.EventType = MOUSE_EVENT; r.Event.MouseEvent.dwEventFlags = MOUSE_MOVED; r.Event.MouseEvent.dwMousePosition = { SHORT(what % 70), SHORT(what % 20) }; if (!(c.in_mode & ENABLE_MOUSE_INPUT)) return; break;
    case 5: c.key(VK_F11, 0, LEFT_CTRL_PRESSED | SHIFT_PRESSED); return;        // Bound to nothing.
    case 4: r.EventType = WINDOW_BUFFER_SIZE_EVENT; r.Event.WindowBufferSizeEvent.dwSize = c.size; if (!(c.in_mode & ENABLE_WINDOW_INPUT)) return; break;
    }
    c.input.push_back(r);
}
// Waits until the session has dealt with everything typed, and waits for more.
// Have all requests to the terminal come back?
bool answered()
{
    if (!m->c->geti("ask")) return true;
    string t = fs_read("C:\\work\\log.txt"); size_t n = 0, k = 0; if (t.empty() || t.back() != '\n') t += '\n';
    for (size_t i = 0; i < t.size(); i = t.find('\n', i) + 1) { if (!t.compare(i, 2, "t|")) ++k, ++n; if (!t.compare(i, 2, "u|")) ++n; }
    return n == m->ed.hooks.promised.size() && int(k) >= m->ed.hooks.asks;
}
bool settle(Shell& s, const char* what)
{
    Con& c = con_of(s.con);
    Ed& e = m->ed;
    u64 end = g_sim->now + ms(120000); int good = 0;
    while (good < 3)
    {
        if (g_sim->ended) return false;
        if (g_sim->now > end)
        {
            sim_violate("E.hung", "%s: after 120 seconds %d of %d lines have been read (%s), %d answers of %d, %d keys not read; last line read: '%s'", what, int(s.lines.size()), int(e.lines.size()), s.reading ? "reading" : "not reading",
                int(s.asked.size()), int(e.asked.size()), int(c.input.size()), s.lines.empty() ? "" : show(s.lines.back()).c_str());
            return false;
        }
        sim_sleep(ms(400));
        bool idle = e.done ? s.done : !c.ctrl_pending && c.input.empty() && (e.mode ? c.reading && s.asked.size() >= e.asked.size() : s.reading && !s.executing && s.quiet()) && answered();
        good = idle ? good + 1 : 0;
    }
    return true;
}
bool check_lines(Shell& s, bool final)
{
    Ed& e = m->ed;
    for (size_t i = 0; i < s.lines.size() || (final && i < e.lines.size()); ++i)
    {
        if (i >= e.lines.size()) { sim_violate("E.lines", "cmd.exe was given a line that was not typed: line %d '%s'", int(i), show(s.lines[i]).c_str()); return false; }
        if (i >= s.lines.size()) { sim_violate("E.lines", "line %d '%s' was typed but cmd.exe was not given it", int(i), show(e.lines[i].cmd).c_str()); return false; }
        if (s.lines[i] != e.lines[i].cmd && !e.lines[i].dir) { sim_violate("E.lines", "line %d was typed as '%s' but cmd.exe was given '%s'", int(i), show(e.lines[i].cmd).c_str(), show(s.lines[i]).c_str()); return false; }
    }
    if (e.dirs) for (size_t i = 0; i < s.cwds.size(); ++i)
    {
        sim_count("directories_checked");
        if (_stricmp(s.cwds[i].c_str(), e.lines[i].cwd.c_str())) { sim_violate("E05.dir", "after line %d, '%s' (run as '%s'), the current directory is '%s', not '%s'", int(i), show(e.lines[i].display).c_str(), show(s.lines[i]).c_str(), s.cwds[i].c_str(), e.lines[i].cwd.c_str()); return false; }
    }
    for (size_t i = 0; i < s.asked.size() || (final && i < e.asked.size()); ++i)
    {
        string a = i < s.asked.size() ? s.asked[i] : "(none)", b = i < e.asked.size() ? e.asked[i].first : "(none)";
        if (b.size() > 1000 && a.size() > 1000 && !b.compare(0, a.size(), a)) continue; // It asked for no more than that.
        if (a != b) { sim_violate("E.lines", "answer %d was typed as '%s' but the command was given '%s'", int(i), show(b).c_str(), show(a).c_str()); return false; }
    }
    return true;
}
std::vector<string> rows_of(const Con& c) { std::vector<string> v; for (auto& l : c.scrollback) v.push_back(l); for (int y = 0; y < c.size.Y; ++y) v.push_back(c.row_text(y)); while (!v.empty() && v.back().empty()) v.pop_back(); return v; }
void put(Con& c, const string& t) { std::wstring w = widen(t.c_str()); c.write(w.data(), w.size()); }
bool check_screen(Shell& s)
{
    Con& c = con_of(s.con); Ed& e = m->ed;
    if (m->resized || e.done || e.noscreen || m->c->geti("focus", 2) == 1 || m->c->geti("focus", 2) == 8) return true;
    Con x; x.out_mode = 7; x.emulate = true; x.init(c.size.X, c.rows, c.size.Y);
    put(x, m->banner);
    size_t l = 0, a = 0;
    for (auto& g : s.tr)
        if (!g.kind) put(x, g.text);
        else if (g.kind == 'L') { if (l < e.lines.size()) { put(x, (e.lines[l].shown ? e.lines[l].display : string()) + "\r\n"); ++l; } }
        else if (a < e.asked.size()) put(x, e.asked[a++].second);
    us before = e.mode ? e.cooked : e.buf.substr(0, e.cur), after = e.mode ? us() : e.buf.substr(e.cur);
    int prompt_row = x.cursor.Y + int(x.scrollback.size());
    if (!e.mode) put(x, s.pending_prompt);
    put(x, to8(before));
    bool wrap = x.pend || (!after.empty() && con_width(after[0]) == 2 && x.cursor.X == x.size.X - 1);
    size_t sb = x.scrollback.size(); int cy = x.cursor.Y + int(sb), cx = x.cursor.X;
    put(x, to8(after));
    if (wrap && !e.mode) { cx = 0; cy++; }
    std::vector<string> have = rows_of(c), want = rows_of(x);
    if (g_sim->trace) { for (auto& g : s.tr) sim_note("segment %s %s", g.kind ? string(1, g.kind).c_str() : "text", show(g.text).c_str()); for (auto& w : want) sim_note("want |%s", w.c_str()); }
    string cell = strf("%dx%d", c.size.X, c.rows);
    for (size_t i = 0; i < have.size() || i < want.size(); ++i)
    {
        string h = i < have.size() ? have[i] : "", w = i < want.size() ? want[i] : "";
        // Prompts that were accepted before their commands had ended.
        if (m->c->geti("async") && h.size() == w.size() && (int(i) < prompt_row || !m->idled)) for (size_t j = 0; j < h.size(); ++j) if (h[j] == '?' && w[j] == '=') h[j] = '=';
        if (h != w) { if (m->patient) return false; sim_violate("E.screen", "row %d of the screen (%s) is '%s', not '%s'", int(i), cell.c_str(), show(h).c_str(), show(w).c_str()); return false; }
    }
    int hy = c.cursor.Y + int(c.scrollback.size());
    if (c.cursor.X != cx || hy != cy) { sim_violate("E.cursor", "the cursor is at column %d of row %d, not %d of %d; the row is '%s'", c.cursor.X, hy, cx, cy, show(cy < int(want.size()) ? want[cy] : "").c_str()); return false; }
    if (!c.unknown.empty()) { sim_violate("E.screen", "the terminal was sent something that it does not understand: %s", show(c.unknown).c_str()); return false; }
    sim_count("screens_checked");
    return true;
}
void press(Shell& s, const string& k)
{
    Con& c = con_of(s.con);
    if (!m->ed.key(k)) { sim_count("key_skipped"); return; }
    sim_note("key %s", k.c_str());
    type(c, k);
}
bool is_suffix(const string& a, const string& b) { return a.size() <= b.size() && !b.compare(b.size() - a.size(), a.size(), a); }
// Ctrl-Break while lines are typed or pasted: it takes effect at one point at most.
bool fits(const std::vector<string>& got, const std::vector<string>& want, bool pasted, bool before)
{
    if (got == want) return true;
    if (pasted && before && got.size() == want.size() + 1 && got[0].empty() && std::equal(want.begin(), want.end(), got.begin() + 1)) return true; // Before the paste.
    for (size_t j = 0; j <= want.size(); ++j)
        for (int extra = 0; extra < 2; ++extra)
        {
            size_t rest = pasted ? 0 : want.size() - j;
            if (pasted)
            {
                // The rest of the queue is dropped.
                if (got.size() != j + extra) continue;
                bool ok = true;
                for (size_t i = 0; ok && i < j; ++i) ok = got[i] == want[i];
                if (ok && (!extra || got[j].empty())) return true;
                continue;
            }
            if (got.size() != j + extra + rest) continue;
            bool ok = true;
            for (size_t i = 0; ok && i < j; ++i) ok = got[i] == want[i];
            if (ok && extra) ok = got[j].empty();
            for (size_t i = 0; ok && i < rest; ++i) { const string& g = got[j + extra + i]; const string& w = want[j + i]; ok = i ? g == w : is_suffix(g, w); }
            if (ok) return true;
        }
    return false;
}
string list(const std::vector<string>& v) { string r; for (auto& x : v) r += (r.empty() ? "'" : ", '") + show(x) + "'"; return r; }
bool break_block(Shell& s, const Op& o)
{
    Con& c = con_of(s.con); Ed& e = m->ed;
    string text = o.arg(0); int after = o.num(1), delay = o.num(2), type_ = o.num(3); bool pasted = o.num(4);
    if (!settle(s, "before a break") || !check_lines(s, false)) return false;
    if (e.done || e.mode || !e.buf.empty()) return true;
    if (pasted && e.paste != 3) pasted = false;
    size_t n0 = s.lines.size();
    int typed = 0; bool fired = false, before = true, within = false; const u64 clips = clipboard_reads();
    sim_new_thread(m->user, "break", [&] {
        sim_block("break", [&] { return typed >= after; }, FOREVER);
        u64 changes = 0;
        if (o.num(8)) { sim_block("break", [&] { return clipboard_reads() > clips; }, ms(3000)); changes = s.p->ctrl_changes; }   // While the pasted lines are put in the queue, and the first one is executed.
        if (u64 k = o.num(7)) { u64 at = g_sim->steps + k; sim_block("break", [at] { return g_sim->steps >= at; }, ms(2000)); }
        else if (!o.num(8)) sim_sleep(ms(delay));
        sim_note("break %d", type_); before = clipboard_reads() == clips;
        bool editing = !before && o.num(8) && s.lines.size() == n0;
        c.ctrl_event(type_ ? CTRL_BREAK_EVENT : CTRL_C_EVENT);
        if (editing) { sim_block("break", [&] { return !c.ctrl_pending; }, FOREVER); within = s.p->ctrl_changes == changes; }   // Clink was still editing the line.
        fired = true;
    });
    std::vector<string> want; string cur;
    for (char ch : text) if (ch == '\r') { want.push_back(cur); cur.clear(); } else cur += ch;
    string partial = pasted ? o.arg(6) : "";
    if (pasted) { string t; for (auto& l : want) t += l + "\r\n"; if (want.empty()) partial.clear(); t += partial; clipboard() = widen(t.c_str()); e.clip = t; type(c, "c-v"); typed = 100000; }
    else for (char ch : text) { type(c, ch == '\r' ? string("enter") : string(1, ch)); ++typed; sim_point("type"); if (o.num(5)) sim_sleep(ms(o.num(5))); }
    typed = 100000;
    sim_block("fired", [&] { return fired; }, FOREVER);
    m->resized = m->broken = true; e.nohist = true;
    if (!settle(s, "after a break")) return false;
    std::vector<string> got(s.lines.begin() + n0, s.lines.end());
    if (within && pasted)
    {
        sim_count("breaks_within_paste");
        if (got.size() > 2 || (got.size() == 2 && !got[1].empty())) { sim_violate("E.break", "a break while the lines %s were pasted did not drop the rest of them: cmd.exe was given %s", list(want).c_str(), list(got).c_str()); return false; }
    }
    if (!partial.empty())
    {
        // The unfinished line is dropped with the others.
        type(c, "enter");
        if (!settle(s, "after a break") || s.lines.size() == n0 + got.size()) return false;
        string last = s.lines.back();
        size_t ran = 0; for (auto& l : got) ran += !l.empty(), ran += 0; size_t all = 0; for (auto& l : want) all += !l.empty();
        if (!(last.empty() || (last == partial && ran == all && !within))) { sim_violate("E.break", "a break during a paste of %s and the start of a line '%s' left a line '%s' after %s", list(want).c_str(), show(partial).c_str(), show(last).c_str(), list(got).c_str()); return false; }
        e.lines.push_back({ last, true, last });
        for (size_t i = 0; i < got.size(); ++i) e.lines.insert(e.lines.end() - 1, { got[i], true, got[i] });
        sim_count(got != want ? "breaks_partial_effective" : "breaks_partial");
    }
    sim_note("break: %s%s got %s want %s", pasted ? "pasted" : "typed", before ? "" : " late", list(got).c_str(), list(want).c_str());
    if (pasted) { bool lost = false; for (auto& l : want) lost |= std::find(got.begin(), got.end(), l) == got.end(); if (lost) sim_count("breaks_dropped_lines"); }
    sim_count(pasted ? "breaks_pasting" : "breaks_typing"); if (got != want) sim_count("breaks_effective");
    if (!fits(got, want, pasted, before)) { sim_violate("E.break", "around a break the lines %s were %s, but cmd.exe was given %s", list(want).c_str(), pasted ? "pasted" : "typed", list(got).c_str()); return false; }
    if (partial.empty()) for (auto& l : got) e.lines.push_back({ l, true, l });
    e.killed = e.over = e.can_pop = false; e.anchor = -1; e.plain = true;
    return true;
}
// Ctrl-Break in the middle of a key sequence: what was begun doesn't apply to the next line.
bool break_sequence(Shell& s, const Op& o)
{
    Con& c = con_of(s.con); Ed& e = m->ed;
    if (!settle(s, "before a break") || !check_lines(s, false)) return false;
    if (e.done || e.mode) return true;
    size_t n0 = s.lines.size();
    for (size_t i = 0; i < o.a.size(); ++i) { sim_note("key %s", o.arg(int(i)).c_str()); type(c, o.arg(int(i))); }
    if (!settle(s, "before a break")) return false;
    if (s.lines.size() != n0) { sim_violate("harness", "a sequence ended a line"); return false; }
    c.ctrl_event(CTRL_BREAK_EVENT);
    m->resized = m->broken = true; e.nohist = true;
    if (!settle(s, "after a break")) return false;
    std::vector<string> got(s.lines.begin() + n0, s.lines.end());
    if (got != std::vector<string>{ "" }) { sim_violate("E.break", "after a break in a key sequence cmd.exe was given %s", list(got).c_str()); return false; }
    e.buf.clear(); e.cur = 0; e.hpos = -1; e.killed = false; e.anchor = -1;
    e.lines.push_back({ "", true, "" });
    e.start("");
    sim_count("breaks_in_sequences");
    return true;
}
// Ctrl-C discards the line.
bool ctrl_c(Shell& s)
{
    Con& c = con_of(s.con); Ed& e = m->ed;
    if (!settle(s, "before Ctrl-C") || !check_lines(s, false)) return false;
    if (e.done || e.mode) return true;
    if (e.cur != e.buf.size() || con_width('x') != 1) m->resized = true;  // Where ^C ends up on the screen depends on the cursor.
    string t = to8(e.buf) + "^C";
    sim_note("key c-c");
    type(c, "c-c");
    sim_count("ctrl_c");
    e.buf.clear(); e.cur = 0; e.hpos = -1; e.killed = false; e.anchor = -1;
    e.lines.push_back({ "", true, t });
    e.start("");
    return true;
}
bool check_history(Shell& s)
{
    if (!m->c->geti("hist") || m->broken || m->ed.nohist) return true;
    // The session's own file and its deletions are applied to the history by the next session that starts.
    Proc* q = sim_new_proc("next", 0);
    sim_new_thread(q, "next", [] { SutScope z; history_db* db = new history_db("C:\\prof\\clink_history", 4, true); db->initialise(); delete db; ExitProcess(0); });
    if (!sim_block("next", [q] { return !q->alive; }, ms(120000))) { sim_violate("E.hung", "the next session does not start"); return false; }
    string f = fs_read("C:\\prof\\clink_history"); std::vector<string> got, want;
    size_t a = 0;
    while (a < f.size()) { size_t b = f.find('\n', a); if (b == string::npos) b = f.size(); string l = f.substr(a, b - a); a = b + 1; if (!l.empty() && l[0] != '|') got.push_back(l); }
    for (auto& l : m->ed.hist) want.push_back(to8(l));
    sim_count("histories_checked");
    for (size_t i = 0; i < got.size() || i < want.size(); ++i)
        if (i >= got.size() || i >= want.size() || got[i] != want[i]) { sim_violate("E.history", "line %d of the history is '%s', not '%s'", int(i), i < got.size() ? show(got[i]).c_str() : "(none)", i < want.size() ? show(want[i]).c_str() : "(none)"); return false; }
    return true;
}
// What the scripts' coroutines have reported.
bool check_coroutines(Shell& s, bool idle)
{
    string f = fs_read("C:\\work\\log.txt");
    std::map<string, string> st; size_t a = 0; string last;
    while (a < f.size())
    {
        size_t b = f.find('\n', a); if (b == string::npos) b = f.size(); string l = f.substr(a, b - a); a = b + 1;
        while (!l.empty() && l.back() == '\r') l.pop_back();
        size_t sp = l.find(' '); if (sp == string::npos) continue;
        string what = l.substr(0, sp), id = l.substr(sp + 1, l.find(' ', sp + 1) - sp - 1);
        if (what == "start") { if (st.count(id)) { sim_violate("L.once", "coroutine %s ran twice", id.c_str()); return false; } st[id] = what; last = id.substr(0, id.find('.')); continue; }
        if (what == "bad") { sim_violate("L.output", "a command's output or result is wrong: %s", l.substr(sp + 1).c_str()); return false; }
        if (!st.count(id) || st[id] != "start") { sim_violate("L.once", "coroutine %s was resumed after it had ended (%s)", id.c_str(), l.c_str()); return false; }
        st[id] = what; if (what == "done") sim_count("coroutines_completed");
    }
    if (idle)
        for (auto& i : st)
            if (i.second == "start" && (i.first.back() == 'u' || i.first.substr(0, i.first.find('.')) == last))
            {
                if (m->patient) return false;
                sim_violate("L.stuck", "coroutine %s has not completed, although its command ended long ago and the session is idle", i.first.c_str()); return false;
            }
    sim_count("coroutine_checks");
    return true;
}
// A slow thread can take half a minute for one step.
// The handlers of scripts were called once for each thing that happened, in order, with the right text.
bool check_hooks()
{
    Hooks& h = m->ed.hooks; if (!h.on) return true;
    std::vector<string> got = split(fs_read("C:\\work\\log.txt"), '\n'); if (!got.empty()) got.pop_back();
    for (auto& g : got) if (!g.empty() && g.back() == '\r') g.pop_back();
    if (m->c->geti("ask"))
    {
        // What the requests got: "t|" by a key, "u|" by other things.
        std::vector<string> rest; std::map<int, int> seen;
        for (auto& g : got)
        {
            if (g.compare(0, 2, "t|") && g.compare(0, 2, "u|")) { rest.push_back(g); continue; }
            std::vector<string> f = split(g, '|'); f.resize(3); int n = atoi(f[1].c_str()); auto p = h.promised.find(n);
            if (seen[n]++) { sim_violate("T01.answer", "request %d was made twice", n); return false; }
            if (p == h.promised.end()) { sim_violate("T01.answer", "request %d did not reach the terminal", n); return false; }
            string want; for (char ch : p->second.first) want += strf("%02x", (unsigned char)ch);
            if (!p->second.second) want = "nil";
            sim_count(p->second.second ? "requests_answered" : "requests_unanswered");
            if (f[2] != want) { sim_violate("T01.answer", "request %d got '%s' though the terminal's answer is '%s'", n, f[2].c_str(), want.c_str()); return false; }
            if (g[0] == 't') rest.push_back("t");
        }
        got = rest;
    }
    for (size_t i = 0; i < got.size() || i < h.log.size(); ++i)
    {
        string a = i < got.size() ? got[i] : "(nothing)", b = i < h.log.size() ? h.log[i] : "(nothing)";
        if (a != b) { sim_violate(m->c->geti("ask") ? "T01.calls" : "L02.calls", "call %d of the scripts' handlers was '%s', not '%s'; before that: '%s'", int(i), show(a).c_str(), show(b).c_str(), i ? show(got[i - 1]).c_str() : ""); return false; }
    }
    sim_count("handler_calls_checked", h.log.size());
    return true;
}
bool idle(Shell& s, int t)
{
    if (!settle(s, "before idling")) return false;
    sim_sleep(ms(t));
    m->idled = m->patient = true;
    for (int i = 0; i < 8 && !g_sim->ended && !(check_coroutines(s, !m->ed.mode) && check_screen(s)); ++i) sim_sleep(ms(30000));
    m->patient = false;
    return settle(s, "after idling") && check_coroutines(s, !m->ed.mode);
}
void user_main(Shell* s)
{
    HostScope hs;
    Con& c = con_of(s->con);
    for (auto& o : m->c->ops)
    {
        if (g_sim->ended || m->ed.done) break;
        if (o.verb != "chk" && o.verb != "idle") m->idled = false;
        if (o.verb == "k") press(*s, o.arg(0));
        else if (o.verb == "w") sim_sleep(ms(o.num(0)));
        else if (o.verb == "clip") { clipboard() = widen(o.arg(0).c_str()); m->ed.clip = o.arg(0); }
        else if (o.verb == "n") noise(c, o.num(0));
        else if (o.verb == "brk") { if (!break_block(*s, o)) return; }
        else if (o.verb == "sbrk") { if (!break_sequence(*s, o)) return; }
        else if (o.verb == "cc") { if (!ctrl_c(*s)) return; }
        else if (o.verb == "size") { m->resized = true; c.resize(o.num(0), o.num(1)); }
        else if (o.verb == "idle") { if (!idle(*s, o.num(0))) return; }
        else if (o.verb == "chk") { if (!settle(*s, "while typing") || !check_lines(*s, false) || !check_hooks() || !check_screen(*s)) return; }
        sim_point("type");
        // The clipboard is read when the key is processed.
        if (o.verb == "k" && (o.arg(0) == "c-v" || o.arg(0) == "s-ins") && !settle(*s, "pasting")) return;
        if (o.verb == "k" && (o.arg(0) == "c-ins" || o.arg(0) == "s-del"))
        {
            if (!settle(*s, "copying")) return;
            string t = narrow(clipboard()); sim_count("clipboard_checked");
            if (!m->ed.mode && t != m->ed.clip) { sim_violate("E.clipboard", "the clipboard is '%s', not '%s'", show(t).c_str(), show(m->ed.clip).c_str()); return; }
        }
    }
    if (g_sim->ended) return;
    if (m->c->geti("async")) { if (!idle(*s, 25000)) return; }
    if (!settle(*s, "at the end") || !check_lines(*s, false) || !check_hooks() || !check_screen(*s)) return;
    for (int i = 0; i < 8 && m->ed.mode; ++i) press(*s, "enter");
    if (!m->ed.done) { press(*s, "end"); press(*s, "c-u"); for (char ch : string("exit 7")) press(*s, string(1, ch)); press(*s, "enter"); }
    if (!settle(*s, "exit")) return;
    if (!sim_block("exit", [s] { return !s->p->alive; }, ms(120000))) { sim_violate("E.hung", "cmd.exe does not exit"); return; }
    if (check_lines(*s, true) && check_hooks()) check_history(*s);
}

void s_run(const ::Case& c)
{
    M mm; m = &mm; m->c = &c;
    use_sched(c);
    g_sim->max_steps = 600000; g_sim->count_asserts = true;
    Shell& s = m->s[0]; s.profile = "C:\\prof"; s.con = 0;
    Con& k = con_of(0); k.init(c.geti("cols", 80), c.geti("rows", 25), c.geti("lines", 25)); k.emulate = true;
    m->banner = "Microsoft Windows\r\n\r\n";
    put(k, m->banner);
    string set;
    for (auto& i : c.cfg) if (!i.first.compare(0, 4, "set.")) set += i.first.substr(4) + " = " + i.second + "\n";
    fs_write("C:\\prof\\clink_settings", set);
    for (auto& o : c.ops) if (o.verb == "macro") { m->ed.macros[o.arg(0)] = o.arg(1); k.alias2[L"cmd.exe"][widen(o.arg(0).c_str())] = { widen(o.arg(0).c_str()), widen(o.arg(1).c_str()) }; }
    m->ed.suggest = c.geti("suggest"); m->ed.paste = c.geti("paste", 3); m->ed.dupe = c.geti("dupe", 2); m->ed.space_ok = c.geti("ignore_space", 1);
    if (!c.gets("old").empty())
    {
        fs_write("C:\\prof\\clink_history", "|CTAG_1700000000_1_1_1\n" + c.gets("old"));
        string l; for (char ch : c.gets("old")) if (ch == '\n') { if (!l.empty()) m->ed.hist.push_back(to32(l)); l.clear(); } else l += ch;
    }
    if (c.geti("faults")) m->ed.nohist = true;
    struct Due { u64 at; string text; }; std::deque<Due> due;
    if (c.geti("ask"))
    {
        std::vector<string> delays = split(c.gets("ask_delays"), ',');
        k.query_hook = [&due, delays](int n, const string& a) {
            if (n < 5000 || !m) return false;
            int d = atoi(delays[n % delays.size()].c_str());
            m->ed.hooks.promised[n] = { a, d >= 0 };
            if (d > 0) due.push_back({ g_sim->now + ms(d), a });
            sim_count(d < 0 ? "answers_lost" : d ? "answers_delayed" : "answers_at_once");
            return d != 0;
        };
    }
    if (c.geti("dirs")) { m->ed.dirs = true; m->ed.erase_dirs = c.geti("erase_dirs"); for (auto d : DIRS) fs_mkdir(d); m->ed.go(); }
    if (!c.gets("hooks").empty())
    {
        Hooks& h = m->ed.hooks; h.on = true;
        for (auto& x : split(c.gets("hooks"), ';'))
        {
            std::vector<string> p = split(x, ','); p.resize(3);
            if (p[0] == "f") h.f.push_back({ p[1], p[2] });
            if (p[0] == "h") h.h.push_back({ p[1], p[2] });
            if (p[0] == "p") h.p[atoi(p[1].c_str())] = p[2];
            if (p[0] == "k") h.fn.push_back(split(p[1], '|'));
        }
        m->ed.go();
    }
    g_sim->policy.pick = [&](const char* api, const std::wstring& path, Rng& r) -> int {
        if (!m || c.gets("fault_api") != api || cur_proc() != m->s[0].p) return 0;
        string p = narrow(path);
        if (p.find("\\prof\\") == string::npos || p.find("clink_errorlevel") != string::npos) return 0;
        string k = api;
        if (k == "write") return r.chance(0.5) ? 0x10000 + ERROR_DISK_FULL : ERROR_DISK_FULL;
        if (k == "open" || k == "find" || k == "delete" || k == "move") return ERROR_ACCESS_DENIED;
        return ERROR_IO_DEVICE;
    };
    fs_write("C:\\Windows\\system32\\cmd.exe", "MZ"); programs()["cmd.exe"] = child_main;
    if (!c.gets("lua").empty()) fs_write("C:\\work\\scripts\\sim.lua", c.gets("lua"));
    s.p = sim_new_proc("cmd", 0);
    env_set(s.p, "CLINK_ANSI_HOST", c.gets("ansi", "winterminal").c_str());
    env_set(s.p, "CLINK_PATH", "C:\\work\\scripts");
    if (c.geti("dirs")) env_set(s.p, "SIM_DIR", "C:\\top");
    int skew = int(c.geti("skew"));     // Addresses differ between processes, and with them the order of hash tables.
    sim_new_thread(s.p, "cmd", [&s, skew] { { SutScope z; for (int i = 0; i < skew; ++i) *(volatile char*)malloc(1 + i % 1500) = 0; } shell_main(&s); });
    Proc* u = m->user = sim_new_proc("user", 0); u->native = true;
    sim_new_thread(u, "user", [&s] { user_main(&s); });
    if (c.geti("ask"))
    {
        Proc* t = sim_new_proc("terminal", 0); t->native = true;
        sim_new_thread(t, "terminal", [&due, &k] {
            HostScope h;
            cur_thread_or_host()->daemon = true;
            while (!g_sim->ended)
            {
                if (!sim_block("terminal", [&due] { return !due.empty() || g_sim->ended; }, FOREVER)) continue;
                if (g_sim->ended) break;
                u64 at = due.front().at; if (at > g_sim->now) { sim_sleep(at - g_sim->now); continue; }
                string a = due.front().text; due.pop_front(); k.respond(a);
            }
        });
    }
    sim_run();
    k.query_hook = nullptr;
    if (g_sim->trace)
    {
        for (auto& l : k.scrollback) sim_note("| %s", l.c_str());
        for (int y = 0; y < k.size.Y; ++y) sim_note("|%s", k.row_text(y).c_str());
        sim_note("cursor %d,%d unknown=%s", k.cursor.X, k.cursor.Y, show(k.unknown).c_str());
        for (auto& l : s.all) sim_note("> %s", l.c_str());
        sim_note("history: %s", fs_read(strf("C:\\prof\\clink_history_%u", s.p->pid).c_str()).c_str());
        sim_note("t=%llu ms steps=%llu", g_sim->now / 1000000, g_sim->steps);
    }
    m = nullptr;
}

struct Gen
{
    Rng& r; ::Case& c; int pace; bool ascii, no_undo = false;
    void key(const string& k)
    {
        c.add(0, "k", { k });
        int w = pace == 0 ? 0 : pace == 1 ? (r.chance(0.2) ? r.range(0, 30) : 0) : pace == 2 ? r.range(0, 200) : pace == 3 ? (r.chance(0.1) ? r.range(200, 3000) : 0) : r.chance(0.5) ? r.range(0, 2) : 0;
        if (w) c.add(0, "w", { std::to_string(w) });
        if (r.chance(0.02)) c.add(0, "n", { std::to_string(r.below(40)) });
    }
    string ch()
    {
        static const char* const u[] = { "\xc3\xa9", "\xe6\xbc\xa2", "\xe5\xad\x97", "\xf0\x9f\x98\x80", "\xce\xa9", "\xc3\xbc" };
        if (!ascii && r.chance(0.08)) return u[r.below(6)];
        int k = r.below(20);
        if (k < 15) return string(1, char('a' + r.below(26)));
        if (k < 17) return " ";
        if (k < 18) return string(1, char('0' + r.below(10)));
        return string(1, ",;+=_)[]'#@$*?{}"[r.below(16)]);
    }
    string words(int n) { string s; for (int i = 0; i < n; ++i) s += ch(); return s; }
    void text(const string& s) { for (auto cp : to32(s)) key(to8(us(1, cp))); }
    void edit()
    {
        if (r.chance(0.3))
        {
            static const char* const S[] = { "s-left", "s-right", "s-left", "s-right", "s-home", "s-end", "c-ins", "s-del", "c-home", "c-end", "ins", "m-r", "undo", "s-ins", "c-y", "m-y", "m-y", "cs-left", "cs-right", "c-del", "c-left", "c-right", "m-u", "m-l" };
            string x = S[r.below(ascii ? 24 : 17)]; if (x == "undo" && (no_undo || r.chance(0.5))) return;
            for (int n = x[0] == 's' && x[2] != 'd' && x[2] != 'i' ? r.range(1, r.chance(0.2) ? 20 : 4) : 1; n > 0; --n) key(x);
            return;
        }
        static const char* const k[] = { "left", "right", "home", "end", "back", "del", "left", "left", "right", "c-a", "c-e", "c-b", "c-f", "c-k", "c-u", "c-y", "c-w", "c-t", "back", "left", "m-b", "m-f", "m-d", "c-back", "up", "down", "c-p", "c-n", "c-d", "c-v" };
        int i = r.below(30);
        if (!ascii && i >= 20 && i <= 23) i = r.below(10);
        string x = k[i];
        int n = i < 9 || i == 18 || i == 19 ? r.range(1, r.chance(0.2) ? 30 : 5) : i >= 24 && i <= 27 ? r.range(1, 4) : 1;
        for (; n > 0; --n) key(x);
    }
};
// Scripts that do things while lines are edited, but that change nothing.
string scripts(Rng& r)
{
    string s;
    if (r.chance(0.4)) s += strf("local f = clink.promptfilter(%d)\nfunction f:filter(p) clink.promptcoroutine(function() for i = 1, %d do coroutine.yield() end end) end\n", r.range(1, 90), r.range(0, 5));
    if (r.chance(0.3)) s += "clink.onbeginedit(function() sim_x = (sim_x or 0) + 1 end)\nclink.onendedit(function(l) end)\nclink.onfilterinput(function(l) end)\n";
    if (r.chance(0.3)) s += strf("clink.onbeginedit(function() local c = coroutine.create(function() for i = 1, %d do coroutine.yield() end end) clink.addcoroutine(c, %s) end)\n", r.range(1, 20), r.chance(0.5) ? "0" : "0.05");
    if (r.chance(0.3)) s += "local c = clink.classifier(1)\nfunction c:classify(cmds) for _, x in ipairs(cmds) do x.classifications:classifyword(1, 'o') end end\n";
    if (r.chance(0.3)) s += strf("local i = clink.promptfilter(%d)\nfunction i:filter(p) return p end\n", r.range(1, 90));
    if (r.chance(0.2)) s += "clink.onprovideline(function() end)\n";
    if (r.chance(0.2)) s += strf("local h = clink.hinter(1)\nfunction h:gethint(l) end\nclink.onbeginedit(function() clink.refilterprompt() end)\n");
    return s;
}
// Scripts that run commands in the background, and report what became of them.
string async_scripts(Rng& r, ::Case& c)
{
    string s = R"(
local n = 0
local function log(s) local f = io.open("C:\\work\\log.txt", "a") f:write(s.."\n") f:close() end
local function expect(id, lines, eol) local t = {} for i = 0, lines - 1 do t[#t + 1] = id..":"..i..eol end return table.concat(t) end
local function run(id, lines, chunk, delay, linger, rc, mode, close)
  log("start "..id)
  local f, pclose = io.popenyield(string.format("out %s %d %d %d %d %d", id, lines, chunk, delay, linger, rc), mode)
  if not f then log("failed "..id) return end
  local s = f:read("*a")
  if s ~= expect(id, lines, mode == "rb" and "\r\n" or "\n") then log("bad "..id.." output "..#s.." bytes: "..string.format("%q", s:sub(1, 300)):gsub("[\r\n]", "~")) return end
  if close and pclose then
    local ok, what, code = pclose()
    if what ~= "exit" or code ~= rc or (ok and true or false) ~= (rc == 0) then log("bad "..id.." status "..tostring(ok).." "..tostring(what).." "..tostring(code)) return end
  else f:close() end
  log("done "..id)
end
local function exec(id, rc)
  log("start "..id)
  local ok, what, code = os.execute("out "..id.." 0 10 0 0 "..rc)
  if code == -1 and what == "exit" then log("failed "..id) return end
  if what ~= "exit" or code ~= rc or (ok and true or false) ~= (rc == 0) then log("bad "..id.." execute "..tostring(ok).." "..tostring(what).." "..tostring(code)) return end
  log("done "..id)
end
local function ticks(id, count)
  log("start "..id)
  for i = 1, count do coroutine.yield() end
  log("done "..id)
end
)";
    int k = r.below(4); c.seti("async", std::max(1, k));
    for (int i = 1; i <= std::max(1, k); ++i)
    {
        s += strf("local p%d = clink.promptfilter(%d)\nfunction p%d:filter(p)\n  local v = clink.promptcoroutine(function()\n", i, 80 + i, i);
        if (r.chance(0.8)) s += strf("    local f = io.popen('say '..os.getenv('SIM_N')..' %d') if not f then return end local l = f:read('*l') f:close() return l\n", r.chance(0.3) ? 0 : r.range(0, 1500));
        else s += strf("    local l = os.getenv('SIM_N') for i = 1, %d do coroutine.yield() end return l\n", r.range(0, 10));
        s += strf("  end)\n  return p..'[%d'..(v and '=' or '?')..os.getenv('SIM_N')..']'..(v and v ~= os.getenv('SIM_N') and 'BAD'..v or '')\nend\n", i);
    }
    s += "clink.onbeginedit(function()\n  n = n + 1\n  local n, c = n\n";
    for (int i = r.below(4); i > 0; --i)
    {
        int z = r.below(10); bool until = r.chance(0.3);
        string id = strf("n..'.%d%s'", i, until ? "u" : "");
        if (z < 6) s += strf("  c = coroutine.create(function() run(%s, %d, %d, %d, %d, %d, '%s', %s) end)\n", id.c_str(), r.chance(0.7) ? r.range(0, 60) : r.range(200, 1500), r.chance(0.5) ? 5000 : r.range(100, 3000), r.range(0, 60), r.chance(0.3) ? r.range(1, 800) : 0, r.chance(0.5) ? 0 : r.range(1, 255), r.chance(0.5) ? "rb" : "r", r.chance(0.5) ? "true" : "false");
        else if (z < 8) s += strf("  c = coroutine.create(function() exec(%s, %d) end)\n", id.c_str(), r.chance(0.5) ? 0 : r.range(1, 255));
        else s += strf("  c = coroutine.create(function() ticks(%s, %d) end)\n", id.c_str(), r.range(1, 20));
        if (until) s += "  clink.runcoroutineuntilcomplete(c)\n";
        if (z >= 8 && r.chance(0.5)) s += strf("  clink.setcoroutineinterval(c, 0.%d)\n", r.range(1, 9));
    }
    s += "end)\n";
    return s;
}
// Scripts that decide about lines.  "hooks" says the same for the model.
string hook_scripts(Rng& r, ::Case& c, Gen& g)
{
    string s = "local function log(s) local f = io.open('C:\\\\work\\\\log.txt', 'a') f:write(s..'\\n') f:close() end\nclink.onbeginedit(function() log('b') end)\nclink.onendedit(function(l) log('e|'..l) end)\n", spec = "on";
    static const char* const F[] = { "append", "append", "stop", "drop", "table", "none", "error" };
    int n = r.below(4);
    for (int i = 1; i <= n; ++i)
    {
        string k = F[r.below(7)], a = k == "append" ? strf(" F%d", i) : k == "stop" ? "q" : k == "error" ? "x" : "";
        string body;
        if (k == "none" && c.geti("dirs")) { k = "cdtable"; a = strf(" %d", i); body = "if l:sub(1, 3) == ' cd' then return { l, 'echo after" + a + "' }, false end"; }
        if (k == "append") body = "if l:sub(1, 4) == 'echo' then return l..'" + a + "' end";
        if (k == "stop") body = "if l:find('q', 1, true) then return l..'S', false end";
        if (k == "drop") body = "if l:sub(1, 4) == 'drop' then return '' end";
        if (k == "error") body = "if l:find('x', 1, true) then error('handler') end";
        if (k == "table")
        {
            static const char* const T[] = { "echo t1*", "echo t2", "gg t3", "", "ask t4", "fail 4", "m3 x", "m2 t5*", "wait 20", "true" };
            body = "if l:sub(1, 5) == 'split' then local r = l:sub(6) return {";
            for (int j = r.range(1, 6); j > 0; --j) { string x = T[a.empty() ? r.below(9) : r.below(10)]; if (!a.empty()) a += "|"; else if (x.empty()) x = "echo t0"; a += x; string y; for (char ch : x) if (ch == '*') y += "'..r..'"; else y += ch; body += x == "true" ? "true, " : "'" + y + "', "; }
            body += "}, false end";
        }
        s += strf("clink.onfilterinput(function(l) log('f%d|'..l) ", i) + body + " end)\n";
        spec += ";f," + k + "," + a;
    }
    n = r.below(3);
    for (int i = 1; i <= n; ++i)
    {
        static const char* const H[] = { "append", "cancel", "none", "error" };
        string k = H[r.below(4)], a = k == "append" ? strf(" H%d", i) : k == "cancel" ? "k" : k == "error" ? "w" : "", body;
        if (k == "append") body = "if l:sub(1, 4) == 'echo' then return l..'" + a + "' end";
        if (k == "cancel") body = "if l:find('k', 1, true) then return false end";
        if (k == "error") body = "if l:find('w', 1, true) then error('handler') end";
        s += strf("clink.onhistory(function(l) log('h%d|'..l) ", i) + body + " end)\n";
        spec += ";h," + k + "," + a;
    }
    s += "local p, t = 0, {}\n";
    if (r.chance(0.6)) for (int i = r.range(1, 4), at = 0; i > 0; --i)
    {
        static const char* const T[] = { "echo given", "gg given", "split", "drop it", "ask given", "m3 x", "fail 5", "echo q" };
        static const char* const D[] = { "cd alpha", "..", "C:\\top\\", "-", "cd -", "cd C:\\temp" };
        at += r.chance(0.4) ? 1 : r.range(1, 5); string x = T[r.below(8)], y; if (c.geti("dirs") && r.chance(0.6)) x = D[r.below(6)];
        for (char ch : x) { if (ch == '\\') y += ch; y += ch; }
        s += strf("t[%d] = '%s'\n", at, y.c_str()); spec += strf(";p,%d,%s", at, x.c_str());
    }
    s += "clink.onprovideline(function() p = p + 1 log('p'..p) return t[p] end)\nclink.onprovideline(function() if t[p] then log('second') end end)\n";
    for (int i = 0, n = r.below(4); i < n; ++i)
    {
        string f;
        s += strf("function sim_key%d(b)\n", i); spec += ";k,";
        for (int j = r.range(1, 6); j > 0; --j)
        {
            string o; int z = r.below(8);
            if (z < 3) { o = "i" + string(1, char('a' + r.below(26))) + (r.chance(0.5) ? " bc" : ""); s += "  b:insert('" + o.substr(1) + "')\n"; }
            else if (z < 5) { int x = r.range(1, r.chance(0.2) ? 300 : 20); o = strf("c%d", x); s += strf("  b:setcursor(%d)\n", x); }
            else if (z < 6) { int x = r.range(1, r.chance(0.2) ? 300 : 20), y = r.range(1, 20); o = strf("r%d:%d", x, y); s += strf("  b:remove(%d, %d)\n", x, y); }
            else if (z < 7) { o = "l"; s += "  log('l|'..b:getbuffer()..'|'..b:getlength()..'|'..b:getcursor())\n"; }
            else { o = "n"; s += r.chance(0.5) ? "  b:beginundogroup()\n" : "  b:endundogroup()\n"; }
            f += (f.empty() ? "" : "|") + o;
        }
        s += strf("end\nrl.setbinding([[\"\\e[%d;5~\"]], [[\"luafunc:sim_key%d\"]])\n", i ? 16 + i : 15, i);
        spec += f; g.ascii = true;
    }
    c.sets("hooks", spec);
    return s;
}
// Scripts that ask the terminal things.
string ask_scripts(Rng& r, ::Case& c, Gen& g)
{
    string s = R"(
local function log(s) local f = io.open('C:\\work\\log.txt', 'a') f:write(s..'\n') f:close() end
clink.onbeginedit(function() log('b') end)
clink.onendedit(function(l) log('e|'..l) end)
local calls = 0
clink.onprovideline(function() calls = calls + 1 log('p'..calls) end)
local id = 5000
local function ask(tag, kind, timeout)
  id = id + 1
  local n, a = id
  if kind == 1 then a = console.sendterminalrequest('\x1b[?'..n..'$p', '\x1b[?'..n, 'y', timeout)
  elseif kind == 2 then a = console.sendterminalrequest('\x1b]4;'..n..';?\x1b\\', '\x1b]4;'..n, nil, timeout)
  elseif kind == 3 then a = console.sendterminalrequest('\x1bP+q'..n..'\x1b\\', '\x1bP', nil, timeout)
  else a = console.sendterminalrequest('\x1b[?'..n..'$p', '\x1b[', 'y', timeout) end
  log(tag..'|'..n..'|'..(a and a:gsub('.', function(c) return string.format('%02x', c:byte()) end) or 'nil'))
end
)", spec = "on", d;
    c.seti("ask", 1); g.ascii = r.chance(0.5); g.no_undo = true; // (Takes longer than settle() waits once the keys were read.)
    // An answer takes at most half of the shortest time that a request waits, or doesn't come.
    for (int i = r.range(1, 7); i > 0; --i) { if (!d.empty()) d += ","; d += std::to_string(r.chance(0.15) ? -1 : r.chance(0.3) ? 0 : r.chance(0.5) ? r.range(1, 20) : r.range(20, 120)); }
    c.sets("ask_delays", d);
    auto req = [&](const char* tag) { return strf("ask('%s', %d%s)", tag, r.range(1, 4), r.chance(0.6) ? "" : strf(", %s", r.chance(0.5) ? "0.25" : "1").c_str()); };
    for (int i = 0, n = r.range(1, 4); i < n; ++i)
    {
        string f; s += strf("function sim_key%d(b)\n", i); spec += ";k,";
        for (int j = r.range(1, 3); j > 0; --j)
        {
            string o = "t"; if (r.chance(0.7)) s += "  " + req("t") + "\n"; else { o = "i" + string(1, char('a' + r.below(26))); s += "  b:insert('" + o.substr(1) + "')\n"; }
            f += (f.empty() ? "" : "|") + o;
        }
        s += strf("end\nrl.setbinding([[\"\\e[%d;5~\"]], [[\"luafunc:sim_key%d\"]])\n", i ? 16 + i : 15, i); spec += f;
    }
    if (r.chance(0.3)) s += "clink.onbeginedit(function() " + req("u") + " end)\n";
    if (r.chance(0.3)) s += strf("local p = clink.promptfilter(%d)\nfunction p:filter() ", r.range(1, 90)) + req("u") + " end\n";
    if (r.chance(0.5)) s += strf("clink.onbeginedit(function() clink.addcoroutine(coroutine.create(function() for i = 1, %d do ", r.range(1, 6)) + req("u") + " coroutine.yield() end end)" + strf(", 0.%d) end)\n", r.range(1, 9));
    if (r.chance(0.2)) s += "clink.onendedit(function() " + req("u") + " end)\n";
    c.sets("hooks", spec);
    return s;
}
void s_generate(Rng& r, ::Case& c, int tier)
{
    gen_sched(r, c, false);
    if (r.chance(0.5)) c.sets("p_bb", "0");
    if (r.chance(0.7)) c.seti("skew", r.below(200));
    Gen g{ r, c, int(r.below(5)), r.chance(0.5) };
    static const int W[] = { 80, 80, 40, 27, 120 }, H[] = { 25, 25, 12, 40 };
    c.seti("cols", W[r.below(5)]); int rows = H[r.below(4)]; c.seti("rows", rows);
    c.seti("lines", r.chance(0.7) ? rows : r.range(rows, 300));
    static const char* const P[] = { "$p$g", "$p$g", "$p$_$g$s", "$e[32m$p$e[m$g ", "" };
    c.sets("prompt", P[r.below(4)]);
    c.sets("ansi", r.chance(0.5) ? "winterminal" : "clink");
    int focus = c.geti("focus", 0); if (!focus) c.seti("focus", focus = r.range(1, 6));
    c.sets("set.autosuggest.enable", "False");
    c.sets("set.clink.autoupdate", "off");
    if (focus == 1 && r.chance(0.3)) { c.sets("set.autosuggest.enable", "True"); c.seti("suggest", 1); }
    static const char* const PC[] = { "delete", "space", "ampersand", "crlf" };
    int pc = r.chance(0.6) ? 3 : r.below(4); c.seti("paste", pc); c.sets("set.clink.paste_crlf", PC[pc]);
    if (pc != 2) // (No modelling of macros after an ampersand.)
    {
    c.add(0, "macro", { "gg", focus == 6 ? "echo one $*" : "echo one $*$Techo two $*" });  // (The prompt between them is not filtered again.)
    c.add(0, "macro", { "m2", "echo $*" });
    if (focus != 6) c.add(0, "macro", { "m3", "ask m$Tanswer $*$Tfail 3$Techo e" });
    }
    if (r.chance(0.5)) c.add(0, "w", { std::to_string(r.range(0, 4000)) });
    string lua;
    if (focus == 4) { c.seti("seen", 1); lua += "local e = clink.promptfilter(1)\nfunction e:filter(p) os.setenv('SIM_SEEN', tostring(os.geterrorlevel())) end\n"; }
    if (focus == 8 && (c.geti("dirs") || r.chance(0.3))) c.seti("dirs", 1);
    if (focus == 8) { lua += hook_scripts(r, c, g); }
    if (focus == 9) { lua += ask_scripts(r, c, g); c.sets("ansi", "winterminal"); }
    if (focus == 7)
    {
        c.seti("dirs", 1); c.seti("erase_dirs", r.below(2)); c.sets("set.directories.dupe_mode", c.geti("erase_dirs") ? "erase_prev" : "add");
        if (r.chance(0.5)) c.add(0, "macro", { "gd", "cd alpha$Techo in$Tcd .." });
        if (r.chance(0.5)) { c.add(0, "macro", { "up", ".." }); c.add(0, "macro", { "mp", "-" }); }
        if (r.chance(0.2)) c.add(0, "macro", { "cd", "cd $*" });
        static const char* const GO[] = { "C:\\\\top", "C:\\\\temp", "D:\\\\data", "C:\\\\work\\\\alpha\\\\beta" };
        if (r.chance(0.4)) { lua += strf("local function go() os.chdir('%s') end\nclink.onbeginedit(go)\nclink.onendedit(go)\nclink.onfilterinput(go)\nlocal g = clink.promptfilter(%d)\nfunction g:filter() go() end\n", GO[r.below(4)], r.range(1, 90)); }
    }
    if (focus == 5 || focus == 7 || focus == 8)
    {
        static const char* const D[] = { "add", "ignore", "erase_prev" };
        c.seti("hist", 1); if (r.chance(0.6)) { string h; for (int i = r.range(1, 8); i > 0; --i) h += r.chance(0.6) ? strf("echo %c\n", 'a' + r.below(3)) : g.words(r.range(1, 10)) + "\n"; c.sets("old", h); }
        int d = r.below(3); c.seti("dupe", d); c.sets("set.history.dupe_mode", D[d]); c.seti("ignore_space", r.below(2)); c.sets("set.history.ignore_space", c.geti("ignore_space") ? "True" : "False");
    }
    if (focus == 6) { lua += async_scripts(r, c); static const char* const P6[] = { "$p$g", "$p$g", "$p$_$g$s" }; c.sets("prompt", P6[r.below(3)]); }
    else if (r.chance(0.35)) lua += scripts(r);
    c.sets("lua", lua);
    if (focus == 1 && r.chance(0.3))
    {
        static const char* const A[] = { "open", "read", "write", "find", "LockFileEx", "delete", "move", "mkdir", "truncate" };
        if (!c.cfg.count("fault_api")) c.sets("fault_api", A[r.below(9)]);
        static const char* pf[] = { "0.05", "0.2", "0.5" }; c.sets("p_fault", pf[r.below(3)]); c.seti("faults", r.range(1, 6));
        pc = 3; c.seti("paste", pc); c.cfg.erase("set.clink.paste_crlf");
    }
    int n = focus == 7 ? r.range(2, 14) : r.range(1, tier ? 10 : 6);
    string prev = "echo";
    for (int i = 0; i < n; ++i)
    {
        if (focus == 3 && r.chance(0.7))
        {
            if (r.chance(0.25))
            {
                static const char* const P[] = { "c-x", "m-3", "c-r", "c-q", "esc", "c-s", "f2", "f4", "f7", "f9", "m-h", "c-x" };
                c.add(0, "sbrk"); Op& b = c.ops.back(); for (int k = r.below(4); k > 0; --k) b.a.push_back(string(1, char('a' + r.below(26))));
                b.a.push_back(P[r.below(12)]); if (b.a.back() == "c-r" && r.chance(0.5)) b.a.push_back("e");
            }
            else if (r.chance(0.4)) { if (r.chance(0.5)) g.text(g.words(r.range(0, 10))); if (r.chance(0.3)) g.key("left"); c.add(0, "cc"); }
            else
            {
                // (What is left of an interrupted line mustn't be a macro or a command that reads input.)
                string t; int q = r.range(0, 5), len = 0;
                for (int j = 0; j < q; ++j) { string w; int k = r.below(12); for (int x = 0; x < k; ++x) w += r.chance(0.2) ? ' ' : "bcfhjlnpqrstvwyzaou"[r.below(19)]; t += (r.chance(0.25) ? strf("wait %d", r.range(0, 800)) : "echo " + w) + "\r"; }
                len = int(t.size());
                c.add(0, "brk", { t, std::to_string(r.chance(0.7) ? r.range(0, len) : 100000), std::to_string(r.chance(0.6) ? r.range(0, 20) : r.range(0, 1500)), std::to_string(r.below(4) ? 1 : 0), std::to_string(r.chance(0.5)), std::to_string(r.chance(0.7) ? 0 : r.range(1, 30)), r.chance(0.3) ? string("echo unfinished") : string(), std::to_string(r.chance(0.6) ? r.range(1, 2500) : 0) });
                ::Op& b = c.ops.back(); if (b.num(4) && r.chance(0.6)) { b.a.push_back("1"); b.a[7] = std::to_string(r.range(0, r.chance(0.7) ? 60 : 300)); }
            }
            if (r.chance(0.2) && !g.no_undo) g.key("undo");
            if (r.chance(0.5)) continue;
        }
        if (focus == 5 && r.chance(0.2)) { g.text(strf("echo %c", 'a' + r.below(3))); g.key("enter"); if (r.chance(0.5)) continue; }
        if (focus == 5 && r.chance(0.35)) { g.text(prev); g.key("enter"); if (r.chance(0.5)) continue; }
        if (focus == 5 && r.chance(0.1)) g.text(" ");
        int z = r.below(100);
        if (focus == 7 && r.chance(0.75))
        {
            static const char* const T[] = { "..", "...", "....", "..\\", ".../", "..\\..", "../..", "..\\..\\", "alpha\\", "alpha/", "alpha\\beta\\", ".\\alpha\\", "C:\\top\\", "/top/low/", "\"my dir\\\"", "\"my dir\"\\", "my dir\\", "nosuch\\", "alpha", "cd alpha", "cd \"my dir\"", "cd -", "cd -", "-", "-", "chdir -", "cd /d -", "cd/d -", "cd-", "cd..", "cd\\", "cd D:\\data", "cd /d D:\\data", "D:", "C:", "D:\\", "D:\\data\\", "C:\\", "\\", ".", ".\\", "%sim_dir%\\", "%SIM_DIR%\\low\\", "C:\\work\\", "dir\\", "a+b\\", "\"a+b\\\"", "\xc3\xa9t\xc3\xa9\\", "gd", "up", "mp", "cd nosuch", "..x", "alpha\\..\\", "echo.", "chdir ..", "C:\\work\\alpha\\" };
            if (r.chance(0.06)) { g.key("c-pgup"); continue; }
            string t = T[r.below(sizeof T / sizeof *T)];
            if (r.chance(0.08)) t = (r.chance(0.5) ? " " : "  ") + t; if (r.chance(0.08)) t += " ";
            if (r.chance(0.05)) t.insert(r.below(int(t.size()) + 1), g.ascii ? g.ch() : "x");
            g.text(t); g.key("enter"); if (r.chance(0.9)) continue;
        }
        else if (focus == 8 && c.geti("dirs") && r.chance(0.5)) { static const char* const T[] = { "cd -", "..", "alpha\\", "C:\\top\\", "-", "chdir -", " cd alpha" }; g.text(T[r.below(7)]); }
        else if (focus == 8 && r.chance(0.3)) { g.text(r.chance(0.6) ? "split" + g.words(r.below(4)) : "drop" + g.words(r.below(4))); }
        else if (z < 45) g.text("echo " + g.words(r.range(0, r.chance(0.15) ? 200 : 20)));
        else if (z < 60) g.text(g.words(r.range(0, 12)));
        else if (z < 65) { g.text("gg " + g.words(r.range(0, 6))); }
        else if (z < 68) g.text(focus == 9 ? "fail 9" : "m3 x");
        else if (z < 71) g.text("m2 " + g.words(3));
        else if (z < 78 && focus == 9) g.text("echo " + g.words(r.range(0, 20)));    // (What a command reads isn't judged: it may have been read while a request waited.)
        else if (z < 78) { g.text(strf("ask q%d", i)); g.key("enter"); g.text(g.words(r.range(0, 8))); if (r.chance(0.3)) g.key("back"); }
        else if (z < 84) g.text(strf("wait %d", r.range(0, 2000)));
        else if (z < 88) { static const char* const B[] = { "-1", "-1073741510", "2147483647", "-2147483648", "3221225786", "9009", "65536", "256" }; g.text(r.chance(0.3) ? strf("fail %s", B[r.below(8)]) : strf("fail %d", r.range(1, 300))); }
        else if (z < 92) g.text(strf("lines %d", r.range(1, 30)));
        else
        {
            string t = (r.chance(0.5) ? "echo " : "") + g.words(r.range(0, 10));
            int q = r.below(4);
            for (int j = 0; j < q; ++j) t += (r.chance(0.8) ? "\r\n" : "\n") + string(r.chance(0.7) ? "echo p" : r.chance(0.3) && focus != 9 ? "ask p" : r.chance(0.3) && pc != 2 ? "gg z" : "") + g.words(r.range(0, 6)) + (focus == 1 && r.chance(0.06) ? string("q") + g.words(r.range(200, 5000)) : string());
            if (r.chance(0.4)) t += "\r\n";
            c.add(0, "clip", { t });
            if (r.chance(0.3)) g.text(g.words(4));
            g.key("c-v");
        }
        if ((focus == 5 || focus == 2) && r.chance(0.15)) { string t = r.chance(0.5) ? prev.substr(0, r.range(1, 6)) : r.chance(0.5) ? strf("%c", 'a' + r.below(5)) : g.words(r.range(1, 4)); g.key("end"); g.key("c-u"); if (r.chance(0.5)) { g.text(t); g.key(strf("hs-%d", r.range(1, 4))); } else g.key(strf("rs-%d-%s", r.below(4), t.c_str())); }
        if (r.chance(0.5)) { int e = r.range(1, 12); for (int j = 0; j < e; ++j) { if (r.chance(0.6)) g.edit(); else g.text(g.ch()); } }
        if (focus == 9) for (int j = r.range(1, 5); j > 0; --j) { g.key(strf("lf-%d", r.below(4))); if (r.chance(0.3)) c.add(0, "w", { std::to_string(r.range(0, 1500)) }); if (r.chance(0.6)) { g.text(g.words(r.range(1, 10))); if (r.chance(0.4)) g.edit(); } }
        if (focus == 8) for (int j = r.below(4); j > 0; --j) g.key(strf("lf-%d", r.below(4)));
        if (r.chance(0.15)) c.add(0, "chk");
        g.key("enter");
        if (r.chance(0.1)) c.add(0, "chk");
        if (focus == 6 && r.chance(0.4)) { c.add(0, "idle", { std::to_string(r.chance(0.5) ? 25000 : r.range(15000, 30000)) }); c.add(0, "chk"); }
        else if (focus == 6 && r.chance(0.5)) c.add(0, "w", { std::to_string(r.range(0, 3000)) });
    }
}
void s_boot()
{
    string real = string("Z:") + CLINK_BUILD_ROOT + "/../..", sim = CLINK_BUILD_ROOT; 
    for (auto& ch : real) if (ch == '/') ch = '\\';
    size_t cut = sim.rfind("/.build"); sim = "C:" + sim.substr(0, cut);
    for (auto& ch : sim) if (ch == '/') ch = '\\';
    for (auto d : { "\\clink\\lua\\scripts", "\\clink\\app\\scripts" }) fs_preload_real((real + d).c_str(), (sim + d).c_str());
    fs_mkdir("C:\\work\\scripts"); fs_mkdir("C:\\prof");
    fs_snapshot_base();
}
RegScenario s_reg("session", "E01,E02,E03,E04,E05,H05,L01,L02,T01", s_generate, s_run, s_boot);

} // namespace
