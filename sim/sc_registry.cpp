// `clink autorun` and `clink installscripts`, on a simulated registry, with processes dying
// and registry calls failing.
#include "sc_common.h"
int32 loader(int32 argc, char** argv);

namespace {

const wchar_t* const KEYS[] = {
    L"hku\\s-1-5-21-1001\\software\\microsoft\\command processor",    // Current user.
    L"hklm\\software\\microsoft\\command processor",
    L"hklm\\software\\wow6432node\\microsoft\\command processor",
    L"hku\\s-1-5-21-2002\\software\\microsoft\\command processor",    // Another user.
};
const wchar_t* const SKEY = L"hku\\s-1-5-21-1001\\software\\clink";
struct V { bool set; string v; };

V reg_get(const wchar_t* key, const wchar_t* name)
{
    V r{ false, "" };
    auto k = registry().keys.find(key); if (k == registry().keys.end()) return r;
    auto i = k->second.values.find(name); if (i == k->second.values.end()) return r;
    std::wstring w((const wchar_t*)i->second.second.data(), i->second.second.size() / 2);
    if (w.find(L'\0') != std::wstring::npos) w.resize(w.find(L'\0'));
    r.set = true; r.v = narrow(w); return r;
}
void reg_set(const wchar_t* key, const wchar_t* name, const string& v, DWORD type, bool term)
{
    std::wstring k(key);
    for (size_t i = k.find(L'\\'); i != std::wstring::npos; i = k.find(L'\\', i + 1)) registry().keys[k.substr(0, i)];
    std::wstring w = widen(v.c_str());
    registry().keys[k].values[name] = { type, string((const char*)w.c_str(), (w.size() + (term ? 1 : 0)) * 2) };
}
string trim(string s) { while (!s.empty() && isspace((unsigned char)s.back())) s.pop_back(); size_t a = 0; while (a < s.size() && isspace((unsigned char)s[a])) ++a; return s.substr(a); }
// The commands that cmd.exe would run.
std::vector<string> commands(const string& v)
{
    std::vector<string> out; string cur; bool q = false;
    for (size_t i = 0; i < v.size(); ++i)
    {
        if (!q && v[i] == '^' && i + 1 < v.size()) { cur += v[i]; cur += v[++i]; continue; }
        if (v[i] == '"') q = !q;
        if (v[i] == '&' && !q) { if (!trim(cur).empty()) out.push_back(trim(cur)); cur.clear(); continue; }
        cur += v[i];
    }
    if (!trim(cur).empty()) out.push_back(trim(cur));
    return out;
}
// Is this a command that starts clink?  From which directory?
bool is_clink(const string& c, string* dir = nullptr)
{
    size_t i = c.find(" inject"); if (i == string::npos) return false;
    string p = c.substr(0, i);
    if (p.size() > 1 && p[0] == '"' && p.back() == '"') p = p.substr(1, p.size() - 2);
    size_t s = p.find_last_of("\\/"); string name = s == string::npos ? p : p.substr(s + 1);
    if (dir) *dir = s == string::npos ? "" : p.substr(0, s);
    for (auto n : { "clink", "clink.bat", "clink_x64.exe", "clink_x86.exe", "clink_arm64.exe" }) if (name == n) return true;
    return false;
}
std::vector<string> others(const string& v) { auto c = commands(v); std::vector<string> r; for (auto& x : c) if (!is_clink(x)) r.push_back(x); return r; }
int clinks(const string& v) { int n = 0; for (auto& x : commands(v)) n += is_clink(x); return n; }
string lower(string s) { for (auto& c : s) { if (c >= 'A' && c <= 'Z') c += 32; if (c == '/') c = '\\'; } return s; }
string joined(const std::vector<string>& v) { string r; for (auto& x : v) r += (r.empty() ? "" : " | ") + x; return "[" + r + "]"; }
std::vector<string> split(const string& s, char d) { std::vector<string> v; size_t a = 0; for (;;) { size_t b = s.find(d, a); if (b == string::npos) b = s.size(); if (b > a) v.push_back(s.substr(a, b - a)); if (b >= s.size()) break; a = b + 1; } return v; }

struct M { const ::Case* c; string exe, dir; bool killed = false; int rc = 0; string out; std::vector<string> list; } *m;

// Runs the real command line in a new process.
void cli(const std::vector<string>& args)
{
    const std::vector<string>* a = &args;
    m->rc = -1; m->killed = false;
    child_proc("clink", [a] {
        _pgmptr = (char*)m->exe.c_str();
        redirect_out(L"C:\\work\\out.txt");
        const char* av[40]; int n = 0; av[n++] = "clink";
        for (auto& x : *a) if (n < 39) av[n++] = x.c_str();
        av[n] = nullptr;
        int rc = loader(n, (char**)av);
        fflush(stdout);
        { HostScope hs; m->rc = rc; }
    });
    m->out = fs_read("C:\\work\\out.txt");
}

string quoted_args(const std::vector<string>& a, size_t from, bool& bad)
{
    string r; bad = false;
    for (size_t i = from; i < a.size(); ++i)
    {
        const string& x = a[i];
        bool space = x.find(' ') != string::npos;
        size_t q = x.find('"');
        if ((space || x.find_first_of("/\\") != string::npos) && q != string::npos && q > 0 && q + 1 == x.size()) { bad = true; return ""; }
        if (i > from) r += " ";
        if (!space) { r += x; continue; }
        size_t b = 0; while (b < x.size() && x[x.size() - 1 - b] == '\\') ++b;
        r += "\"" + x + string(b, '\\') + "\"";
    }
    return r;
}

void do_autorun(const Op& o)
{
    bool faulty = m->c->geti("faults") != 0;
    V was[4]; for (int i = 0; i < 4; ++i) was[i] = reg_get(KEYS[i], L"autorun");
    bool all = o.num(0) == 1, enumu = o.num(0) == 2;
    std::vector<string> args{ "autorun" };
    if (all && o.num(1) % 2) args.push_back("--allusers");
    args.push_back(o.verb);
    if (all && o.num(1) % 2 == 0) args.push_back("-a");
    if (enumu) args.push_back("--enumusers");
    for (size_t i = 2; i < o.a.size(); ++i) { if (i == 2) args.push_back("--"); args.push_back(o.a[i]); }
    string what = "clink"; for (auto& x : args) what += " " + x;
    cli(args);
    if (g_sim->ended) return;
    bool died = m->killed, ok = !died && m->rc == 0, certain = !died && !faulty;
    V now[4]; for (int i = 0; i < 4; ++i) now[i] = reg_get(KEYS[i], L"autorun");
    bool target[4] = { !all, all, all, enumu };
    bool denied = all && m->c->geti("admin") == 0;
    if (denied) target[1] = target[2] = false;
    string outc = died ? "killed" : m->rc == 0 ? "succeeded" : "failed";
    bool bad; string qa = quoted_args(o.a, 2, bad);
    for (int i = 0; i < 4; ++i)
    {
        const string& a = was[i].v; const string& b = now[i].v;
        if (!target[i] || o.verb == "show" || bad)
        {
            if (was[i].set != now[i].set || a != b) { sim_violate("A.other", "'%s' (%s) changed AutoRun of %s from '%s' to '%s'", what.c_str(), outc.c_str(), narrow(KEYS[i]).c_str(), a.c_str(), b.c_str()); return; }
            continue;
        }
        if (o.verb == "set")
        {
            if (ok && (qa.empty() ? now[i].set : b != qa)) { sim_violate("A.set", "'%s' succeeded, AutoRun is '%s', not '%s'", what.c_str(), b.c_str(), qa.c_str()); return; }
            if (!ok && b != a && b != qa) { sim_violate("A.set", "'%s' %s, AutoRun is '%s'", what.c_str(), outc.c_str(), b.c_str()); return; }
            continue;
        }
        if (others(a) != others(b)) { sim_violate("A.lost", "'%s' (%s) changed the other commands of AutoRun: '%s' became '%s'", what.c_str(), outc.c_str(), a.c_str(), b.c_str()); return; }
        int n0 = clinks(a), n1 = clinks(b);
        if (n0 > 1) continue;
        if (o.verb == "install")
        {
            string want = "\"" + m->dir + "\\clink.bat\" inject --autorun" + (qa.empty() ? "" : " " + qa);
            auto c = commands(b);
            if (ok && (n1 != 1 || c.back() != want)) { sim_violate("A.install", "'%s' succeeded, AutoRun '%s' became '%s', which does not end with '%s'", what.c_str(), a.c_str(), b.c_str(), want.c_str()); return; }
            if (n1 > 1) { sim_violate("A.install", "'%s' (%s) made AutoRun start clink twice: '%s'", what.c_str(), outc.c_str(), b.c_str()); return; }
        }
        else
        {
            string dir; bool mine = false;
            for (auto& x : commands(a)) if (is_clink(x, &dir)) mine = lower(dir) == lower(m->dir);
            bool gone = n0 && (!enumu || mine);
            if (ok && certain && n1 != (gone ? 0 : n0)) { sim_violate("A.uninstall", "'%s' succeeded, AutoRun '%s' became '%s'", what.c_str(), a.c_str(), b.c_str()); return; }
            if (ok && !enumu && n1) { sim_violate("A.uninstall", "'%s' succeeded, AutoRun '%s' became '%s'", what.c_str(), a.c_str(), b.c_str()); return; }
            if (!gone && a != b) { sim_violate("A.uninstall", "'%s' (%s) changed AutoRun '%s' to '%s'", what.c_str(), outc.c_str(), a.c_str(), b.c_str()); return; }
            if (ok && now[i].set && trim(b).empty() && !trim(a).empty()) { sim_violate("A.uninstall", "'%s' left an empty AutoRun", what.c_str()); return; }
        }
    }
    if (certain && !(o.verb == "set" && qa.empty()) && !(enumu) && m->rc != int(denied && o.verb != "show" ? 1 : bad && o.verb != "uninstall" && o.verb != "show" ? 1 : 0))
    { sim_violate("A.result", "'%s' returned %d: %s", what.c_str(), m->rc, show(m->out).c_str()); return; }
    if (o.verb == "show" && ok && !faulty)
        for (int i = 0; i < 3; ++i) if (was[i].set && !was[i].v.empty() && m->out.find(was[i].v) == string::npos) { sim_violate("A.show", "`clink autorun show` does not show '%s': %s", was[i].v.c_str(), m->out.c_str()); return; }
    for (int i = 0; i < 4; ++i) sim_state(hash_str(now[i].v.data(), now[i].v.size(), i + 10 * m->rc));
}

void do_scripts(const Op& o)
{
    bool faulty = m->c->geti("faults") != 0;
    std::vector<string> args;
    if (o.verb == "sinstall") args.push_back("installscripts");
    else if (o.verb == "suninstall" || o.verb == "sall") args.push_back("uninstallscripts");
    else args.push_back("installscripts");
    if (o.verb == "sall") args.push_back("--all");
    if (o.verb == "slist") args.push_back("--list");
    string path;
    for (auto& x : o.a) { args.push_back(x); path += (path.empty() ? "" : " ") + x; }
    string what = "clink"; for (auto& x : args) what += " " + x;
    std::vector<string> want = m->list; bool can = true;
    if (o.verb == "sall") want.clear();
    else if (o.verb != "slist")
    {
        std::vector<string> r; bool had = false;
        for (auto& x : m->list) if (lower(x) == lower(path)) had = true; else r.push_back(x);
        bool semi = path.find(';') != string::npos || path.empty();
        can = !semi && (o.verb == "sinstall" ? !had : had);
        if (can) { want = r; if (o.verb == "sinstall") want.push_back(path); }
    }
    cli(args);
    if (g_sim->ended) return;
    bool died = m->killed, ok = !died && m->rc == 0;
    auto now = split(reg_get(SKEY, L"installedscripts").v, ';');
    string outc = died ? "killed" : ok ? "succeeded" : "failed";
    if (now != want && (ok || now != m->list)) { sim_violate("A.scripts", "'%s' %s, the list is %s, not %s (it was %s)", what.c_str(), outc.c_str(), joined(now).c_str(), joined(want).c_str(), joined(m->list).c_str()); return; }
    if (!can && ok) { sim_violate("A.scripts", "'%s' succeeded", what.c_str()); return; }
    if (!faulty && !died && !ok && can) { sim_violate("A.scripts", "'%s' failed: %s", what.c_str(), show(m->out).c_str()); return; }
    if (ok && (o.verb == "slist" || o.verb == "sall") && !faulty)
        for (auto& x : m->list) if (m->out.find(x) == string::npos) { sim_violate("A.list", "'%s' does not show '%s': %s", what.c_str(), x.c_str(), show(m->out).c_str()); return; }
    m->list = now;
    string t = joined(now); sim_state(hash_str(t.data(), t.size(), m->rc));
}

void run(const ::Case& c)
{
    M model; m = &model; m->c = &c;
    use_sched(c);
    m->dir = c.geti("dir") ? "C:\\Program Files\\clink" : "C:\\clink";
    m->exe = m->dir + "\\clink_x64.exe";
    g_sim->policy.pick = [&](const char* api, const std::wstring&, Rng& r) -> int {
        if (strncmp(api, "Reg", 3) || !m->c->geti("faults")) return 0;
        if (!strcmp(api, "RegQueryValue") && r.chance(0.5)) return ERROR_NO_SYSTEM_RESOURCES;
        return ERROR_ACCESS_DENIED;
    };
    g_sim->on_crash = [](Proc*) { m->killed = true; };
    g_sim->may_crash = [](Proc* p) { return p->name == "clink"; };
    fs_mkdir("C:\\work"); fs_mkdir("C:\\prof");
    if (!c.geti("admin")) registry().deny = L"hklm";
    for (auto& o : c.ops)
    {
        if (o.verb == "value") reg_set(KEYS[o.num(0) % 4], L"autorun", o.arg(1), o.num(2) ? REG_EXPAND_SZ : REG_SZ, o.num(3) != 0);
        if (o.verb == "slistinit") { reg_set(SKEY, L"installedscripts", o.arg(0), REG_SZ, o.num(1) != 0); m->list = split(o.arg(0), ';'); }
    }
    Proc* ctl = sim_new_proc("controller"); ctl->native = true;
    sim_new_thread(ctl, "controller", [&c] {
        HostScope hs;
        for (auto& o : c.ops)
        {
            if (g_sim->ended) return;
            if (o.verb == "value" || o.verb == "slistinit") continue;
            if (o.verb[0] == 's' && o.verb != "set" && o.verb != "show") do_scripts(o); else do_autorun(o);
        }
    });
    sim_run();
    m = nullptr;
}

void generate(Rng& r, ::Case& c, int tier)
{
    int prof = c.geti("profile", r.below(2));
    c.sets("p_preempt", "0");
    int mode = c.cfg.count("mode") ? c.geti("mode") : r.below(3); // Nothing fails, crashes, errors.
    if (mode == 1) { c.sets("p_crash", r.chance(0.5) ? "0.01" : "0.05"); c.seti("crashes", r.range(1, 4)); }
    if (mode == 2) { c.sets("p_fault", r.chance(0.5) ? "0.05" : "0.2"); c.seti("faults", r.range(1, 4)); }
    c.seti("dir", r.below(2)); c.seti("admin", r.chance(0.8));
    int n = r.range(1, tier ? 12 : 8);
    if (prof == 0)
    {
        static const char* const oth[] = { "doskey /macrofile=\"C:\\m & n.txt\"", "@chcp 65001>nul", "C:\\tools\\ansicon.exe -p", "\"C:\\Program Files\\x\\y.bat\"", "set FOO=1", "call %USERPROFILE%\\b.cmd",
            "\xc3\xa9ch\xc3\xb4", "cmd /c \"a & b\"", "echo a ^& b", "title \"clink\"", "C:\\R\\inject.exe x", "\"C:\\a\\clinker.exe\" start" };
        static const char* const cl[] = { "\"%D\\clink.bat\" inject --autorun", "\"%D\\clink_x64.exe\" inject --quiet", "\"C:\\Old One\\clink.bat\" inject --autorun --profile ~\\clink", "clink inject", "C:\\clink\\clink.bat inject --autorun",
            "\"C:\\clink\\clink\" inject", "C:\\c\\clink_x86.exe inject --profile \"D:\\x y\"", "\"%D\\clink.bat\" inject --autorun --profile \"C:\\R & D\"", "\"%D\\clink_arm64.exe\" inject" };
        static const char* const sep[] = { "&", " & ", "&&", " && ", "& ", "  &" };
        string D = c.geti("dir") ? "C:\\Program Files\\clink" : "C:\\clink";
        auto value = [&] {
            std::vector<string> v; int k = r.below(5); for (int i = 0; i < k; ++i) v.push_back(oth[r.below(12)]);
            if (r.chance(0.6)) { string e = cl[r.below(9)]; size_t p = e.find("%D"); if (p != string::npos) e.replace(p, 2, D); if (r.chance(0.1)) for (auto& ch : e) if (ch == '\\' && r.chance(0.5)) ch = '\\'; v.insert(v.begin() + r.below(u32(v.size()) + 1), e); }
            if (r.chance(0.1)) for (size_t z = r.range(200, 4000); z > 0;) { string x = oth[r.below(12)]; v.insert(v.begin() + r.below(u32(v.size()) + 1), x); z -= z < x.size() + 1 ? z : x.size() + 1; }
            string s; for (auto& x : v) s += (s.empty() ? "" : sep[r.below(6)]) + x; return s; };
        for (int i = 0; i < 4; ++i) if (r.chance(0.75)) { string v = value(); if (!v.empty()) c.add(0, "value", { std::to_string(i), v, std::to_string(r.chance(0.3)), std::to_string(r.chance(0.9)) }); }
        static const char* const ar[] = { "--profile", "C:\\my profile", "~\\clink", "--quiet", "C:\\x y\\", "D:\\R & D\\clink", "a\"b\"c", "C:\\x\"", "\xc3\xa9", "--nolog" };
        for (int i = 0; i < n; ++i)
        {
            int k = r.below(100);
            std::vector<string> a{ std::to_string(r.chance(0.35)), std::to_string(r.below(2)) };
            if (k < 40) { if (r.chance(0.5)) { int q = r.range(1, 4); for (int j = 0; j < q; ++j) a.push_back(r.chance(0.04) ? ar[7] : ar[r.below(10) == 7 ? 0 : r.below(7)]); } c.add(0, "install", a); }
            else if (k < 75) { if (r.chance(0.2)) a[0] = "2"; c.add(0, "uninstall", a); }
            else if (k < 85) { if (r.chance(0.9)) { string v = value(); if (v.find('"') == string::npos) for (auto& x : split(v, ' ')) a.push_back(x); } c.add(0, "set", a); }
            else c.add(0, "show", { "0", "0" });
        }
    }
    else
    {
        static const char* const p[] = { "C:\\scripts", "c:\\SCRIPTS", "D:\\a b\\c", "\xc3\xa9t\xc3\xa9", "C:\\scripts2", "C:\\scrip", "%USERPROFILE%\\s", "~\\x" };
        string init; int k = r.below(4); std::set<string> u;
        for (int i = 0; i < k; ++i) { string x = p[r.below(8)]; if (u.insert(lower(x)).second) init += (init.empty() ? "" : r.chance(0.1) ? ";;" : ";") + x; }
        if (!init.empty()) c.add(0, "slistinit", { init, std::to_string(r.chance(0.5)) });
        for (int i = 0; i < n; ++i)
        {
            int z = r.below(100);
            auto path = [&] { string x = p[r.below(8)]; if (r.chance(0.3)) x += std::to_string(r.below(4)); if (r.chance(0.02)) x += string(r.range(200, 2000), 'l'); if (r.chance(0.03)) x += ";y";
                if (r.chance(0.2)) x = p[r.below(8)] + string("\\my") + "-_. "[r.below(4)] + "x";
                if (r.chance(0.1)) for (auto& ch : x) if (ch == '\\') ch = '/';
                if (r.chance(0.1)) x += '\\';
                return split(x, ' '); };
            if (z < 45) c.add(0, "sinstall", path());
            else if (z < 80) c.add(0, "suninstall", path());
            else if (z < 93) c.add(0, "slist");
            else c.add(0, "sall");
        }
    }
}
void boot() { fs_snapshot_base(); }
RegScenario reg("registry", "A01", generate, run, boot);
}
