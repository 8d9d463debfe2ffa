// Settings: sessions, `clink set` commands and readers of the same profile, concurrently, with
// crashes and failing I/O.  What readers see must be explained by some order of whole
// load-change-save steps.
#include "sc_common.h"
#include <core/str_compare.h>
#include <lua/lua_state.h>
#include <lua/lua_script_loader.h>
extern "C" {
#include <lua.h>
#include <lauxlib.h>
}
int32 loader(int32 argc, char** argv);

namespace {

const char* const FILE_ = "C:\\prof\\clink_settings";
const char* const OLD_ = "C:\\prof\\settings";
const char* const DEF_ = "C:\\prof\\default_settings";

enum Kind { B, I, S, E, C };
struct Decl { const char* name; Kind kind; const char* def; const char* opts; int owner; };
// Owner: 0 built in, 1.. scripts (which a process may have loaded or not), 9 never loaded.
const Decl decls[] = {
    { "history.max_lines", I, "", "", 0 }, { "history.dupe_mode", E, "", "", 0 }, { "clink.paste_crlf", E, "", "", 0 },
    { "cmd.ctrld_exits", B, "", "", 0 }, { "terminal.raw_esc", B, "", "", 0 }, { "history.save", B, "", "", 0 },
    { "autosuggest.strategy", S, "", "", 0 }, { "clink.autostart", S, "", "", 0 },
    { "color.input", C, "", "", 0 }, { "color.doskey", C, "", "", 0 },
    { "myapp.flag", B, "True", "", 1 }, { "myapp.count", I, "3", "", 1 }, { "myapp.name", S, "abc def", "", 1 },
    { "myapp.mode", E, "x", "x,y,zed", 2 }, { "color.myapp", C, "0;95", "", 2 }, { "Other.Thing", S, "", "", 2 },
    { "ghost.a", S, "", "", 9 }, { "ghost.b", I, "7", "", 9 },
};
const int NS = sizeof(decls) / sizeof(decls[0]);
struct Builtin { string def, opts; };
std::vector<Builtin> s_builtin;             // Made at boot.

const char* const colors[][2] = { { "red", "0;31" }, { "bright magenta", "0;95" }, { "bold cyan on blue", "0;1;36;44" }, { "underline green", "0;4;32" }, { "default", "0" }, { "", "" },
    { "sgr 4;32", "4;32" }, { "bri whi on bri blu", "0;97;104" }, { "#ff8000", "0;38;2;255;128;0" }, { "reverse", "0;7" }, { "italic yellow on #102030", "0;3;33;48;2;16;32;48" },
    { "nobold white", "0;22;37" }, { "sgr 38;5;123", "38;5;123" }, { "on blue", "0;44" }, { "sgr 0;1", "0;1" } };

string lower(string s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }

std::vector<string> split(const string& s, char d) { std::vector<string> v; size_t a = 0; for (;;) { size_t b = s.find(d, a); v.push_back(s.substr(a, b - a)); if (b == string::npos) break; a = b + 1; } return v; }
// Colors, as documented: attributes in any order, then "on" and the background.
const char* const s_cnames[] = { "black", "red", "green", "yellow", "blue", "magenta", "cyan", "white" };
bool ref_color(const string& v, string& out)
{
    bool rev = false, ita = false, und = false; int bold = -1;
    struct { int n = -1, hex = -1; bool bright = false; } c[2]; int w = 0;
    for (auto& t : split(v, ' '))
    {
        if (t == "on") w = 1;
        else if (t == "reverse") rev = true;
        else if (t == "italic") ita = true;
        else if (t == "underline") und = true;
        else if (t == "bold") bold = 1;
        else if (t == "nobold") bold = 0;
        else if (t == "bright") c[w].bright = true;
        else if (t == "default") {}
        else if (t.size() == 7 && t[0] == '#') c[w].hex = int(strtol(t.c_str() + 1, nullptr, 16));
        else if (t.size() == 4 && t[0] == '#') { int h = int(strtol(t.c_str() + 1, nullptr, 16)); c[w].hex = (h >> 8) * 0x110000 + ((h >> 4) & 15) * 0x1100 + (h & 15) * 0x11; }
        else { for (int i = 0; i < 8; ++i) if (t == s_cnames[i]) c[w].n = i; if (c[w].n < 0) return false; }
    }
    out = "0";
    if (rev) out += ";7";
    if (bold >= 0) out += bold ? ";1" : ";22";
    if (ita) out += ";3";
    if (und) out += ";4";
    for (int i = 0; i < 2; ++i)
        if (c[i].hex >= 0) out += strf(";%d;2;%d;%d;%d", 38 + 10 * i, c[i].hex >> 16, (c[i].hex >> 8) & 255, c[i].hex & 255);
        else if (c[i].n >= 0) out += strf(";%d", c[i].n + (c[i].bright ? 90 : 30) + 10 * i);
    return true;
}
string gen_color(Rng& r)
{
    std::vector<string> t;
    if (r.chance(0.25)) t.push_back("reverse");
    if (r.chance(0.4)) t.push_back(r.chance(0.5) ? "bold" : "nobold");
    if (r.chance(0.25)) t.push_back("italic");
    if (r.chance(0.25)) t.push_back("underline");
    auto col = [&] { int k = r.below(10); if (k < 2) return strf("#%06x", r.below(0x1000000)); if (k < 3) return strf("#%03X", r.below(0x1000)); if (k < 4) return string("default"); return (r.chance(0.4) ? "bright " : "") + string(s_cnames[r.below(8)]); };
    if (r.chance(0.8)) t.push_back(col());
    for (size_t i = t.size(); i > 1; --i) std::swap(t[i - 1], t[r.below(u32(i))]);
    if (r.chance(0.5) || t.empty()) { t.push_back("on"); t.push_back(col()); }
    string s; for (auto& x : t) s += (s.empty() ? "" : " ") + x;
    return s;
}
bool canon(int k, const string& v, string& out)
{
    switch (decls[k].kind)
    {
    case B: { string l = lower(v); if (l == "true" || l == "on" || l == "yes" || l == "1") out = "True"; else if (l == "false" || l == "off" || l == "no" || l == "0") out = "False"; else return false; return true; }
    case I: if (v.empty() || !(isdigit(v[0]) || v[0] == '-')) return false; out = std::to_string(atoi(v.c_str())); return true;
    case S: out = v; return true;
    case E:
        {
            auto o = split(s_builtin[k].opts, ',');
            if (!v.empty() && isdigit(v[0])) { int i = atoi(v.c_str()); if (i >= int(o.size())) return false; out = o[i]; return true; }
            for (auto& x : o) if (lower(x) == lower(v)) { out = x; return true; }
            return false;
        }
    case C: for (auto& c : colors) if (v == c[0]) { out = c[1]; return true; } return ref_color(v, out);
    }
    return false;
}
int find_name(const string& n) { for (int i = 0; i < NS; ++i) if (lower(decls[i].name) == lower(n)) return i; return -1; }

typedef std::vector<string> State;
struct Change { int k; bool clear; string v; };     // v canonical
typedef std::vector<Change> Changes;

struct Ev { int actor; bool read; int seen; Changes ch; int outcome; u64 t0, t1; string what; }; // outcome: 0 done, 1 reported failure, 2 killed, 3 no change at all.
struct Slot { Proc* p = nullptr; const Op* op = nullptr; bool done = false; std::vector<string> mem; int mask = 0; };
struct M
{
    const ::Case* c;
    State dflt;
    std::map<State, int> ids; std::vector<State> states;
    std::set<int> possible;
    std::vector<Ev> evs;
    std::map<Proc*, int> open;              // Event in progress by process.
    std::map<int, Slot> slots;
    u64 clock = 0;
    int running = 0;
    std::map<int, const std::vector<Op>*> drivers;
    u64 hh = 3;
    std::set<Proc*> faulty;                 // Processes in an operation that may meet I/O errors.
    int intern(const State& s) { auto i = ids.find(s); if (i != ids.end()) return i->second; int n = int(states.size()); states.push_back(s); ids[s] = n; return n; }
    int apply(int s, const Changes& ch) { State x = states[s]; for (auto& c : ch) x[c.k] = c.clear ? dflt[c.k] : c.v; return intern(x); }
};
M* m;

// In a process: the settings of the loaded scripts.
void declare(int mask)
{
    for (int i = 0; i < NS; ++i)
    {
        const Decl& d = decls[i];
        if (!d.owner || !(mask & (1 << d.owner))) continue;
        switch (d.kind)
        {
        case B: { auto* s = new setting_bool(d.name, "script setting", !strcmp(d.def, "True")); s->deferred_load(); } break;
        case I: { auto* s = new setting_int(d.name, "script setting", atoi(d.def)); s->deferred_load(); } break;
        case S: { auto* s = new setting_str(d.name, "script setting", d.def); s->deferred_load(); } break;
        case E: { auto* s = new setting_enum(d.name, "script setting", d.opts, 0); s->deferred_load(); } break;
        case C: { auto* s = new setting_color(d.name, "script setting", "bright magenta"); s->deferred_load(); } break;
        }
    }
}
string lua_decl(int mask)
{
    string t;
    for (int i = 0; i < NS; ++i)
    {
        const Decl& d = decls[i];
        if (!d.owner || !(mask & (1 << d.owner))) continue;
        t += strf("settings.add('%s', ", d.name);
        switch (d.kind)
        {
        case B: t += lower(d.def); break;
        case I: t += d.def; break;
        case S: t += strf("'%s'", d.def); break;
        case E: t += "{"; for (auto& o : split(d.opts, ',')) t += "'" + o + "',"; t += "}"; break;
        case C: t += "'bright magenta'"; break;
        }
        t += ", 'script setting')\n";
    }
    return t;
}
State* observe(int mask)
{
    State v;
    for (int i = 0; i < NS; ++i)
    {
        setting* s = settings::find(decls[i].name);
        str<> t; if (s) s->get(t);
        HostScope hs; v.push_back(s ? hstr(t.c_str(), t.length()) : string("?"));
    }
    HostScope hs; return new State(v);
}
string diff(const State& got, const State& want) { string r; for (int i = 0; i < NS; ++i) if (got[i] != "?" && got[i] != want[i]) r += strf("%s%s = '%s', not '%s'", r.empty() ? "" : "; ", decls[i].name, show(got[i]).c_str(), show(want[i]).c_str()); return r; }
bool fits(const State& part, const State& whole) { for (int i = 0; i < NS; ++i) if (part[i] != "?" && part[i] != whole[i]) return false; return true; }

bool declared(int k, int mask) { return !decls[k].owner || (mask & (1 << decls[k].owner)); }
int begin(int actor, const string& what) { HostScope hs; Ev e; e.actor = actor; e.read = false; e.seen = -1; e.outcome = 0; e.t0 = ++m->clock; e.t1 = ~0ull; e.what = what; m->evs.push_back(e); int i = int(m->evs.size()) - 1; m->open[cur_proc()] = i; return i; }
void finish(int i, int outcome) { HostScope hs; Ev& e = m->evs[i]; e.outcome = outcome; e.t1 = ++m->clock; m->open.erase(cur_proc()); }
// What the process saw when it loaded the settings; unknown values are whatever fits.
std::map<int, State>* s_parts;              // Partial observations, by event.
void saw(int i, State* v) { HostScope hs; m->evs[i].read = true; (*s_parts)[i] = *v; finish(i, 0); delete v; }

struct Item { string name, value; bool clear, valid; int k; string canon; };
std::vector<Item> items(const Op& o)        // a: mask, then name, value pairs ("!" + anything = clear).
{
    std::vector<Item> v;
    for (size_t i = 1; i + 1 < o.a.size(); i += 2)
    {
        Item x; x.name = o.a[i]; x.k = find_name(x.name); x.clear = o.a[i + 1] == "!"; x.value = x.clear ? "" : o.a[i + 1]; x.valid = x.clear;
        if (x.k < 0) continue;
        if (!x.clear) x.valid = canon(x.k, x.value, x.canon);
        v.push_back(x);
    }
    return v;
}

// One process, one `clink set` (the command's own steps, without its other work).
void one_shot(int actor, const Op* op)
{
    int e, mask; const Item* it;
    { HostScope hs; mask = op->num(0); auto v = items(*op); it = new Item(v[0]); e = begin(actor, "set " + it->name + " = " + (it->clear ? "(clear)" : it->value)); if (it->valid) m->evs[e].ch = { { it->k, it->clear, it->canon } }; m->faulty.insert(cur_proc()); }
    bool loaded = settings::load(FILE_, DEF_);
    declare(mask);
    bool ok = false, changed = false;
    setting* s = settings::find(it->name.c_str());
    if (s)
    {
        if (it->clear) { s->set(); changed = true; } else changed = s->set(it->value.c_str());
        if (changed != it->valid) sim_violate("S.accept", "setting %s to '%s' was %s", it->name.c_str(), show(it->value).c_str(), changed ? "accepted" : "refused");
        if (changed) { str<> t; s->get(t); if (!it->clear && it->canon != t.c_str()) sim_violate("S.value", "%s was set to '%s' and is '%s', not '%s'", it->name.c_str(), show(it->value).c_str(), t.c_str(), show(it->canon).c_str()); }
        if (changed && loaded) ok = settings::save(FILE_);
    }
    finish(e, !s || !changed ? 3 : ok ? 0 : 1);
    { HostScope hs; m->faulty.erase(cur_proc()); delete it; }
}
void read_all(int actor, int mask)
{
    int e = begin(actor, "read");
    settings::load(FILE_, DEF_);
    declare(mask);
    saw(e, observe(mask));
}
// The real command.
void cli(int actor, const Op* op)
{
    const Item* it; int e; int mask;
    { HostScope hs; auto v = items(*op); mask = op->num(0); it = new Item(v[0]); e = begin(actor, "clink set " + it->name + " = " + (it->clear ? "(clear)" : it->value)); if (it->valid && declared(it->k, mask)) m->evs[e].ch = { { it->k, it->clear, it->canon } }; }
    const char* scripts = (mask & 6) == 6 ? "C:\\s1;C:\\s2" : (mask & 2) ? "C:\\s1" : (mask & 4) ? "C:\\s2" : "C:\\none";
    SetEnvironmentVariableA("CLINK_PATH", scripts);
    char out[64]; sprintf(out, "C:\\work\\out%d.txt", actor);
    redirect_out(widen(out).c_str());
    { HostScope hs; m->faulty.insert(cur_proc()); }
    const char* av[] = { "clink", "--profile", "C:\\prof", "--session", "77", "set", it->name.c_str(), it->clear ? "clear" : it->value.c_str(), nullptr };
    int rc = loader(8, (char**)av);
    fflush(stdout);
    HostScope hs;
    m->faulty.erase(cur_proc());
    bool can = it->valid && declared(it->k, mask);
    if (!can && rc == 0) sim_violate("S.accept", "`clink set %s '%s'` succeeded: %s", it->name.c_str(), show(it->value).c_str(), show(fs_read(out)).c_str());
    if (can && rc && !m->c->geti("faults")) sim_violate("S.accept", "`clink set %s '%s'` failed: %s", it->name.c_str(), show(it->value).c_str(), show(fs_read(out)).c_str());
    finish(e, !can ? 3 : rc == 0 ? 0 : 1);
    delete it;
}
void cli_list(int actor, const Op* op)
{
    int e = begin(actor, "clink set"), mask = op->num(0);
    const char* scripts = (mask & 6) == 6 ? "C:\\s1;C:\\s2" : (mask & 2) ? "C:\\s1" : (mask & 4) ? "C:\\s2" : "C:\\none";
    SetEnvironmentVariableA("CLINK_PATH", scripts);
    char out[64]; sprintf(out, "C:\\work\\out%d.txt", actor);
    redirect_out(widen(out).c_str());
    const char* av[] = { "clink", "--profile", "C:\\prof", "--session", "77", "set", nullptr };
    int rc = loader(6, (char**)av);
    fflush(stdout);
    HostScope hs;
    State v(NS, "?");
    for (auto l : split(fs_read(out), '\n'))
    {
        if (!l.empty() && l.back() == '\r') l.pop_back();
        size_t b = l.find("  "); if (b == string::npos) continue;
        int k = find_name(l.substr(0, b)); if (k < 0) continue;
        while (b < l.size() && l[b] == ' ') ++b;
        string t = l.substr(b), cn;
        if (decls[k].kind == C)
        {
            SutScope ss; str<> code; settings::parse_color(t.c_str(), code);
            HostScope hh; cn = hstr(code.c_str(), code.length());
        }
        else cn = t;
        v[k] = cn;
    }
    for (int k = 0; k < NS; ++k) if (declared(k, mask) && v[k] == "?") sim_violate("S.list", "`clink set` does not list %s (exit code %d): %s", decls[k].name, rc, show(fs_read(out)).c_str());
    saw(e, new State(v));
}

// A session: settings.set, settings.clear and themes.  Its own values are checked as well.
bool lua_value(lua_state& lua, const char* name)
{
    lua_State* L = lua.get_state();
    lua_getglobal(L, name); bool b = !!lua_toboolean(L, -1); lua_pop(L, 1); return b;
}
string lua_str(const string& s) { string r = "'"; for (unsigned char c : s) { if (c < 32 || c > 126 || c == '\'' || c == '\\') r += strf("\\%03d", c); else r += char(c); } return r + "'"; }
void session_op(int actor, Slot* sl, lua_state* lua)
{
    const Op* op = sl->op; int e = -1; std::vector<Item>* its; bool set, lu = lua != nullptr;
    {
        HostScope hs; its = new std::vector<Item>(items(*op));
        set = op->verb == "sset";
        if (set && its->size() > 1) its->resize(1);
        string what = "session:"; for (auto& i : *its) what += " " + i.name + " = " + (i.clear ? "(clear)" : i.value);
        bool dec = its->empty() || declared((*its)[0].k, sl->mask);
        if (its->empty() || (set && (!dec || !(*its)[0].valid))) its->clear();
        if (!set) { std::vector<Item> k; for (auto& i : *its) if (i.valid) k.push_back(i); *its = k; }
        if (!its->empty())
        {
            e = begin(actor, what); for (auto& i : *its) m->evs[e].ch.push_back({ i.k, i.clear, i.canon });
            for (auto& i : *its) if (declared(i.k, sl->mask)) sl->mem[i.k] = i.clear ? m->dflt[i.k] : i.canon;
            m->faulty.insert(cur_proc());
        }
    }
    if (e < 0) { delete its; return; }
    bool ok, has = true;
    if (lu)
    {
        string* code; { HostScope hs; string t;
            if (set && (*its)[0].clear) { t = "settings.clear(" + lua_str((*its)[0].name) + ") ok = true"; has = false; }
            else if (set) t = "ok = settings.set(" + lua_str((*its)[0].name) + "," + lua_str((*its)[0].value) + ")";
            else { t = "ok = settings._overlay({"; for (auto& i : *its) t += "{name=" + lua_str(i.name) + (i.clear ? "" : ",value=" + lua_str(i.value)) + "},"; t += "})"; }
            code = new string(t); }
        str<> err;
        if (!lua->do_string(code->c_str(), int(code->size()), &err)) { sim_violate("S.lua", "%s: %s", code->c_str(), err.c_str()); }
        ok = lua_value(*lua, "ok");
        HostScope hs; delete code;
    }
    else if (set)
    {
        // As settings.set and settings.clear do.
        const Item& i = (*its)[0];
        setting* s = settings::find(i.name.c_str());
        if (i.clear) { s->set(); ok = settings::sandboxed_set_setting(i.name.c_str(), nullptr); }
        else ok = s->set(i.value.c_str()) && settings::sandboxed_set_setting(i.name.c_str(), i.value.c_str());
    }
    else
    {
        std::vector<settings::setting_name_value> o;
        for (auto& i : *its) o.emplace_back(i.name.c_str(), i.clear ? nullptr : i.value.c_str(), i.clear ? settings::section::clear : settings::section::set);
        settings::overlay(o);
        ok = settings::sandboxed_overlay(o);
    }
    finish(e, ok ? has ? 0 : 4 : 1);
    { HostScope hs; m->faulty.erase(cur_proc()); delete its; }
    State* now = observe(sl->mask);
    HostScope hs;
    if (!fits(*now, sl->mem)) sim_violate("S.session", "after '%s' the session has %s", m->evs[e].what.c_str(), diff(*now, sl->mem).c_str());
    delete now;
}
void session(int actor, int mask, bool use_lua)
{
    int e = begin(actor, "session start");
    settings::load(FILE_, DEF_);
    lua_state* lua = nullptr;
    if (use_lua)
    {
        lua = new lua_state(lua_state_flags::none);
        string* t; { HostScope hs; t = new string(lua_decl(mask)); }
        str<> err;
        if (!lua->do_string(t->c_str(), int(t->size()), &err)) sim_violate("S.lua", "%s: %s", t->c_str(), err.c_str());
        HostScope hs; delete t;
    }
    else declare(mask);
    State* v = observe(mask);
    Slot* sl; { HostScope hs; sl = &m->slots[actor]; sl->mem = *v; sl->mask = mask; }
    saw(e, v);
    for (;;)
    {
        { HostScope hs; sl->op = nullptr; sl->done = true; }
        sim_block("turn", [sl] { return sl->op != nullptr; }, FOREVER);
        if (sl->op->verb == "send") break;
        session_op(actor, sl, lua);
    }
    { HostScope hs; sl->p = nullptr; }
    if (lua) delete lua;
    HostScope hs; sl->done = true;
}

void do_op(const Op* o)
{
    HostScope hs;
    int a = o->actor;
    Slot& sl = m->slots[a];
    if (sl.p && !sl.p->alive) sl.p = nullptr;
    if (o->verb == "set") child_proc("set", [a, o] { one_shot(a, o); });
    else if (o->verb == "cli") child_proc("cli", [a, o] { cli(a, o); });
    else if (o->verb == "list") child_proc("cli", [a, o] { cli_list(a, o); });
    else if (o->verb == "read") child_proc("reader", [a, o] { read_all(a, 0x206); });
    else if (o->verb == "start")
    {
        if (sl.p) return;
        int mask = o->num(0); bool lu = o->num(1) != 0;
        sl.done = false; sl.op = nullptr;
        sl.p = sim_new_proc("session");
        Proc* p = sl.p;
        sim_new_thread(p, "session", [a, mask, lu] { session(a, mask, lu); });
        sim_block("started", [&sl, p] { return sl.done || !p->alive; }, FOREVER);
    }
    else if (sl.p)
    {
        Proc* p = sl.p;
        sl.done = false; sl.op = o;
        sim_block("done", [&sl, p] { return sl.done || !p->alive; }, FOREVER);
        if (o->verb == "send") { sim_join_proc(p); }
    }
}

// Is there an order of the steps that explains what was observed?
void explain()
{
    std::vector<std::vector<int>> by;       // Events by actor, in order.
    std::map<int, int> idx;
    for (int i = 0; i < int(m->evs.size()); ++i) { auto f = idx.find(m->evs[i].actor); if (f == idx.end()) { f = idx.insert({ m->evs[i].actor, int(by.size()) }).first; by.emplace_back(); } by[f->second].push_back(i); }
    int n = int(by.size());
    struct Node { std::vector<int> pc, ld; int cur; bool operator<(const Node& o) const { if (cur != o.cur) return cur < o.cur; if (pc != o.pc) return pc < o.pc; return ld < o.ld; } };
    std::set<Node> seen; std::vector<Node> work;
    for (int s : m->possible) { Node x; x.pc.assign(n, 0); x.ld.assign(n, -1); x.cur = s; if (seen.insert(x).second) work.push_back(x); }
    std::set<int> fin;
    std::set<int> cur_states;
    auto push = [&](const Node& x) { if (seen.insert(x).second) work.push_back(x); };
    while (!work.empty())
    {
        Node x = work.back(); work.pop_back();
        cur_states.insert(x.cur);
        bool end = true;
        for (int a = 0; a < n; ++a)
        {
            if (x.pc[a] >= int(by[a].size())) continue;
            end = false;
            int ei = by[a][x.pc[a]]; const Ev& e = m->evs[ei];
            if (x.ld[a] < 0)
            {
                bool early = false;
                for (int b = 0; b < n && !early; ++b) if (b != a && x.pc[b] < int(by[b].size()) && m->evs[by[b][x.pc[b]]].t1 < e.t0) early = true;
                if (early) continue;
            }
            if (e.read)
            {
                if (fits((*s_parts)[ei], m->states[x.cur])) { Node y = x; y.pc[a]++; push(y); }
                continue;
            }
            bool must = e.outcome == 0;
            if (e.outcome == 3 || e.ch.empty()) { Node y = x; y.pc[a]++; push(y); continue; }
            if (!must) { Node y = x; y.pc[a]++; y.ld[a] = -1; push(y); }
            if (x.ld[a] < 0) { Node y = x; y.ld[a] = y.cur; push(y); }
            else { Node y = x; y.cur = m->apply(x.ld[a], e.ch); y.ld[a] = -1; y.pc[a]++; push(y); }
        }
        if (end) fin.insert(x.cur);
        if (seen.size() > 200000) { sim_count("explain_gave_up"); break; }
    }
    sim_count("checked_rounds");
    if (fin.empty())
    {
        string t;
        for (int i = 0; i < int(m->evs.size()); ++i)
        {
            const Ev& e = m->evs[i];
            t += strf(" [%d %s: ", e.actor, e.what.c_str());
            if (e.read)
            {
                int best = -1; string bd;
                for (int s : cur_states) { string d = diff((*s_parts)[i], m->states[s]); if (best < 0 || d.size() < bd.size()) best = s, bd = d; }
                t += bd.empty() ? "fits" : bd;
            }
            else t += e.outcome == 0 ? "done" : e.outcome == 1 ? "reported failure" : e.outcome == 2 ? "killed" : e.outcome == 3 ? "refused" : "no result";
            t += "]";
        }
        sim_violate("S.lost", "no order of the changes explains the settings:%s", t.substr(0, 900).c_str());
    }
    m->possible = fin;
    for (int s : fin) for (auto& v : m->states[s]) m->hh = hash_str(v.data(), v.size(), mix(m->hh, 11));
}

void run(const ::Case& c)
{
    M model; m = &model; m->c = &c;
    std::map<int, State> parts; s_parts = &parts;
    use_sched(c);
    g_sim->policy.pick = [&](const char* api, const std::wstring& path, Rng& r) -> int {
        if (c.gets("fault_api", "write") != api) return 0;
        if (!m->faulty.count(cur_proc())) return 0;
        string p = narrow(path);
        if (p.find("\\prof\\") == string::npos || p.find("settings") == string::npos || p.find("default_settings") != string::npos) return 0;
        string k = api;
        if (k == "write") return r.chance(0.5) ? 0x10000 + ERROR_DISK_FULL : ERROR_DISK_FULL;
        if (k == "open") return r.chance(0.5) ? ERROR_ACCESS_DENIED : ERROR_TOO_MANY_OPEN_FILES;
        if (k == "delete" || k == "move") return ERROR_ACCESS_DENIED;
        return ERROR_IO_DEVICE;
    };
    g_sim->on_crash = [](Proc* p) {
        auto i = m->open.find(p);
        m->faulty.erase(p);
        if (i == m->open.end()) return;
        Ev& e = m->evs[i->second]; e.outcome = 2; e.t1 = ++m->clock; m->open.erase(i);
    };
    fs_mkdir("C:\\prof"); fs_mkdir("C:\\work"); fs_mkdir("C:\\s1"); fs_mkdir("C:\\s2"); fs_mkdir("C:\\none");
    fs_write("C:\\s1\\a.lua", lua_decl(2)); fs_write("C:\\s2\\b.lua", lua_decl(4));
    // Defaults, possibly a distribution's.
    string def;
    for (int i = 0; i < NS; ++i) m->dflt.push_back(s_builtin[i].def);
    for (auto& o : c.ops) if (o.verb == "default") { int k = find_name(o.arg(0)); string v; def += o.arg(0) + " = " + o.arg(1) + "\n"; if (k >= 0 && canon(k, o.arg(1), v)) m->dflt[k] = v; }
    if (!def.empty()) fs_write(DEF_, def);
    State s = m->dflt;
    string init;
    for (auto& o : c.ops) if (o.verb == "init") { int k = find_name(o.arg(0)); if (k < 0) continue; string v; if (canon(k, o.arg(1), v)) { s[k] = v; init += strf("# name: was here before\r\n# type: whatever\r\n%s = %s\r\n\r\n", decls[k].name, o.arg(1).c_str()); } }
    int bulk = c.geti("bulk");             // Many more settings, of scripts that are gone.
    for (int i = 0; i < bulk; ++i) init += strf("# note %d\n# type: string\nzz.%d = the value %d of a setting nobody declares\n\n", i, i, i * 7);
    if (!init.empty()) fs_write(FILE_, init);
    // Settings of an old version.
    static const char* const old[][4] = { { "ctrld_exits", "0", "cmd.ctrld_exits", "False" }, { "esc_clears_line", "1", "terminal.raw_esc", "False" }, { "esc_clears_line", "0", "terminal.raw_esc", "True" },
        { "history_dupe_mode", "1", "history.dupe_mode", "ignore" }, { "history_file_lines", "5000", "history.max_lines", "5000" }, { "history_file_lines", "-1", "history.save", "False" }, { "strip_crlf_on_paste", "0", "clink.paste_crlf", "crlf" } };
    string mig; std::set<string> used;
    for (auto& o : c.ops) if (o.verb == "old") { int k = o.num(0) % 7; if (!used.insert(old[k][0]).second) continue; mig += strf("# name: x\n%s = %s\n", old[k][0], old[k][1]); if (init.empty()) { s[find_name(old[k][2])] = old[k][3]; if (k == 4) s[find_name("history.save")] = "True"; } }
    if (!mig.empty()) fs_write(OLD_, mig);
    m->possible.insert(m->intern(s));
    int rounds = 0;
    for (auto& o : c.ops) if (o.verb != "default" && o.verb != "init" && o.verb != "old") rounds = std::max(rounds, atoi(o.a.empty() ? "0" : o.a.back().c_str()) + 1);
    Proc* ctl = sim_new_proc("controller");
    ctl->native = true;
    sim_new_thread(ctl, "controller", [&c, rounds, ctl] {
        HostScope hs;
        for (int r = 0; r < rounds && !g_sim->ended; ++r)
        {
            std::map<int, std::vector<Op>> by;
            for (auto& o : c.ops) if (o.verb != "default" && o.verb != "init" && o.verb != "old" && !o.a.empty() && atoi(o.a.back().c_str()) == r) { Op x = o; x.a.pop_back(); by[o.actor].push_back(x); }
            if (by.empty()) continue;
            m->evs.clear(); s_parts->clear();
            m->running = int(by.size());
            for (auto& b : by)
            {
                bool have = m->drivers.count(b.first) > 0;
                auto* box = &m->drivers[b.first];
                *box = &b.second;
                if (have) continue;
                Thread* t = sim_new_thread(ctl, "driver", [box] {
                    HostScope hs;
                    for (;;)
                    {
                        sim_block("ops", [box] { return *box != nullptr; }, FOREVER);
                        for (auto& o : **box) if (!g_sim->ended) do_op(&o);
                        *box = nullptr;
                        m->running--;
                    }
                });
                t->daemon = true;
            }
            sim_block("round", [] { return m->running == 0; }, FOREVER);
            if (g_sim->ended) return;
            // What a new process reads now.
            int cb = g_sim->crash_budget, fb = g_sim->fault_budget; bool fo = g_sim->faults_on; double pp = g_sim->p_preempt;
            g_sim->crash_budget = g_sim->fault_budget = 0; g_sim->faults_on = false; g_sim->p_preempt = 0;
            child_proc("reader", [] { read_all(99, 0x206); });
            g_sim->crash_budget = cb; g_sim->fault_budget = fb; g_sim->faults_on = fo; g_sim->p_preempt = pp;
            if (g_sim->ended) return;
            explain();
        }
        static Op end; end.verb = "send";
        for (auto& s : m->slots) if (s.second.p && s.second.p->alive) { Proc* p = s.second.p; s.second.done = false; s.second.op = &end; sim_join_proc(p); }
    });
    sim_run();
    if (!g_sim->ended && bulk)
    {
        string t = "\n" + fs_read(FILE_);
        { string u; for (char ch : t) if (ch != '\r') u += ch; t = u; }
        for (int i = 0; i < bulk; ++i) if (t.find(strf("\nzz.%d = the value %d of a setting nobody declares\n", i, i * 7)) == string::npos) { sim_violate("S.lost", "the setting zz.%d of a script that is not loaded is gone (%d bytes)", i, int(t.size())); break; }
    }
    sim_state(m->hh);
    m = nullptr; s_parts = nullptr;
}

string value_for(Rng& r, int k, bool& clear)
{
    clear = r.chance(0.15);
    if (clear) return "!";
    switch (decls[k].kind)
    {
    case B: { static const char* const v[] = { "true", "false", "ON", "off", "yes", "No", "1", "0", "maybe" }; return v[r.below(9)]; }
    case I: return r.chance(0.06) ? "many" : std::to_string(r.range(-3, 3000));
    case E: { auto o = split(s_builtin[k].opts, ','); if (r.chance(0.06)) return "nonsense"; if (r.chance(0.25)) return std::to_string(r.below(u32(o.size()) + (r.chance(0.1) ? 2 : 0))); string x = o[r.below(u32(o.size()))]; if (r.chance(0.2)) for (auto& c : x) c = toupper(c); return x; }
    case C: return r.chance(0.06) ? "purple" : r.chance(0.5) ? gen_color(r) : colors[r.below(sizeof(colors) / sizeof(colors[0]))][0];
    case S: { static const char* const v[] = { "x", "a = b", "# not a comment", "one two  three", "", "\xc3\xa9t\xc3\xa9", "100%s %d", "C:\\a b\\c", "\"q\"", "[x]", "trail" }; string t = v[r.below(11)]; if (r.chance(0.5) && !t.empty()) t += std::to_string(r.below(100)); if (r.chance(0.05)) t += string(r.range(200, 5000), 'z'); return t; }
    }
    return "";
}
void generate(Rng& r, ::Case& c, int tier)
{
    int prof = c.geti("profile", 0);        // 0 turns, 1 concurrent, 2 crashes, 3 I/O errors, 4 Lua and the command, one at a time
    bool conc = prof == 1 || prof == 2;
    if (prof == 0 || prof == 4) c.sets("p_preempt", "0");
    else { gen_sched(r, c, false, prof != 3); c.sets("p_bb", "0"); } // (Processes share nothing but files.)
    if (prof == 2) { static const char* cr[] = { "0.002", "0.01", "0.03" }; c.sets("p_crash", cr[r.below(3)]); c.seti("crashes", r.range(1, 3)); }
    if (prof == 3)
    {
        static const char* apis[] = { "write", "open", "read", "move", "fclose", "delete" };
        if (!c.cfg.count("fault_api")) c.sets("fault_api", apis[r.below(6)]);
        static const char* pf[] = { "0.05", "0.2", "0.5" }; c.sets("p_fault", pf[r.below(3)]); c.seti("faults", r.range(1, 3));
    }
    auto mask = [&] { return std::to_string((r.below(4)) << 1); };
    auto some = [&](int owner_max) { for (;;) { int k = r.below(NS); if (decls[k].owner <= owner_max) return k; } };
    if (r.chance(0.4)) { int n = r.range(1, 3); std::set<int> u; for (int i = 0; i < n; ++i) { int k = some(2); bool cl; string v = value_for(r, k, cl), x; if (!cl && u.insert(k).second && canon(k, v, x)) c.add(0, "default", { decls[k].name, v }); } }
    if (r.chance(0.75)) { int n = r.range(1, 9); std::set<int> u; for (int i = 0; i < n; ++i) { int k = some(9); bool cl; string v = value_for(r, k, cl), x; if (!cl && u.insert(k).second && canon(k, v, x)) c.add(0, "init", { decls[k].name, v }); } }
    if (r.chance(0.3)) { int n = r.range(1, 4); for (int i = 0; i < n; ++i) c.add(0, "old", { std::to_string(r.below(7)) }); }
    int rounds = prof == 4 ? r.range(2, 4) : r.range(2, tier ? 12 : 8);
    int actors = conc ? r.range(2, 4) : 1;
    if (r.chance(0.02)) c.seti("bulk", r.range(5, 1500));
    bool lua = prof == 4 || r.chance(0.02);
    std::map<int, bool> up;
    for (int q = 0; q < rounds; ++q)
        for (int a = 0; a < actors; ++a)
        {
            if (conc && r.chance(0.25)) continue;
            int n = conc ? r.range(1, 2) : r.range(1, 3);
            for (int i = 0; i < n; ++i)
            {
                auto name = [&](int k) { string s = decls[k].name; if (r.chance(0.1)) for (auto& x : s) x = toupper(x); return s; };
                int k = some(2); bool cl; string v = value_for(r, k, cl), R = std::to_string(q);
                int z = r.below(100);
                if (prof == 4 && z < 45 && (v.empty() || (decls[k].kind == S && v[0] == '"'))) v = "plain";
                if (prof == 4 && z < 35) c.add(a, "cli", { r.chance(0.6) ? "6" : mask(), name(k), v, R });
                else if (prof == 4 && z < 45) c.add(a, "list", { mask(), R });
                else if (z < 40) c.add(a, "set", { r.chance(0.6) ? "6" : mask(), name(k), v, R });
                else if (z < 50) c.add(a, "read", { R });
                else
                {
                    if (!up[a]) { c.add(a, "start", { r.chance(0.5) ? "6" : mask(), std::to_string(lua), R }); up[a] = true; }
                    if (z < 75) c.add(a, "sset", { "0", name(k), v, R });
                    else if (z < 95)
                    {
                        std::vector<string> x{ "0" }; int nn = r.range(1, 4); std::set<int> u;
                        for (int j = 0; j < nn; ++j) { int kk = some(2); bool cc; string vv = value_for(r, kk, cc); if (u.insert(kk).second) { x.push_back(decls[kk].name); x.push_back(vv); } }
                        x.push_back(R); c.add(a, "theme", x);
                    }
                    else { c.add(a, "send", { R }); up[a] = false; }
                }
            }
        }
}
void boot()
{
    fs_preload_real("Z:\\repo\\clink\\lua\\scripts", "C:\\repo\\clink\\lua\\scripts");
    fs_preload_real("Z:\\repo\\clink\\app\\scripts", "C:\\repo\\clink\\app\\scripts");
    fs_snapshot_base();
    g_heap_mode = 0;
    for (int i = 0; i < NS; ++i)
    {
        Builtin b; b.def = decls[i].def; b.opts = decls[i].opts;
        if (!decls[i].owner)
        {
            setting* s = settings::find(decls[i].name);
            if (!s) { fprintf(stderr, "no setting %s\n", decls[i].name); continue; }
            str<> t; s->get(t); b.def = string(t.c_str());
            if (decls[i].kind == E) b.opts = ((setting_enum*)s)->get_options();
        }
        s_builtin.push_back(b);
    }
}
RegScenario reg("settings", "S01", generate, run, boot);
}
