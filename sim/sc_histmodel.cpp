// History database against an executable reference model: sessions (processes) take turns,
// one operation at a time, including the real `clink history` command, and every result,
// listing and loaded list must be what the model says.
#include "sc_common.h"
#include <lib/history_db.h>
extern "C" {
#include <readline/history.h>
}
int32 loader(int32 argc, char** argv);

struct test_history_db { static void set_threshold(history_db& db, size_t n) { db.m_min_compact_threshold = n; } };

namespace {

const char* const MASTER = "C:\\prof\\clink_history";

struct E { string text; i64 ts_lo = 0, ts_hi = 0; bool dead = false; }; // ts_hi 0 = none.
typedef std::shared_ptr<E> EP;
typedef std::vector<EP> List;
typedef std::vector<std::pair<string, string>> Lines;

struct Slot
{
    Proc* p = nullptr; int id = 0; bool ts = false, ispace = true;
    List loaded; std::vector<char> from_master; int gen = 0; bool have_loaded = false;
    history_db* db = nullptr;
};
struct M
{
    const Case* c;
    bool shared, save; int dupe, limit;
    List master; int gen = 0; bool gen_unsure = false;
    std::map<int, List> sess;               // Session files by id.
    std::map<int, std::set<E*>> rem;        // Deferred removals by id.
    std::vector<EP> all;
    std::vector<Slot> slots;
    int turn = -1; const Op* op = nullptr; bool op_done = false;
    int next_id = 1;
    u64 hh = 7;
};
M* m;

string id_name(int id) { return std::to_string(id); }
bool running(int id) { for (auto& s : m->slots) if (s.p && s.p->alive && s.id == id) return true; return false; }
bool rem_active() { return m->save && !m->shared && m->dupe == 2; }

List view(int id, std::vector<char>* from = nullptr)
{
    List v;
    if (m->save) for (auto& e : m->master) if (!e->dead && !(rem_active() && m->rem[id].count(e.get()))) { v.push_back(e); if (from) from->push_back(1); }
    if (!m->shared || !m->save) for (auto& e : m->sess[id]) if (!e->dead) { v.push_back(e); if (from) from->push_back(0); }
    return v;
}
// Dead sessions' histories go to the master, in order of file name.
void reap(int self)
{
    std::map<string, int> names;
    for (auto& s : m->sess) names[id_name(s.first)] = s.first;
    for (auto& r : m->rem) names[id_name(r.first)] = r.first;
    for (auto& n : names)
    {
        int id = n.second;
        if (id == self || running(id)) continue;
        if (m->save)
        {
            for (auto& e : m->sess[id]) if (!e->dead) m->master.push_back(e);
            for (E* e : m->rem[id]) e->dead = true;
        }
        m->sess.erase(id); m->rem.erase(id);
    }
}
void model_start(int id)
{
    if (m->save && m->shared) return;
    m->sess[id];
    reap(id);
}
void model_remove(const EP& e, bool from_master, int id)
{
    if (from_master && rem_active()) m->rem[id].insert(e.get());
    else e->dead = true;
}
int model_remove_text(const string& t, int id)
{
    std::vector<char> from; List v = view(id, &from); int n = 0;
    for (size_t i = 0; i < v.size(); ++i) if (v[i]->text == t) { model_remove(v[i], from[i] != 0, id); n++; }
    return n;
}
// 0 refused, 1 added, 2 already there.
int model_add(const string& t, int id, bool ispace, i64 lo, i64 hi)
{
    if (t.empty() || (ispace && (t[0] == ' ' || t[0] == '\t'))) return 0;
    if (m->dupe == 1) { for (auto& e : view(id)) if (e->text == t) return 2; }
    if (m->dupe == 2) model_remove_text(t, id);
    auto e = std::make_shared<E>(); e->text = t; e->ts_lo = lo; e->ts_hi = hi;
    m->all.push_back(e);
    if (m->save && m->shared) m->master.push_back(e); else m->sess[id].push_back(e);
    return 1;
}
void model_clear(int id)
{
    if (m->save) { m->master.clear(); m->rem.clear(); m->gen++; }
    if (!m->save || !m->shared) m->sess[id].clear();
}
void model_compact(bool uniq, int limit)
{
    List a;
    for (auto& e : m->master) if (!e->dead) a.push_back(e);
    if (uniq)
    {
        List b; std::set<string> seen;
        for (size_t i = a.size(); i--;) if (seen.insert(a[i]->text).second) b.insert(b.begin(), a[i]);
        a = b;
    }
    if (limit > 0 && int(a.size()) > limit) a.erase(a.begin(), a.end() - limit);
    m->master = a;
    m->gen++;
    for (auto& r : m->rem) { std::set<E*> k; for (auto& e : a) if (r.second.count(e.get())) k.insert(e.get()); r.second = k; }
}
i64 wall() { return i64((g_sim->epoch + g_sim->now) / 1000000000ull); }

bool ts_ok(const E& e, const string& ts)
{
    if (!e.ts_hi) return ts.empty();
    i64 v = atoll(ts.c_str());
    return v >= e.ts_lo && v <= e.ts_hi;
}
void compare(const char* what, const List& want, const Lines& got)
{
    auto dump = [&] { string s; for (size_t i = 0; i < std::max(want.size(), got.size()); ++i) s += strf(" [%s|%s]", i < want.size() ? show(want[i]->text).c_str() : "-", i < got.size() ? show(got[i].first).c_str() : "-"); return s.substr(0, 500); };
    for (auto& g : got) m->hh = hash_str(g.first.data(), g.first.size(), mix(m->hh, 5));
    if (want.size() != got.size()) { sim_violate("H.view", "%s: %d lines, should be %d:%s", what, int(got.size()), int(want.size()), dump().c_str()); return; }
    for (size_t i = 0; i < want.size(); ++i)
    {
        if (want[i]->text != got[i].first) { sim_violate("H.view", "%s: line %d is '%s', should be '%s':%s", what, int(i) + 1, show(got[i].first).c_str(), show(want[i]->text).c_str(), dump().c_str()); return; }
        if (!ts_ok(*want[i], got[i].second)) { sim_violate("H.timestamp", "%s: line %d '%s' has time stamp '%s', should be %lld", what, int(i) + 1, show(got[i].first).c_str(), got[i].second.c_str(), want[i]->ts_hi); return; }
    }
}
void expect(bool ok, const char* fmt, ...)
{
    if (ok) return;
    va_list a; va_start(a, fmt); char b[1200]; vsnprintf(b, sizeof(b), fmt, a); va_end(a);
    sim_violate("H.result", "%s", b);
}

Lines* read_all(history_db& db)
{
    Lines* out; { HostScope hs; out = new Lines; }
    history_read_buffer buffer;
    int size = m->c->geti("rbuf", 0);
    if (size <= 0 || size > int(buffer.size())) size = buffer.size();
    history_db::iter it = db.read_lines(buffer.data(), size);
    str_iter line;
    str<32> ts;
    while (it.next(line, &ts)) { HostScope hs; out->push_back({ string(line.get_pointer(), line.length()), string(ts.c_str()) }); }
    return out;
}
Lines* view_rl()
{
    HostScope hs;
    auto* v = new Lines;
    HIST_ENTRY** l = history_list();
    for (int i = 0; l && i < history_length; ++i) v->push_back({ string(l[i]->line), string(l[i]->timestamp ? l[i]->timestamp : "") });
    return v;
}
void apply_settings(bool ts, bool ispace)
{
    set_setting("history.save", m->save ? "true" : "false");
    set_setting("history.shared", m->shared ? "true" : "false");
    static const char* const modes[] = { "add", "ignore", "erase_prev" };
    set_setting("history.dupe_mode", modes[m->dupe]);
    set_setting("history.time_stamp", ts ? "save" : "off");
    set_setting("history.ignore_space", ispace ? "true" : "false");
    set_setting("history.max_lines", m->c->gets("max_lines", "0").c_str());
}
void write_settings_file(bool ts, bool ispace)
{
    static const char* const modes[] = { "add", "ignore", "erase_prev" };
    fs_write("C:\\prof\\clink_settings", strf("history.save = %s\nhistory.shared = %s\nhistory.dupe_mode = %s\nhistory.time_stamp = %s\nhistory.ignore_space = %s\nhistory.max_lines = %s\n",
        m->save ? "True" : "False", m->shared ? "True" : "False", modes[m->dupe], ts ? "save" : "off", ispace ? "True" : "False", m->c->gets("max_lines", "0").c_str()));
}

// The real command, in a process of its own.
Lines split_lines(const string& s)
{
    Lines v; size_t a = 0;
    while (a < s.size()) { size_t b = s.find('\n', a); if (b == string::npos) b = s.size(); string l = s.substr(a, b - a); if (!l.empty() && l.back() == '\r') l.pop_back(); v.push_back({ l, "" }); a = b + 1; }
    return v;
}
void run_cli(const std::vector<string>* args, int id, bool ts, bool ispace, Proc** out_proc)
{
    { HostScope hs; write_settings_file(ts, ispace); }
    int parent = id;
    Proc* p = child_proc("cli", [=] {
        redirect_out(L"C:\\work\\out.txt");
        char** av = (char**)malloc(sizeof(char*) * (args->size() + 8));
        int n = 0;
        av[n++] = strdup("clink");
        av[n++] = strdup("--profile"); av[n++] = strdup("C:\\prof");
        av[n++] = strdup("--session"); { char b[16]; sprintf(b, "%d", parent); av[n++] = strdup(b); }
        av[n++] = strdup("history");
        for (auto& a : *args) av[n++] = strdup(a.c_str());
        av[n] = nullptr;
        int rc = loader(n, av);
        fflush(stdout);
        ExitProcess(rc);
    });
    *out_proc = p;
}
void do_cli(const Op& op, Slot* s)
{
    // A `history` command typed in a session uses that session's id; otherwise its own.
    int id; bool ts, ispace;
    { HostScope hs; id = s ? s->id : 100 + 7 * m->next_id++; ts = s ? s->ts : false; ispace = s ? s->ispace : true; }
    i64 lo = wall();
    Proc* p = nullptr;
    run_cli(&op.a, id, ts, ispace, &p);
    if (g_sim->ended) return;
    HostScope hs;
    i64 hi = wall();
    int rc = int(p->exit_code);
    string out = fs_read("C:\\work\\out.txt");
    // The model's turn.
    if (!s) { Slot tmp; tmp.p = p; model_start(id); /* dead by now */ } else model_start(id);
    auto& a = op.a;
    string verb = a.empty() ? "" : a[0];
    auto rest = [&](size_t i) { string t; for (; i < a.size(); ++i) t += (t.empty() ? "" : " ") + a[i]; return t; };
    string what = "history " + rest(0);
    for (char c : out) m->hh = mix(m->hh, c);
    if (s) { s->have_loaded = false; }
    if (verb == "add" || verb == "-s")
    {
        string t = rest(1);
        int r = model_add(t, id, ispace, ts ? lo : 0, ts ? hi : 0);
        expect(rc == (r ? 0 : 1), "%s: exit code %d", what.c_str(), rc);
        expect(out == strf(r ? "Added '%s' to history.\r\n" : "Unable to add '%s' to history.\r\n", t.c_str()) || out == strf(r ? "Added '%s' to history.\n" : "Unable to add '%s' to history.\n", t.c_str()), "%s: printed '%s'", what.c_str(), out.c_str());
    }
    else if (verb == "delete" || verb == "-d")
    {
        int n = atoi(a[1].c_str());
        std::vector<char> from; List v = view(id, &from);
        int k = n > 0 ? n - 1 : n < 0 ? int(v.size()) + n : -1;
        bool ok = k >= 0 && k < int(v.size());
        if (ok) model_remove(v[k], from[k] != 0, id);
        expect(rc == (ok ? 0 : 1), "%s (of %d): exit code %d", what.c_str(), int(v.size()), rc);
        if (ok) expect(split_lines(out)[0].first == strf("Deleted item %d.", k + 1), "%s: printed '%s'", what.c_str(), out.c_str());
    }
    else if (verb == "clear" || verb == "-c")
    {
        model_clear(id);
        expect(rc == 0, "%s: exit code %d", what.c_str(), rc);
    }
    else if (verb == "compact")
    {
        bool uniq = false; int limit = m->limit;
        for (size_t i = 1; i < a.size(); ++i) if (a[i] == "--unique") uniq = true; else limit = atoi(a[i].c_str());
        if (m->save) model_compact(uniq, limit);
        expect(rc == 0, "%s: exit code %d", what.c_str(), rc);
    }
    else if (verb == "expand" || verb == "-p")
    {
        string t = a[1], w; List v = view(id);
        bool ok = true;
        if (t == "!!") { if (v.empty()) ok = false; else w = v.back()->text; }
        else { int n = atoi(t.c_str() + 1); int k = n > 0 ? n - 1 : int(v.size()) + n; if (n == 0 || k < 0 || k >= int(v.size())) ok = false; else w = v[k]->text; }
        if (ok) { auto l = split_lines(out); expect(l.size() == 1 && l[0].first == w, "%s: printed '%s', should be '%s'", what.c_str(), out.c_str(), w.c_str()); }
    }
    else
    {
        bool bare = false; int tail = -1;
        for (auto& x : a) if (x == "--bare") bare = true; else tail = atoi(x.c_str());
        List v = view(id);
        size_t skip = tail >= 0 && tail < int(v.size()) ? v.size() - tail : 0;
        Lines l = split_lines(out);
        if (!bare)
            for (size_t i = 0; i < l.size(); ++i)
            {
                string n = strf("%5u  ", unsigned(skip + i + 1));
                if (l[i].first.compare(0, n.size(), n)) { sim_violate("H.view", "%s: item %d is printed as '%s'", what.c_str(), int(i) + 1, show(l[i].first).c_str()); return; }
                l[i].first = l[i].first.substr(n.size());
            }
        List w(v.begin() + skip, v.end());
        // (Time stamps are not printed.)
        for (size_t i = 0; i < l.size() && i < w.size(); ++i) if (w[i]->ts_hi) l[i].second = std::to_string(w[i]->ts_hi);
        compare(what.c_str(), w, l);
        expect(rc == 0, "%s: exit code %d", what.c_str(), rc);
    }
    if (!s && g_sim->ended == false) { /* its session file is left for others to collect */ }
    sim_note("cli %s -> %d", what.c_str(), rc);
}

void do_op(const Op& op, Slot& s)
{
    history_db& db = *s.db;
    const string& v = op.verb;
    if (v == "add")
    {
        time_t ts = 0;
        bool ok = db.add(op.arg(0).c_str(), &ts);
        HostScope hs;
        int r = model_add(op.arg(0), s.id, s.ispace, ts, ts);
        expect(ok == (r != 0), "add '%s' returned %d", show(op.arg(0)).c_str(), ok);
        expect(r != 1 || (ts != 0) == s.ts, "add '%s': time stamp %lld", show(op.arg(0)).c_str(), (long long)ts);
        expect(ts == 0 || llabs(ts - wall()) <= 2, "add '%s': time stamp %lld, now %lld", show(op.arg(0)).c_str(), (long long)ts, wall());
        sim_note("add '%s' -> %d", show(op.arg(0)).c_str(), r);
    }
    else if (v == "prompt")
    {
        db.load_rl_history();
        Lines* got = view_rl();
        HostScope hs;
        if (m->limit > 0 && m->save)
        {
            std::vector<char> from; List w = view(s.id, &from);
            int n = 0; for (char f : from) n += f;
            for (size_t i = 0; i < w.size() && n > m->limit; ++i) if (from[i]) { model_remove(w[i], true, s.id); --n; }
            m->gen_unsure = true;
        }
        s.loaded.clear(); s.from_master.clear();
        s.loaded = view(s.id, &s.from_master); s.gen = m->gen; s.have_loaded = true;
        compare("prompt", s.loaded, *got);
        delete got;
    }
    else if (v == "list")
    {
        Lines* got = read_all(db);
        HostScope hs;
        compare("list", view(s.id), *got);
        delete got;
    }
    else if (v == "rmidx")
    {
        if (!s.have_loaded || s.loaded.empty()) return;
        int k = op.num(0) % int(s.loaded.size());
        bool ok = db.remove(k, s.loaded[k]->text.c_str());
        HostScope hs;
        bool fm = s.from_master[k] != 0;
        sim_note("rmidx %d '%s' -> %d", k, show(s.loaded[k]->text).c_str(), ok);
        if (fm && s.gen != m->gen) expect(!ok, "deleting item %d of a list that is stale succeeded", k);
        else if (!fm || !m->gen_unsure) expect(ok, "deleting item %d '%s' failed", k, show(s.loaded[k]->text).c_str());
        if (ok) { model_remove(s.loaded[k], fm, s.id); s.loaded.erase(s.loaded.begin() + k); s.from_master.erase(s.from_master.begin() + k); }
    }
    else if (v == "rmline")
    {
        int n = db.remove(op.arg(0).c_str());
        HostScope hs;
        int w = model_remove_text(op.arg(0), s.id);
        sim_note("rmline '%s' -> %d", show(op.arg(0)).c_str(), n);
        expect(n == w, "deleting '%s' deleted %d lines, should be %d", show(op.arg(0)).c_str(), n, w);
    }
    else if (v == "cli") do_cli(op, &s);
}
void session(int slot, const Op* start)
{
    Slot& s = m->slots[slot];
    apply_settings(s.ts, s.ispace);
    history_db* db = new history_db(MASTER, s.id, m->save);
    if (m->c->cfg.count("threshold")) test_history_db::set_threshold(*db, m->c->geti("threshold"));
    db->initialise();
    { HostScope hs; s.db = db; model_start(s.id); s.have_loaded = false; }
    m->op_done = true;
    for (;;)
    {
        sim_block("turn", [slot] { return m->turn == slot && !m->op_done; }, FOREVER);
        if (g_sim->ended) return;
        const Op& op = *m->op;
        if (op.verb == "end" || op.verb == "kill") break;
        do_op(op, s);
        m->op_done = true;
    }
    if (m->op->verb == "kill") { m->op_done = true; TerminateProcess(GetCurrentProcess(), 1); }
    delete db;
    HostScope hs;
    // Its destructor collects dead sessions, and itself.
    Proc* p = s.p; s.p = nullptr;
    reap(-1);
    s.p = p;
    s.id = -1;
}

void final_check()
{
    quiesce();
    Lines* got = nullptr;
    bool save = m->save; m->save = true;
    host_run_proc("final", [&] {
        apply_settings(false, true);
        history_db db(MASTER, 99999, true);
        db.initialise();
        got = read_all(db);
    });
    m->save = save;
    if (g_sim->ended) return;
    if (!m->save) m->master = m->all.size() ? List() : List();
    if (m->save)
    {
        for (auto& s : m->slots) if (!s.p || !s.p->alive) s.id = -1;
        if (!m->shared) reap(99999); else m->sess.clear();
    }
    List want;
    if (m->save) { for (auto& e : m->master) if (!e->dead) want.push_back(e); }
    else want = m->master;
    compare("final", want, *got);
    delete got;
}

void run(const Case& c)
{
    M model; m = &model; m->c = &c;
    m->shared = c.geti("shared") != 0; m->save = c.geti("save", 1) != 0; m->dupe = c.geti("dupe", 0); m->limit = c.geti("max_lines", 0);
    use_sched(c);
    fs_mkdir("C:\\prof"); fs_mkdir("C:\\work");
    string init = c.gets("init");
    if (!init.empty() && m->save)
    {
        // Lines from before: in the old file, in a master file without a tag, or with one.
        string t;
        string kind = c.gets("init_kind");
        i64 ts = 0; size_t a = 0; bool removed = false;
        if (kind == "tagged") t = "|CTAG_1234_5678_9_10\n";
        string all = unesc(init);
        while (a < all.size())
        {
            size_t b = all.find('\n', a); if (b == string::npos) b = all.size();
            string l = all.substr(a, b - a); a = b + 1;
            if (l.empty()) continue;
            t += l + (c.geti("crlf") ? "\r\n" : "\n");
            if (kind != "old" && l.compare(0, 7, "|\ttime=") == 0) { ts = atoll(l.c_str() + 7); continue; }
            if (kind != "old" && l[0] == '|') { ts = 0; continue; }
            auto e = std::make_shared<E>(); e->text = l; e->ts_lo = e->ts_hi = ts; ts = 0;
            m->master.push_back(e); m->all.push_back(e);
        }
        fs_write(kind == "old" ? "C:\\prof\\.history" : MASTER, t);
    }
    if (c.geti("bulk") && m->save)
    {
        // A long history: larger than the buffers it is read with.
        string t = fs_exists(MASTER) ? fs_read(MASTER) : string("|CTAG_1234_5678_9_10\n");
        Rng r(c.geti("bulk_seed"));
        if (!fs_exists("C:\\prof\\.history"))
        {
            for (int i = 0; i < c.geti("bulk"); ++i)
            {
                string l = r.chance(0.05) ? string(r.chance(0.5) ? "dir" : "cls") : strf("line %d ", i) + string(r.below(90), char('a' + i % 26));
                i64 ts = 0;
                if (r.chance(0.2)) { ts = 1600000100 + i; t += strf("|\ttime=%lld\n", ts); }
                t += l + "\n";
                auto e = std::make_shared<E>(); e->text = l; e->ts_lo = e->ts_hi = ts;
                m->master.push_back(e); m->all.push_back(e);
            }
            fs_write(MASTER, t);
        }
    }
    int nslots = 1;
    for (auto& o : c.ops) nslots = std::max(nslots, o.actor + 1);
    m->slots.resize(nslots);
    Proc* ctl = sim_new_proc("controller");
    ctl->native = true;
    sim_new_thread(ctl, "controller", [&c] {
        HostScope hs;
        for (auto& o : c.ops)
        {
            if (g_sim->ended) return;
            if (o.verb == "tick") { sim_sleep(ms(u64(o.num(0)) * 1000)); continue; }
            if (o.verb == "xcli") { do_cli(o, nullptr); continue; }
            Slot& s = m->slots[o.actor];
            bool up = s.p && s.p->alive;
            if (o.verb == "start")
            {
                if (up) continue;
                int id = o.arg(0) == "same" && s.id > 0 ? s.id : 100 + 7 * m->next_id++;
                s.id = id; s.ts = o.num(1) != 0; s.ispace = o.num(2) != 0;
                s.have_loaded = false;
                int actor = o.actor; const Op* op = &o;
                m->op_done = false;
                s.p = sim_new_proc("cmd");
                sim_new_thread(s.p, "cmd", [actor, op] { session(actor, op); });
                sim_block("started", [] { return m->op_done; }, FOREVER);
                continue;
            }
            if (!up) continue;
            m->op = &o; m->op_done = false; m->turn = o.actor;
            if (o.verb == "end" || o.verb == "kill") { sim_join_proc(s.p); m->op_done = true; m->turn = -1; continue; }
            sim_block("done", [] { return m->op_done; }, FOREVER);
            m->turn = -1;
        }
        // Everybody ends.
        static Op end; end.verb = "end";
        for (auto& s : m->slots)
            if (s.p && s.p->alive) { m->op = &end; m->op_done = false; m->turn = int(&s - &m->slots[0]); sim_join_proc(s.p); m->turn = -1; }
    });
    sim_run();
    if (!g_sim->ended) final_check();
    sim_state(m->hh);
    m = nullptr;
}

string word(Rng& r)
{
    static const char* const w[] = { "dir", "git status", "cls", "exit", "echo hi", "DIR", "cd ..", "\xc3\xa9t\xc3\xa9", "a|b", "x \"y z\"", "foo  bar", "type a.txt & b", "time=1", "CTAG_x" };
    string t = w[r.below(14)];
    if (r.chance(0.4)) t += strf(" %d", r.below(6));
    if (r.chance(0.06)) t = (r.chance(0.5) ? " " : "\t") + t;
    if (r.chance(0.04)) { int n = r.range(30, 400); while (int(t.size()) < n) t += char('a' + r.below(26)); }
    return t;
}
void generate(Rng& r, Case& c, int tier)
{
    c.seti("shared", r.chance(0.35));
    c.seti("save", !r.chance(0.08));
    c.seti("dupe", r.below(3));
    c.sets("p_preempt", "0");
    bool limits = r.chance(0.3) && (c.geti("shared") || c.geti("dupe") != 2);
    if (limits) { c.seti("max_lines", r.range(2, 12)); c.seti("threshold", r.below(4)); }
    if (r.chance(0.2)) c.seti("rbuf", r.range(2000, 6000));
    if (r.chance(0.35))
    {
        static const char* const kinds[] = { "old", "bare", "tagged" };
        string kind = kinds[r.below(3)]; c.sets("init_kind", kind);
        c.seti("crlf", r.chance(0.3));
        string t; int n = r.range(1, 12);
        for (int i = 0; i < n; ++i) { if (kind != "old" && r.chance(0.3)) t += strf("|\ttime=%d\n", 1600000000 + i); if (kind != "old" && r.chance(0.15)) t += "|emoved line\n"; else t += word(r) + "\n"; }
        c.sets("init", esc(t));
    }
    if (!limits && r.chance(0.07)) { c.seti("bulk", r.range(900, 2600)); c.seti("bulk_seed", r.below(1000000)); c.cfg.erase("rbuf"); }
    int mixts = r.below(3);
    int nslots = r.range(1, 4), total = r.range(6, tier ? 60 : 35);
    std::vector<int> up(nslots);
    std::vector<string> known;
    auto txt = [&] { if (!known.empty() && r.chance(0.4)) return r.pick(known); string t = word(r); known.push_back(t); return t; };
    for (int i = 0; i < total; ++i)
    {
        int s = r.below(nslots);
        if (!up[s]) { c.add(s, "start", { r.chance(0.2) ? "same" : "new", mixts == 2 ? std::to_string(r.below(2)) : std::to_string(mixts), std::to_string(r.chance(0.8)) }); up[s] = 1; if (r.chance(0.5)) c.add(s, "prompt"); }
        int k = r.below(100);
        if (k < 36) c.add(s, "add", { txt() });
        else if (k < 48) c.add(s, "prompt");
        else if (k < 53) c.add(s, "list");
        else if (k < 60) c.add(s, "rmidx", { std::to_string(r.below(40)) });
        else if (k < 64) c.add(s, "rmline", { txt() });
        else if (k < 69) { c.add(s, "end"); up[s] = 0; }
        else if (k < 72) { c.add(s, "kill"); up[s] = 0; }
        else if (k < 75) c.add(s, "tick", { std::to_string(r.range(1, 100)) });
        else
        {
            const char* v = r.chance(0.15) ? "xcli" : "cli";
            int q = r.below(20);
            if (q < 3) c.add(s, v, { r.chance(0.7) ? "add" : "-s", r.chance(0.5) ? word(r) : "two", "words" });
            else if (q < 7) c.add(s, v, { r.chance(0.8) ? "delete" : "-d", std::to_string(r.chance(0.3) ? -r.range(1, 8) : r.range(0, 14)) });
            else if (q < 9) c.add(s, v, { r.chance(0.7) ? "clear" : "-c" });
            else if (q < 13) { std::vector<string> a{ "compact" }; if (r.chance(0.4)) a.push_back(std::to_string(r.range(0, 12))); if (r.chance(0.4)) a.push_back("--unique"); c.add(s, v, a); }
            else if (q < 15) c.add(s, v, { r.chance(0.7) ? "expand" : "-p", r.chance(0.4) ? "!!" : strf("!%s%d", r.chance(0.4) ? "-" : "", r.range(1, 8)) });
            else { std::vector<string> a; if (r.chance(0.5)) a.push_back("--bare"); if (r.chance(0.4)) a.push_back(std::to_string(r.range(0, 12))); c.add(s, v, a); }
        }
    }
}

RegScenario reg("histmodel", "H03", generate, run);
}
