// History database: several sessions (processes) share the history files, with fine
// grained interleavings, crashes and I/O errors.  Most lines are unique, so that every
// line has an identity, and the fate of each one can be decided at the end.
#include "sc_common.h"
#include <lib/history_db.h>
extern "C" {
#include <readline/history.h>
}

struct test_history_db { static void set_threshold(history_db& db, size_t n) { db.m_min_compact_threshold = n; } };

namespace {

const char* const MASTER = "C:\\prof\\clink_history";

struct Ent                                  // One add.
{
    string text;
    int slot = 0, inc = 0;                  // Session slot and incarnation.
    u64 t0 = 0, t1 = ~0ull;
    int status = 0;                         // 0 in flight/unknown, 1 added, 2 refused.
    bool removed = false, maybe_removed = false;    // Removal reported / in flight.
    u64 rem_t1 = ~0ull;                     // When the removal was reported.
    string ts;
    bool uniq = true;
};
struct Inc { int slot, inc; u64 begin = 0, init_done = ~0ull, end_begin = ~0ull, gone = ~0ull; bool crashed = false; Proc* p = nullptr; };
struct Clr { int inc; u64 t0, t1 = ~0ull; };

struct H
{
    const Case* c;
    std::vector<Ent> ents;
    std::map<string, int> by_text;          // Unique lines.
    std::map<string, std::vector<int>> dups;
    std::map<string, int> dup_removed;      // Removals of duplicate lines (upper bound).
    std::map<string, bool> dup_maybe;
    std::map<string, int> pending_rm;       // Removals (of lines not added yet) that began and did not end.
    std::vector<Inc> incs;
    int past = -1;                          // Stands for sessions before this run (lines of earlier versions).
    std::vector<Clr> clears;
    std::set<string> partial;               // Texts whose add reported a failure.
    int next_id = 1;
    bool shared, ts; int dupe; int limit; bool compacts_uniq = false, removals = false, limits = false;
    bool rewrite_crash = false;             // Crash inside a rewrite of the master file.
    bool io_faults = false;
    u64 compactions = 0;
    std::map<Proc*, string> op_now;
    std::map<Proc*, string> master_at;      // Master contents when a rewriting operation began.
};
H* h;

u64 step() { return g_sim->steps; }

void apply_settings()
{
    const Case& c = *h->c;
    set_setting("history.shared", h->shared ? "true" : "false");
    static const char* const modes[] = { "add", "ignore", "erase_prev" };
    set_setting("history.dupe_mode", modes[h->dupe]);
    set_setting("history.time_stamp", h->ts ? "save" : "off");
    set_setting("history.max_lines", c.gets("max_lines", "0").c_str());
}

// What an operation on this session's history sees must be explainable.
void check_view(const std::vector<std::pair<string, string>>& lines, int inc, u64 t0, const char* what)
{
    std::map<string, int> n;
    for (auto& l : lines) n[l.first]++;
    for (auto& l : n)
    {
        auto u = h->by_text.find(l.first);
        if (u == h->by_text.end())
        {
            if (h->dups.count(l.first)) continue;
            bool part = false;
            for (auto& p : h->partial) if (l.first.size() < p.size() && p.compare(0, l.first.size(), l.first) == 0) part = true;
            if (part) continue;
            sim_violate("H.garbled", "%s: the history has a line nobody added: '%s'", what, show(l.first).c_str());
            return;
        }
        if (l.second > 1) { sim_violate("H.duplicated", "%s: '%s' was added once but is present %d times", what, show(l.first).c_str(), l.second); return; }
        Ent& e = h->ents[u->second];
        if (!h->shared && inc >= 0 && e.inc != inc)
        {
            Inc& o = h->incs[e.inc];
            if (o.end_begin == ~0ull && !o.crashed && o.p->alive) { sim_violate("H.leaked", "%s: session %d sees '%s' of session %d, which is still running with its own history", what, inc, show(l.first).c_str(), e.inc); return; }
        }
        if (!h->io_faults && e.removed && e.rem_t1 < t0 && (h->shared || e.inc == inc || inc < 0)) { sim_violate("H.resurrected", "%s: '%s' was deleted but is back", what, show(l.first).c_str()); return; }
    }
    if (inc >= 0)
        for (auto& e : h->ents)
        {
            if (!e.uniq || e.status != 1 || e.t1 >= t0 || e.removed || e.maybe_removed || h->limits) continue;
            bool mine = e.inc == inc || h->shared || e.inc == h->past;
            if (!mine || n.count(e.text)) continue;
            bool cleared = false;
            for (auto& k : h->clears) if (k.t1 > e.t0) cleared = true;
            if (cleared) continue;
            sim_violate("H.lost", "%s: session %d does not see '%s', which was added by session %d", what, inc, show(e.text).c_str(), e.inc);
            return;
        }
}

std::vector<std::pair<string, string>> read_all(history_db& db)
{
    std::vector<std::pair<string, string>> out;
    history_read_buffer buffer;
    int size = h->c->geti("rbuf", 0);
    if (size <= 0 || size > int(buffer.size())) size = buffer.size();
    history_db::iter it = db.read_lines(buffer.data(), size);
    str_iter line;
    str<32> ts;
    while (it.next(line, &ts)) { HostScope hs; out.push_back({ string(line.get_pointer(), line.length()), string(ts.c_str()) }); }
    return out;
}
#define HOSTVEC(decl) HostScope __hs; decl

std::vector<std::pair<string, string>>* view_rl()
{
    HostScope hs;
    auto* v = new std::vector<std::pair<string, string>>;
    HIST_ENTRY** l = history_list();
    for (int i = 0; l && i < history_length; ++i) v->push_back({ string(l[i]->line), string(l[i]->timestamp ? l[i]->timestamp : "") });
    return v;
}

void begin_op(const string& name) { HostScope hs; h->op_now[cur_proc()] = name; h->master_at.erase(cur_proc()); }
void end_op() { HostScope hs; h->op_now.erase(cur_proc()); h->master_at.erase(cur_proc()); }

int find_ent(const string& text) { auto u = h->by_text.find(text); return u == h->by_text.end() ? -1 : u->second; }

void do_add(history_db& db, const Op& op, int inc)
{
    int i;
    { HostScope hs; Ent e; e.text = op.arg(0); e.slot = op.actor; e.inc = inc; e.t0 = step(); e.uniq = op.arg(1) != "d"; e.maybe_removed = h->pending_rm.count(e.text) && h->pending_rm[e.text] > 0; i = int(h->ents.size()); h->ents.push_back(e);
      if (e.uniq) h->by_text[e.text] = i; else h->dups[e.text].push_back(i); h->partial.insert(e.text); }
    time_t ts = 0;
    bool ok = db.add(op.arg(0).c_str(), &ts);
    { HostScope hs; Ent& e = h->ents[i]; e.t1 = step(); e.status = ok ? 1 : 2; if (h->ts && ts) e.ts = std::to_string((unsigned)ts);
      if (ok) h->partial.erase(e.text); sim_note("add %s '%s'", ok ? "ok" : "REFUSED", show(e.text).c_str()); }
    if (!ok && !h->io_faults) sim_violate("H.lost", "adding '%s' failed without any I/O error", show(op.arg(0)).c_str());
}
void do_prompt(history_db& db, int inc)
{
    u64 t0 = step();
    begin_op("load");
    db.load_rl_history();
    end_op();
    auto* v = view_rl();
    { HostScope hs; if (!h->io_faults) check_view(*v, inc, t0, "prompt"); delete v; }
}
void note_removal_begin(const string& text) { HostScope hs; int e = find_ent(text); if (e >= 0) h->ents[e].maybe_removed = true; else { h->dup_maybe[text] = true; ++h->pending_rm[text]; } h->removals = true; }
void note_removal_end(const string& text, bool ok, int n = 1)
{
    HostScope hs;
    sim_note("removed '%s': %d", show(text).c_str(), ok ? n : 0);
    auto pr = h->pending_rm.find(text);
    if (pr != h->pending_rm.end() && pr->second > 0) --pr->second;
    int i = find_ent(text);
    if (i >= 0) { Ent& e = h->ents[i]; if (ok) { e.removed = true; e.rem_t1 = step(); } }
    else if (ok) h->dup_removed[text] += n;
}
// Picks an item of the loaded list as a user would, and deletes it.
void do_rmidx(history_db& db, const Op& op, int inc)
{
    do_prompt(db, inc);
    HIST_ENTRY** l = history_list();
    int n = l ? history_length : 0;
    if (!n) return;
    int k = op.num(0) % n;
    string text; { HostScope hs; text = l[k]->line; }
    note_removal_begin(text);
    begin_op("rmidx");
    bool ok = db.remove(k, text.c_str());
    end_op();
    note_removal_end(text, ok);
    HostScope hs; text = string();
}
void do_rmline(history_db& db, const Op& op)
{
    note_removal_begin(op.arg(0));
    begin_op("rmline");
    int n = db.remove(op.arg(0).c_str());
    end_op();
    note_removal_end(op.arg(0), n > 0, n);
}
// `clink history delete N`, in its own process.
void cli_delete(int id, const Op& op, int inc)
{
    apply_settings();
    history_db db(MASTER, id, true);
    begin_op("cli_init");
    db.initialise();
    end_op();
    history_db::line_id target = 0;
    string text;
    {
        history_read_buffer buffer;
        std::vector<history_db::line_id> ids;
        str_iter line;
        history_db::iter it = db.read_lines(buffer.data(), buffer.size());
        while (history_db::line_id l = it.next(line)) ids.push_back(l);
        if (ids.empty()) { TerminateProcess(GetCurrentProcess(), 0); return; }
        target = ids[op.num(0) % ids.size()];
    }
    {
        // Find what that item is (what the user sees in the list).
        history_read_buffer buffer;
        str_iter line;
        history_db::iter it = db.read_lines(buffer.data(), buffer.size());
        while (history_db::line_id l = it.next(line)) if (l == target) { HostScope hs; text.assign(line.get_pointer(), line.length()); }
    }
    if (text.empty()) { ExitProcess(0); }
    note_removal_begin(text);
    begin_op("cli_delete");
    bool ok = db.remove(target);
    end_op();
    note_removal_end(text, ok);
    ExitProcess(0);
}
void cli_clear(int id, int inc)
{
    apply_settings();
    size_t k;
    history_db db(MASTER, id, true);
    begin_op("cli_init"); db.initialise(); end_op();
    { HostScope hs; k = h->clears.size(); Clr c; c.inc = inc; c.t0 = step(); h->clears.push_back(c); }
    begin_op("clear");
    db.clear();
    end_op();
    { HostScope hs; h->clears[k].t1 = step(); sim_note("cleared"); }
    ExitProcess(0);
}
void cli_compact(int id, const Op& op)
{
    apply_settings();
    history_db db(MASTER, id, true);
    begin_op("cli_init"); db.initialise(); end_op();
    begin_op("compact");
    db.compact(true, op.num(0) != 0, op.num(1));
    end_op();
    { HostScope hs; h->compactions++; sim_note("compacted"); }
    ExitProcess(0);
}

void session(int slot, int inc, int id, std::vector<const Op*>* ops)
{
    apply_settings();
    begin_op("init");
    history_db* db = new history_db(MASTER, id, true);
    test_history_db::set_threshold(*db, h->c->geti("threshold", 200));
    db->initialise();
    end_op();
    { HostScope hs; h->incs[inc].init_done = step(); }
    bool ended = false;
    for (const Op* op : *ops)
    {
        sim_point("op");
        const string& v = op->verb;
        if (v == "add") { begin_op("add"); do_add(*db, *op, inc); end_op(); }
        else if (v == "prompt") do_prompt(*db, inc);
        else if (v == "rmidx") do_rmidx(*db, *op, inc);
        else if (v == "rmline") do_rmline(*db, *op);
        else if (v == "list") { u64 t0 = step(); auto l = read_all(*db); HostScope hs; if (!h->io_faults) check_view(l, inc, t0, "list"); l = {}; }
        else if (v == "cli_delete") child_proc("cli", [=] { cli_delete(id, *op, inc); });
        else if (v == "cli_clear") child_proc("cli", [=] { cli_clear(id, inc); });
        else if (v == "cli_compact") child_proc("cli", [=] { cli_compact(id, *op); });
        else if (v == "sleep") sim_sleep(ms(op->num(0)));
        else if (v == "kill") { { HostScope hs; h->incs[inc].crashed = true; h->incs[inc].end_begin = step(); } TerminateProcess(GetCurrentProcess(), 1); }
        else if (v == "end") { ended = true; break; }
    }
    { HostScope hs; h->incs[inc].end_begin = step(); }
    begin_op("exit");
    delete db;
    end_op();
    { HostScope hs; h->incs[inc].gone = step(); }
}

void final_check()
{
    // One more session collects what is left and lists the history.
    std::vector<std::pair<string, string>>* all = new std::vector<std::pair<string, string>>;
    quiesce();
    host_run_proc("final", [&] {
        apply_settings();
        history_db db(MASTER, 9999, true);
        db.initialise();
        auto l = read_all(db);
        { HostScope hs; *all = l; l = {}; }
    });
    if (g_sim->ended) return;
    for (auto& f : fs_list("C:\\prof"))
        if (!h->io_faults && f != "clink_history" && f != ".history" && f != "clink_history.migrate" && f.find(".removals") == string::npos && f.compare(0, 18, "clink_history_9999") != 0) { sim_violate("H.orphan", "file '%s' of a session that is gone was not collected", f.c_str()); return; }
    { u64 hh = 7; for (auto& l : *all) hh = hash_str(l.first.data(), l.first.size(), mix(hh, 3)); sim_state(hh); }
    if (g_sim->trace) for (auto& l : *all) sim_note("final: '%s' %s", show(l.first).c_str(), l.second.c_str());
    check_view(*all, -1, step(), "final");
    if (g_sim->ended) return;
    std::map<string, int> pos; std::map<string, int> count;
    for (size_t i = 0; i < all->size(); ++i) { pos[(*all)[i].first] = int(i); count[(*all)[i].first]++; }
    // Lines.
    size_t must = 0;
    for (auto& e : h->ents)
    {
        if (!e.uniq) continue;
        bool present = pos.count(e.text) != 0;
        if (e.status == 2 && present && !h->io_faults) { sim_violate("H.unwanted", "'%s' was refused but is in the history", show(e.text).c_str()); return; }
        if (e.removed && present && !h->io_faults) { sim_violate("H.resurrected", "'%s' was deleted but is in the history", show(e.text).c_str()); return; }
        if (e.status != 1) continue;
        bool maybe = e.removed || e.maybe_removed;
        for (auto& k : h->clears)
        {
            Inc& o = h->incs[e.inc];
            if (k.t1 < e.t0) continue;
            // A clear removes what the clearing session sees; other running sessions keep their lines.
            // (A session that could not create its own file uses the master history.)
            if (h->io_faults) { maybe = true; continue; }
            if (!h->shared && k.inc != e.inc && o.end_begin > k.t1 && !o.crashed) continue;
            if (!h->shared && k.inc != e.inc && o.crashed && o.end_begin > k.t1) continue;
            maybe = true;
            // Certainly cleared?
            bool sure = k.t1 != ~0ull && e.t1 < k.t0 && (h->shared || k.inc == e.inc || e.inc == h->past);
            if (sure && present && !h->io_faults) { sim_violate("H.resurrected", "'%s' was cleared but is in the history", show(e.text).c_str()); return; }
        }
        if (!maybe) must++;
        if (present || maybe || h->limits || h->rewrite_crash) continue;
        sim_violate("H.lost", "'%s' was added by session %d and never deleted, but is not in the history", show(e.text).c_str(), e.inc);
        return;
    }
    if (h->rewrite_crash) return;
    // Time stamps stay with their lines.
    for (auto& e : h->ents)
        if (e.uniq && pos.count(e.text) && e.status == 1 && (*all)[pos[e.text]].second != e.ts && !(h->io_faults && (*all)[pos[e.text]].second.empty()))
        { sim_violate("H.timestamp", "'%s' has time stamp '%s' instead of '%s'", show(e.text).c_str(), (*all)[pos[e.text]].second.c_str(), e.ts.c_str()); return; }
    // Order.
    for (size_t i = 0; i < h->ents.size(); ++i)
        for (size_t j = 0; j < h->ents.size(); ++j)
        {
            Ent& a = h->ents[i]; Ent& b = h->ents[j];
            if (!a.uniq || !b.uniq || a.status != 1 || b.status != 1 || a.t1 >= b.t0) continue;
            if (!h->shared && a.inc != b.inc && a.inc != h->past) continue;
            auto pa = pos.find(a.text), pb = pos.find(b.text);
            if (pa == pos.end() || pb == pos.end())
            {
                // The limit drops the oldest lines.
                if (h->limits && !h->io_faults && pa != pos.end() && !b.removed && !b.maybe_removed && h->clears.empty()) { sim_violate("H.limit", "'%s' was dropped but the older '%s' was kept", show(b.text).c_str(), show(a.text).c_str()); return; }
                continue;
            }
            if (pa->second > pb->second) { sim_violate("H.order", "'%s' was added before '%s' but comes after it", show(a.text).c_str(), show(b.text).c_str()); return; }
        }
    // The limit never drops more than it has to.
    if (h->limits && h->clears.empty() && !h->removals && !h->compacts_uniq)
    {
        size_t n = all->size();
        size_t lim = size_t(h->limit);
        // A crash while moving an earlier copy of a line to the end can lose that copy.
        if (h->dupe == 2) for (auto& i : h->incs) if (i.crashed && lim) lim--;
        if (n < std::min(lim, must)) { sim_violate("H.limit", "only %d lines are left of %d, with a limit of %d", int(n), int(must), int(lim)); return; }
    }
    // Repeated lines.
    for (auto& d : h->dups)
    {
        int ok = 0, flight = 0; std::set<int> sess;
        for (int i : d.second) { if (h->ents[i].status == 1) ok++; else flight++; sess.insert(h->ents[i].inc); }
        int have = count.count(d.first) ? count[d.first] : 0;
        int removed = h->dup_removed.count(d.first) ? h->dup_removed[d.first] : 0;
        bool maybe = h->dup_maybe.count(d.first) || !h->clears.empty() || h->limits;
        int lo = 0, hi = ok + flight;
        if (!maybe && ok) lo = h->dupe == 0 && !h->compacts_uniq ? ok : (h->dupe == 2 && flight ? 0 : 1);
        if (h->dupe == 2) hi = h->shared ? (int(sess.size())) : int(sess.size());
        if (have < lo) { sim_violate("H.lost", "repeated line '%s': %d adds succeeded but it is present %d times", show(d.first).c_str(), ok, have); return; }
        if (have > hi && !h->io_faults) { sim_violate("H.duplicated", "repeated line '%s': added %d times in %d sessions but present %d times", show(d.first).c_str(), ok + flight, int(sess.size()), have); return; }
        (void)removed;
    }
}

// Whether (some leading part of) a session's file is at the end of the master history.
bool overlap_tail(const string& master, const string& d)
{
    size_t e = d.find('\n');
    string first = d.substr(0, e == string::npos ? d.size() : e + 1);
    return master.find(first) != string::npos;
}

void run(const Case& c)
{
    H model; h = &model; h->c = &c;
    h->shared = c.geti("shared") != 0; h->dupe = c.geti("dupe", 0); h->ts = c.geti("ts") != 0; h->limit = c.geti("max_lines", 0);
    h->limits = h->limit > 0;
    h->io_faults = c.geti("faults") > 0;
    use_sched(c);
    g_sim->policy.pick = [&](const char* api, const std::wstring& path, Rng& r) -> int {
        string k = c.gets("fault_api", "write");
        if (k != api) return 0;
        if (path.find(L"clink_history") == std::wstring::npos) return 0;
        if (path.find(L'~') != std::wstring::npos) return 0; // Without its alive file a session is indistinguishable from a dead one.
        if (k == "write" && h->master_at.count(cur_proc())) { sim_known("compact-write-error", "H.lost", "a write failed while rewriting the master history; lines that were there before are gone"); return 0; }
        if (k == "write") return r.chance(0.5) ? 0x10000 + ERROR_DISK_FULL : ERROR_DISK_FULL;
        if (k == "open") return r.chance(0.5) ? ERROR_ACCESS_DENIED : ERROR_TOO_MANY_OPEN_FILES;
        if (k == "delete") return ERROR_ACCESS_DENIED;
        if (k == "LockFileEx") return ERROR_LOCK_FAILED;
        return ERROR_IO_DEVICE;
    };
    for (auto& o : c.ops) { if (o.verb == "cli_compact") { if (o.num(0)) h->compacts_uniq = true; if (o.num(1) >= 0 && o.num(1) != 0) h->limits = true, h->limit = h->limit ? std::min(h->limit, o.num(1)) : o.num(1); } }
    fs_mkdir("C:\\prof");
    // Known findings: which crashes hit a window that is known to lose or duplicate lines.
    g_sim->on_fs = [&](char op, const string& path, u64 n) {
        if (path != MASTER || op != 't' || n) return;
        auto o = h->op_now.find(cur_proc());
        if (o == h->op_now.end() || o->second == "clear") return;
        string old = fs_read(MASTER);
        if (!old.empty()) h->master_at[cur_proc()] = old;
    };
    g_sim->on_crash = [&](Proc* p) {
        for (auto& i : h->incs) if (i.p == p) { i.crashed = true; if (i.end_begin == ~0ull) i.end_begin = step(); }
        auto o = h->op_now.find(p);
        if (o == h->op_now.end()) return;
        // The master history is rewritten in place.
        if (h->master_at.count(p)) { h->rewrite_crash = true; sim_known("compact-crash", "H.lost", "process died while rewriting the master history; lines that were there before it are gone"); return; }
        // A session's file is appended to the master history and then emptied.
        if (o->second == "init" || o->second == "exit" || o->second == "cli_init" || o->second == "final")
        {
            string master = fs_read(MASTER);
            for (auto& f : fs_list("C:\\prof"))
            {
                if (f.compare(0, 14, "clink_history_") || f.find('.') != string::npos || f.find('~') != string::npos) continue;
                string d = fs_read(("C:\\prof\\" + f).c_str());
                if (d.size() > 2 && overlap_tail(master, d)) { sim_known("reap-crash", "H.duplicated", "process died between copying session file '%s' to the master history and emptying it", f.c_str()); return; }
            }
        }
    };
    if (c.geti("init"))
    {
        // Lines from before: in the file of an old version, in a history without a tag, or with one.
        string kind = c.gets("init_kind"), t = kind == "tagged" ? "|CTAG_1234_5678_9_10\n" : "";
        if (kind == "old" && h->io_faults) kind = "bare"; // (Lines that cannot be read cannot be migrated.)
        Inc I; I.slot = -1; I.inc = h->past = 0; I.init_done = I.end_begin = I.gone = 0; I.p = nullptr;
        h->incs.push_back(I);
        for (int i = 0; i < c.geti("init"); ++i)
        {
            Ent e; e.text = strf("old%d line", i) + string(c.geti("pad") ? (i * 37) % c.geti("pad") : 0, 'p'); e.slot = -1; e.inc = 0; e.t0 = e.t1 = 0; e.status = 1;
            if (kind != "old" && i % 3 == 1) { e.ts = std::to_string(1600000000 + i); t += "|\ttime=" + e.ts + "\n"; }
            t += e.text + "\n";
            h->by_text[e.text] = int(h->ents.size()); h->ents.push_back(e);
        }
        fs_write(kind == "old" ? "C:\\prof\\.history" : MASTER, t);
    }
    int nslots = 0;
    for (auto& o : c.ops) nslots = std::max(nslots, o.actor + 1);
    std::vector<std::vector<std::vector<const Op*>>> plan(nslots);
    for (auto& o : c.ops) { auto& pl = plan[o.actor]; if (pl.empty() || o.verb == "start") pl.push_back({}); if (o.verb != "start") pl.back().push_back(&o); }
    g_sim->may_crash = [](Proc* p) { return !p->native; };
    for (int sl = 0; sl < nslots; ++sl)
    {
        if (plan[sl].empty()) continue;
        Proc* ctl = sim_new_proc("slot");
        ctl->native = true;
        auto* pl = &plan[sl];
        sim_new_thread(ctl, "slot", [sl, pl] {
            for (auto& seg : *pl)
            {
                HostScope hs;
                int inc = int(h->incs.size());
                Inc I; I.slot = sl; I.inc = inc; I.begin = step();
                int id = 100 + (h->next_id++) * 7;
                Proc* p = sim_new_proc("cmd");
                I.p = p;
                h->incs.push_back(I);
                auto* ops = &seg;
                sim_new_thread(p, "cmd", [=] { session(sl, inc, id, ops); });
                sim_join_proc(p);
            }
        });
    }
    sim_run();
    if (!g_sim->ended) final_check();
    h = nullptr;
}

string gen_text(Rng& r, int slot, int n, bool small)
{
    string t = strf("u%d.%d ", slot, n);
    int len = !small && r.chance(0.03) ? r.range(300, 9000) : r.range(0, 24);
    static const char* const bits[] = { "dir ", "git ", "|x", "\xc3\xa9", "\xe6\xbc\xa2", "a", "b", "\"q\"", "\t", "%PATH%", "&&", "> nul", "1", "CTAG_", "time=" };
    while (int(t.size()) < len) t += bits[r.below(15)];
    while (!t.empty() && t.back() == ' ') t.pop_back();
    return t;
}

void generate(Rng& r, Case& c, int tier)
{
    int profile = c.cfg.count("profile") ? c.geti("profile") : r.below(7);
    c.seti("profile", profile);
    c.cfg.erase("faults");
    c.seti("shared", profile != 6 && r.chance(0.4));
    c.seti("dupe", profile == 6 ? 2 : r.below(3));
    c.seti("ts", r.chance(0.4));
    if (r.chance(0.2)) c.seti("rbuf", r.range(1200, 4000));
    int nslots = r.range(2, 4), total = r.range(6, tier ? 40 : 28);
    bool io = c.cfg.count("io") ? c.geti("io") : r.chance(0.25);
    if (!io) gen_sched(r, c, true);
    else
    {
        gen_sched(r, c, false);
        static const char* const apis[] = { "write", "open", "read", "delete", "LockFileEx" };
        if (!c.cfg.count("fault_api")) c.sets("fault_api", apis[r.below(5)]);
        c.sets("p_fault", r.chance(0.5) ? "0.02" : "0.1"); c.seti("faults", r.range(1, 4));
    }
    if (r.chance(0.3)) { static const char* const kinds[] = { "old", "bare", "tagged" }; c.seti("init", r.range(1, 6)); c.sets("init_kind", kinds[r.below(3)]); }
    if (profile == 7)
    {
        // Many lines and many deletions in one session.
        c.seti("shared", r.chance(0.2)); c.seti("init", r.range(40, 250)); c.sets("init_kind", r.chance(0.5) ? "tagged" : "bare");
        if (r.chance(0.5)) c.seti("pad", r.range(100, 900));
        int s = r.below(nslots);
        for (int i = 0; i < nslots; ++i) c.add(i, "start");
        int k = r.range(30, 140);
        for (int i = 0; i < k; ++i) c.add(s, "rmidx", { std::to_string(r.below(1000)) });
        std::vector<int> n(nslots);
        for (int i = 0; i < total / 2; ++i)
        {
            int a = r.below(nslots), w = r.below(10);
            if (w < 3) c.add(a, "add", { gen_text(r, a, n[a]++, c.geti("rbuf") != 0) });
            else if (w < 5) c.add(a, "prompt");
            else if (w < 8) c.add(a, "rmidx", { std::to_string(r.below(1000)) });
            else if (w < 9) c.add(a, "cli_compact", { "0", "-1" });
            else c.add(a, "end"), c.add(a, "start");
        }
        return;
    }
    bool removes = profile == 1 || profile >= 5, compacts = profile == 2 || profile >= 5, clears = profile == 3 || profile == 6 || (profile == 5 && r.chance(0.3)), limits = profile == 4;
    if (limits || (profile >= 5 && r.chance(0.2))) { c.seti("max_lines", r.range(3, 10)); }
    if ((limits || compacts) && r.chance(0.7)) c.seti("threshold", r.range(0, 4));
    if (limits && !c.geti("threshold")) c.seti("threshold", 2);
    bool dups = r.chance(0.4);
    static const char* const pool[] = { "dir", "git status", "cls", "exit" };
    std::vector<int> n(nslots), started(nslots);
    std::vector<string> known;
    for (int i = 0; i < total; ++i)
    {
        int s = r.below(nslots);
        if (!started[s]) { c.add(s, "start"); started[s] = 1; if (r.chance(0.5)) c.add(s, "prompt"); }
        int k = r.below(100);
        if (k < 45)
        {
            if (dups && r.chance(0.35)) c.add(s, "add", { pool[r.below(4)], "d" });
            else { string t = gen_text(r, s, n[s]++, c.geti("rbuf") != 0); known.push_back(t); c.add(s, "add", { t }); }
        }
        else if (k < 58) c.add(s, "prompt");
        else if (k < 62) c.add(s, "list");
        else if (k < 68) { c.add(s, "end"); started[s] = 0; }
        else if (k < 71) { c.add(s, "kill"); started[s] = 0; }
        else if (k < 74) c.add(s, "sleep", { std::to_string(r.range(1, 3000)) });
        else if (removes && k < 90)
        {
            int m = r.below(3);
            if (m == 0) c.add(s, "rmidx", { std::to_string(r.below(50)) });
            else if (m == 1 && !known.empty()) c.add(s, "rmline", { r.pick(known) });
            else c.add(s, "cli_delete", { std::to_string(r.below(50)) });
        }
        else if (compacts && k < 97) c.add(s, "cli_compact", { std::to_string(r.chance(0.2)), r.chance(0.1) ? std::to_string(r.range(2, 8)) : "-1" });
        else if (clears && k < 95) c.add(s, "cli_clear");
        else { string t = gen_text(r, s, n[s]++, c.geti("rbuf") != 0); known.push_back(t); c.add(s, "add", { t }); }
    }
}

RegScenario reg("history", "H01", generate, run);
}
