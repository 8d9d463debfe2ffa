// Runner: seeded search, replay, minimisation, statistics.
#include "sim.h"
#include "sim_int.h"
#include <stdlib.h>
#include <string.h>
#include <algorithm>
#include <set>

static std::vector<Scenario>& scenarios() { static std::vector<Scenario> s; return s; }
void register_scenario(const Scenario& s) { HostScope h; scenarios().push_back(s); }
static u64 real_ms() { return GetTickCount64(); }

//------------------------------------------------------------------------------
string esc(const string& s)
{
    string r;
    for (unsigned char c : s) { if (isalnum(c) || strchr("_-.:/\\,=+*@!#$^&()[]{}<>?;'`~|", c)) r += char(c); else r += strf("%%%02x", c); }
    return r.empty() ? "%-" : r;
}
string unesc(const string& s)
{
    if (s == "%-") return "";
    string r;
    for (size_t i = 0; i < s.size(); ++i) { if (s[i] == '%' && i + 2 < s.size()) { r += char(strtoul(s.substr(i + 1, 2).c_str(), nullptr, 16)); i += 2; } else r += s[i]; }
    return r;
}
string case_to_text(const Case& c)
{
    string t = "clinksim-replay 1\nscenario " + c.scenario + "\nseed " + std::to_string(c.seed) + "\n";
    for (auto& k : c.cfg) t += "cfg " + esc(k.first) + " " + esc(k.second) + "\n";
    for (auto& o : c.ops) { t += "op " + std::to_string(o.actor) + " " + esc(o.verb); for (auto& a : o.a) t += " " + esc(a); t += "\n"; }
    for (auto& d : c.dec) t += "dec " + d.first + " " + d.second + "\n";
    if (!c.expect_id.empty()) t += "expect " + esc(c.expect_id) + " " + strf("%016llx", c.expect_hash) + " " + esc(c.expect_msg) + "\n";
    return t;
}
bool case_from_text(const string& text, Case& c)
{
    size_t i = 0;
    while (i < text.size())
    {
        size_t j = text.find('\n', i); if (j == string::npos) j = text.size();
        std::vector<string> w; string l = text.substr(i, j - i); i = j + 1;
        size_t a = 0; while (a < l.size()) { size_t b = l.find(' ', a); if (b == string::npos) b = l.size(); if (b > a) { string x = l.substr(a, b - a); while (!x.empty() && x.back() == '\r') x.pop_back(); w.push_back(x); } a = b + 1; }
        if (w.empty()) continue;
        if (w[0] == "scenario" && w.size() > 1) c.scenario = w[1];
        else if (w[0] == "seed" && w.size() > 1) c.seed = strtoull(w[1].c_str(), nullptr, 10);
        else if (w[0] == "cfg" && w.size() > 2) c.cfg[unesc(w[1])] = unesc(w[2]);
        else if (w[0] == "op" && w.size() > 2) { Op o; o.actor = atoi(w[1].c_str()); o.verb = unesc(w[2]); for (size_t k = 3; k < w.size(); ++k) o.a.push_back(unesc(w[k])); c.ops.push_back(o); }
        else if (w[0] == "dec" && w.size() > 2) c.dec[w[1]] = w[2];
        else if (w[0] == "expect" && w.size() > 2) { c.expect_id = unesc(w[1]); c.expect_hash = strtoull(w[2].c_str(), nullptr, 16); if (w.size() > 3) c.expect_msg = unesc(w[3]); }
    }
    return !c.scenario.empty();
}

//------------------------------------------------------------------------------
static const Scenario* s_scn;
struct Result { Violation v; u64 hash = 0; Case rec; u64 steps = 0; };
static Result run_case(const Case& c, bool trace = false)
{
    Result r;
    sim_begin(c, trace);
    s_scn->run(c);
    g_sim->cur = nullptr;
    r.v = g_sim->v; r.hash = mix(g_sim->hash, g_sim->now); r.rec = g_sim->rec; r.steps = g_sim->steps;
    sim_end();
    return r;
}
static bool same(const Violation& a, const Violation& b) { return a.id == b.id && a.known == b.known; }

static Case minimise(Case best, const Violation& want, u64 budget_ms, u64& tried)
{
    u64 end = real_ms() + budget_ms;
    Stats saved = g_stats;
    auto test = [&](const Case& c) { tried++; Result r = run_case(c); return same(r.v, want); };
    bool changed = true;
    while (changed && real_ms() < end)
    {
        changed = false;
        // Operations.
        for (size_t chunk = std::max<size_t>(1, best.ops.size() / 2);; chunk /= 2)
        {
            for (size_t i = 0; i < best.ops.size() && real_ms() < end;)
            {
                Case c = best;
                size_t n = std::min(chunk, c.ops.size() - i);
                c.ops.erase(c.ops.begin() + i, c.ops.begin() + i + n);
                if (test(c)) { best = c; changed = true; } else i += n;
            }
            if (chunk <= 1) break;
        }
        // Decisions.
        std::vector<string> keys; for (auto& d : best.dec) keys.push_back(d.first);
        for (size_t chunk = std::max<size_t>(1, keys.size());; chunk /= 2)
        {
            for (size_t i = 0; i < keys.size() && real_ms() < end;)
            {
                Case c = best;
                size_t n = std::min(chunk, keys.size() - i);
                for (size_t k = i; k < i + n; ++k) c.dec.erase(keys[k]);
                if (test(c)) { best = c; changed = true; keys.erase(keys.begin() + i, keys.begin() + i + n); } else i += n;
            }
            if (chunk <= 1 || keys.empty()) break;
        }
        // Shorter stalls.
        for (auto& k : keys) if (k[0] == 'd' && real_ms() < end) { i64 v = atoll(best.dec[k].c_str()); for (i64 t : { i64(1), i64(1000000), i64(100000000) }) if (t < v) { Case c = best; c.dec[k] = std::to_string(t); if (test(c)) { best = c; break; } } }
    }
    g_stats = saved;
    return best;
}

static string json_str(const string& s) { string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += char(c); } else if (c < 32 || c > 126) r += strf("\\u%04x", c); else r += char(c); } return r + "\""; }
static void write_file(const string& path, const string& data) { HANDLE h = CreateFileA(path.c_str(), GENERIC_WRITE, 0, nullptr, CREATE_ALWAYS, 0, nullptr); if (h == INVALID_HANDLE_VALUE) { fprintf(stderr, "cannot write %s\n", path.c_str()); return; } DWORD n; WriteFile(h, data.data(), DWORD(data.size()), &n, nullptr); CloseHandle(h); }
static string read_file(const string& path) { HANDLE h = CreateFileA(path.c_str(), GENERIC_READ, 7, nullptr, OPEN_EXISTING, 0, nullptr); if (h == INVALID_HANDLE_VALUE) return ""; string s(GetFileSize(h, nullptr), 0); DWORD n = 0; ReadFile(h, &s[0], DWORD(s.size()), &n, nullptr); s.resize(n); CloseHandle(h); return s; }

static string opt(int argc, char** argv, const char* name, const char* def = "") { for (int i = 1; i + 1 < argc; ++i) if (!strcmp(argv[i], name)) return argv[i + 1]; return def; }
static bool flag(int argc, char** argv, const char* name) { for (int i = 1; i < argc; ++i) if (!strcmp(argv[i], name)) return true; return false; }

static bool pick_scenario(const string& n) { for (auto& s : scenarios()) if (n == s.name) s_scn = &s; return s_scn != nullptr; }
static void boot()
{
    if (s_scn->boot) { fs_reset(); s_scn->boot(); g_heap_mode = 0; }
    image_boot_snapshot();
}

int main(int argc, char** argv)
{
    g_heap_mode = 0;
    setvbuf(stdout, nullptr, _IONBF, 0);
    core_init();
    string cmd = argc > 1 ? argv[1] : "";
    if (cmd == "list") { for (auto& s : scenarios()) printf("%s %s\n", s.name, s.props); return 0; }
    if (cmd == "replay" || cmd == "min")
    {
        Case c;
        if (argc < 3 || !case_from_text(read_file(argv[2]), c) || !pick_scenario(c.scenario)) { fprintf(stderr, "bad replay file\n"); return 2; }
        c.replay = true;
        boot();
        bool trace = flag(argc, argv, "--trace");
        Result r = run_case(c, trace);
        if (trace) for (auto& l : sim_trace()) printf("%s\n", l.c_str());
        if (r.v.id.empty()) { printf("REPLAY ok: no violation (expected %s)\n", c.expect_id.empty() ? "none" : c.expect_id.c_str()); return c.expect_id.empty() ? 0 : 3; }
        printf("REPLAY violation %s: %s\nhash %016llx (%s)\n", r.v.id.c_str(), r.v.msg.c_str(), r.hash, c.expect_hash == r.hash && c.expect_id == r.v.id ? "reproduced exactly" : "DIFFERS");
        return c.expect_hash == r.hash && c.expect_id == r.v.id ? 1 : 4;
    }
    if (cmd != "run" || !pick_scenario(opt(argc, argv, "--scenario"))) { fprintf(stderr, "usage: clinksim list | run --scenario S ... | replay FILE [--trace]\n"); return 2; }
    boot();
    u64 seed = strtoull(opt(argc, argv, "--seed", "1").c_str(), nullptr, 10);
    u64 stride = strtoull(opt(argc, argv, "--stride", "1").c_str(), nullptr, 10);
    u64 max_runs = strtoull(opt(argc, argv, "--runs", "0").c_str(), nullptr, 10);
    u64 seconds = strtoull(opt(argc, argv, "--seconds", "10").c_str(), nullptr, 10);
    u64 min_seconds = strtoull(opt(argc, argv, "--min-seconds", "30").c_str(), nullptr, 10);
    int max_viol = atoi(opt(argc, argv, "--max-violations", "5").c_str());
    int tier = atoi(opt(argc, argv, "--tier", "0").c_str());
    string out = opt(argc, argv, "--out"), rdir = opt(argc, argv, "--replays"), tag = opt(argc, argv, "--tag", "w"), stop = opt(argc, argv, "--stop-file");
    bool verbose = flag(argc, argv, "--verbose"), trace = flag(argc, argv, "--trace");
    // Extra fixed configuration.
    std::vector<std::pair<string, string>> sets;
    for (int i = 1; i + 1 < argc; ++i) if (!strcmp(argv[i], "--set")) { string kv = argv[i + 1]; size_t e = kv.find('='); if (e != string::npos) sets.push_back({ kv.substr(0, e), kv.substr(e + 1) }); }
    { string k = opt(argc, argv, "--known"); size_t a = 0; while (a < k.size()) { size_t b = k.find(',', a); if (b == string::npos) b = k.size(); g_known.insert(k.substr(a, b - a)); a = b + 1; } }
    std::map<string, int> seen;
    string viol_json, sample_json;
    u64 t0 = real_ms(), det_checks = 0, det_bad = 0, tried = 0;
    u64 n = 0;
    for (;; seed += stride, ++n)
    {
        if (max_runs ? n >= max_runs : real_ms() - t0 >= seconds * 1000) break;
        if (!max_runs && !stop.empty() && (n & 15) == 0 && GetFileAttributesA(stop.c_str()) != INVALID_FILE_ATTRIBUTES) break;
        Case c;
        c.scenario = s_scn->name; c.seed = seed;
        for (auto& s : sets) c.cfg[s.first] = s.second;
        Rng r(mix(seed, hash_str(s_scn->name, strlen(s_scn->name))));
        s_scn->generate(r, c, tier);
        for (auto& s : sets) c.cfg[s.first] = s.second;
        Result res = run_case(c, trace);
        if (n == 5 || n == 50) { string t = case_to_text(c); if (t.size() > 1500) t = t.substr(0, 1500) + "..."; sample_json += (sample_json.empty() ? "" : ",") + json_str(t); }
        if (verbose) printf("seed %llu steps %llu hash %016llx%s%s %s\n", seed, res.steps, res.hash, res.v.id.empty() ? "" : " VIOLATION ", res.v.id.c_str(), res.v.msg.c_str());
        if (trace) for (auto& l : sim_trace()) printf("%s\n", l.c_str());
        // Repeatability: the same decisions give the same execution.
        if ((n % 64 == 7 || flag(argc, argv, "--det")) && res.v.id.empty() && res.v.known.empty())
        {
            Case d = res.rec; d.replay = true;
            Stats saved = g_stats;
            Result r2 = run_case(d);
            g_stats = saved;
            det_checks++;
            if (r2.hash != res.hash || r2.v.id != res.v.id) { det_bad++; if (verbose)
            {
                run_case(c, true); std::vector<string> a = sim_trace(); run_case(d, true); std::vector<string> b = sim_trace();
                size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
                for (size_t k = i > 6 ? i - 6 : 0; k < i + 4; ++k) printf("   %s\n   %s\n", k < a.size() ? a[k].c_str() : "", k < b.size() ? b[k].c_str() : "");
                g_stats = saved;
            }
            if (verbose) printf("seed %llu NOT REPEATABLE %016llx %s %s\n", seed, r2.hash, r2.v.id.c_str(), r2.v.msg.c_str()); }
        }
        if (!res.v.id.empty())
        {
            seen[res.v.id]++;
            if (seen[res.v.id] > 3) continue;
            Case d = res.rec; d.replay = true;
            Result r2 = run_case(d);
            bool exact = r2.hash == res.hash && same(r2.v, res.v);
            Case m = d;
            if (same(r2.v, res.v)) m = minimise(d, res.v, min_seconds * 1000, tried);
            Result r3 = run_case(m);
            m.expect_id = r3.v.id; m.expect_msg = r3.v.msg; m.expect_hash = r3.hash;
            string file = strf("%s-%s-%llu.replay", s_scn->name, tag.c_str(), seed);
            if (!rdir.empty()) write_file(rdir + "\\" + file, case_to_text(m));
            viol_json += strf("%s{\"id\":%s,\"msg\":%s,\"seed\":%llu,\"file\":%s,\"exact\":%s,\"ops\":%d,\"ops_before\":%d,\"decisions\":%d,\"decisions_before\":%d}", viol_json.empty() ? "" : ",",
                json_str(r3.v.id).c_str(), json_str(r3.v.msg.substr(0, 600)).c_str(), seed, json_str(file).c_str(), exact ? "true" : "false", int(m.ops.size()), int(d.ops.size()), int(m.dec.size()), int(d.dec.size()));
            if (verbose) printf("  replay %s: exact=%d ops %d->%d decisions %d->%d: %s\n", file.c_str(), exact, int(d.ops.size()), int(m.ops.size()), int(d.dec.size()), int(m.dec.size()), r3.v.msg.c_str());
            int total = 0; for (auto& s : seen) total += std::min(s.second, 3);
            if (total >= max_viol) { ++n; break; }
        }
    }
    u64 el = real_ms() - t0;
    string j = strf("{\"runs\":%llu,\"elapsed_ms\":%llu,\"steps\":%llu,\"switches\":%llu,\"sim_ns\":%llu,\"procs\":%llu,\"threads\":%llu,\"crashes\":%llu,\"det_checks\":%llu,\"det_bad\":%llu,\"interleavings\":%llu,\"states\":%llu,\"cov\":%llu,\"minimise_runs\":%llu,\"faults\":{",
        n, el, g_stats.steps, g_stats.switches, g_stats.sim_ns, g_stats.procs, g_stats.threads, g_stats.crashes, det_checks, det_bad, (u64)g_stats.interleavings.size(), (u64)g_stats.states.size(), cov_count(), tried);
    bool first = true;
    for (auto& f : g_stats.faults) { j += strf("%s%s:%llu", first ? "" : ",", json_str(f.first).c_str(), f.second); first = false; }
    j += "},\"counters\":{"; first = true;
    for (auto& f : g_stats.counters) { j += strf("%s%s:%llu", first ? "" : ",", json_str(f.first).c_str(), f.second); first = false; }
    j += "},\"seen\":{"; first = true;
    for (auto& f : seen) { j += strf("%s%s:%d", first ? "" : ",", json_str(f.first).c_str(), f.second); first = false; }
    j += "},\"samples\":[" + sample_json + "],\"violations\":[" + viol_json + "]}";
    if (!out.empty())
    {
        write_file(out, j);
        string b; for (u64 x : g_stats.interleavings) b.append((char*)&x, 8);
        write_file(out + ".il", b); b.clear();
        for (u64 x : g_stats.states) b.append((char*)&x, 8);
        write_file(out + ".st", b); b.clear();
        std::vector<u32> cv; cov_export(cv);
        write_file(out + ".cov", string((char*)cv.data(), cv.size() * 4));
    }
    if (verbose || out.empty()) printf("%s\n", j.c_str());
    return 0;
}
