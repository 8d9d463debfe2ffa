// The simulated console: screen buffer, terminal emulation (virtual terminal
// sequences as conhost and Windows Terminal process them, and the legacy console
// API), input queue, and control events.
#include "sim.h"
#include "sim_int.h"
#include "sim_kern.h"
#include <errno.h>
#include <string.h>
#include <algorithm>

typedef std::wstring ws;
static std::map<int, Con*>& cons() { static std::map<int, Con*>* c; if (!c) { HostScope h; c = new std::map<int, Con*>; } return *c; }
Con& con_of(int id) { HostScope h; Con*& c = cons()[id]; if (!c) c = new Con; return *c; }
Con& con() { return con_of(the_proc()->con); }
void console_reset() { HostScope h; for (auto& i : cons()) delete i.second; cons().clear(); }

//------------------------------------------------------------------------------
// Screen.
static bool high(wchar_t c) { return c >= 0xd800 && c < 0xdc00; }
static bool low(wchar_t c) { return c >= 0xdc00 && c < 0xe000; }
int con_width(u32 c)
{
    if (c < 0x1100) return 1;
    if (c <= 0x115f || (c >= 0x2e80 && c <= 0x303e) || (c >= 0x3041 && c <= 0xa4cf) || (c >= 0xac00 && c <= 0xd7a3) || (c >= 0xf900 && c <= 0xfaff) ||
        (c >= 0xfe30 && c <= 0xfe6f) || (c >= 0xff01 && c <= 0xff60) || (c >= 0xffe0 && c <= 0xffe6) || (c >= 0x1f300 && c <= 0x1f64f) || (c >= 0x1f900 && c <= 0x1f9ff) || (c >= 0x20000 && c <= 0x3fffd)) return 2;
    return 1;
}
void Con::init(int w, int rows_, int h)
{
    size = { SHORT(w), SHORT(h) }; rows = rows_; top = 0; cursor = { 0, 0 }; pend = false;
    buf.assign(h, Row(w, Cell{ L" ", attr, 0 }));
    scrollback.clear();
}
void Con::blank(Row& r, int x0, int x1) { for (int x = x0; x < x1 && x < int(r.size()); ++x) r[x] = Cell{ L" ", attr, 0 }; }
// A write to one half of a wide character destroys the other half.
void Con::split(Row& r, int x) { if (x >= 0 && x < int(r.size()) && r[x].half == 2) { r[x] = Cell{ L" ", r[x].attr, 0 }; if (x > 0) r[x - 1] = Cell{ L" ", r[x - 1].attr, 0 }; } }
string Con::row_text(int y) const { ws t; if (y < 0 || y >= int(buf.size())) return ""; for (auto& c : buf[y]) if (c.half != 2) t += c.ch; while (!t.empty() && t.back() == L' ') t.pop_back(); return narrow(t); }
void Con::scroll_up()
{
    Row r = std::move(buf.front());
    ws t; for (auto& c : r) if (c.half != 2) t += c.ch;
    while (!t.empty() && t.back() == L' ') t.pop_back();
    if (scrollback.size() > 400) scrollback.pop_front();
    scrollback.push_back(narrow(t));
    buf.pop_front();
    buf.push_back(Row(size.X, Cell{ L" ", attr, 0 }));
    scrolled++;
}
void Con::show_cursor() { if (cursor.Y >= top + rows) top = cursor.Y - rows + 1; if (cursor.Y < top) top = cursor.Y; }
void Con::line_feed() { if (cursor.Y + 1 >= size.Y) scroll_up(); else cursor.Y++; if (cursor.Y >= top + rows) top = cursor.Y - rows + 1; }
bool Con::vt() const { return (out_mode & 4) && (out_mode & 1); }
void Con::put(const ws& ch, int w)
{
    if (w == 0) return;
    if (pend) { pend = false; cursor.X = 0; line_feed(); }
    if (w == 2 && cursor.X + 2 > size.X) { blank(buf[cursor.Y], cursor.X, size.X); cursor.X = 0; line_feed(); }
    Row& r = buf[cursor.Y];
    split(r, cursor.X); if (cursor.X + w < size.X) split(r, cursor.X + w);
    r[cursor.X] = Cell{ ch, attr, BYTE(w == 2 ? 1 : 0) };
    if (w == 2) r[cursor.X + 1] = Cell{ L"", attr, 2 };
    if (cursor.X + w >= size.X)
    {
        if (!(out_mode & 2)) cursor.X = size.X - 1;
        else if (vt()) { cursor.X = size.X - 1; pend = true; }
        else { cursor.X = 0; line_feed(); }
    }
    else cursor.X += w;
}
void Con::goto_xy(int x, int y) { cursor.X = SHORT(std::max(0, std::min(x, size.X - 1))); cursor.Y = SHORT(std::max(0, std::min(y, size.Y - 1))); pend = false; }
void Con::respond(const string& s)
{
    for (char c : s) { INPUT_RECORD r = {}; r.EventType = KEY_EVENT; r.Event.KeyEvent.bKeyDown = TRUE; r.Event.KeyEvent.wRepeatCount = 1; r.Event.KeyEvent.uChar.UnicodeChar = (unsigned char)c; if (respond_hook) { if (!respond_hook(r)) continue; } input.push_back(r); responses++; }
}
void Con::answer(int n, const string& s) { HostScope h; if (!query_hook || !query_hook(n, s)) respond(s); }
void Con::csi(const ws& params, wchar_t fin)
{
    bool priv = !params.empty() && (params[0] == '?' || params[0] == '>' || params[0] == '=' || params[0] == '<');
    wchar_t pc = priv ? params[0] : 0;
    std::vector<int> p; ws inter; int cur = -1;
    for (size_t i = priv ? 1 : 0; i < params.size(); ++i)
    {
        wchar_t c = params[i];
        if (c >= '0' && c <= '9') cur = std::max(cur, 0) * 10 + (c - '0');
        else if (c == ';' || c == ':') { p.push_back(cur); cur = -1; }
        else inter += c;
    }
    p.push_back(cur);
    auto arg = [&](size_t i, int d) { return i < p.size() && p[i] >= 0 ? p[i] : d; };
    auto arg1 = [&](size_t i) { int v = arg(i, 1); return v < 1 ? 1 : v; };
    int bot = top + rows - 1;
    if (!inter.empty())
    {
        if (fin == 'q' && inter == L" ") { shape = arg(0, 0); return; }
        if (fin == 'p' && inter == L"$" && pc == '?') { answer(arg(0, 0), strf("\x1b[?%d;%d$y", arg(0, 0), 0)); return; }
        if (fin == 'p' && inter == L"!") return;
        odd(L"[" + params + fin); return;
    }
    if (priv)
    {
        if (pc == '?' && (fin == 'h' || fin == 'l'))
            for (size_t i = 0; i < p.size(); ++i) { if (p[i] == 25) visible = fin == 'h'; else if (p[i] == 12 || p[i] == 5 || p[i] == 2004 || p[i] == 2027 || p[i] == 9001 || p[i] == 2026) ; else odd(L"[" + params + fin); }
        else if (fin == 'c' || fin == 'm' || fin == 'u' || fin == 'q') ;
        else odd(L"[" + params + fin);
        return;
    }
    switch (fin)
    {
    case 'A': goto_xy(cursor.X, std::max<int>(cursor.Y < top ? 0 : top, cursor.Y - arg1(0))); break;
    case 'B': goto_xy(cursor.X, std::min<int>(cursor.Y > bot ? size.Y : bot, cursor.Y + arg1(0))); break;
    case 'C': goto_xy(cursor.X + arg1(0), cursor.Y); break;
    case 'D': goto_xy(cursor.X - arg1(0), cursor.Y); break;
    case 'E': goto_xy(0, std::min<int>(bot, cursor.Y + arg1(0))); break;
    case 'F': goto_xy(0, std::max<int>(top, cursor.Y - arg1(0))); break;
    case 'G': case '`': goto_xy(arg1(0) - 1, cursor.Y); break;
    case 'd': goto_xy(cursor.X, std::min(bot, top + arg1(0) - 1)); break;
    case 'H': case 'f': goto_xy(arg1(1) - 1, std::min(bot, top + arg1(0) - 1)); break;
    case 'J':
        switch (arg(0, 0))
        {
        case 0: pend = false; split(buf[cursor.Y], cursor.X); blank(buf[cursor.Y], cursor.X, size.X); for (int y = cursor.Y + 1; y < size.Y; ++y) blank(buf[y], 0, size.X); break;
        case 1: blank(buf[cursor.Y], 0, cursor.X + 1); for (int y = top; y < cursor.Y; ++y) blank(buf[y], 0, size.X); break;
        case 2: for (int y = top; y <= bot; ++y) blank(buf[y], 0, size.X); break;
        case 3: scrollback.clear(); break;
        default: odd(L"[" + params + fin);
        }
        break;
    case 'K':
        switch (arg(0, 0))
        {
        case 0: pend = false; split(buf[cursor.Y], cursor.X); blank(buf[cursor.Y], cursor.X, size.X); break;
        case 1: blank(buf[cursor.Y], 0, cursor.X + 1); break;
        case 2: pend = false; blank(buf[cursor.Y], 0, size.X); break;
        default: odd(L"[" + params + fin);
        }
        break;
    case '@': { Row& r = buf[cursor.Y]; int n = std::min<int>(arg1(0), size.X - cursor.X); pend = false; split(r, cursor.X); r.insert(r.begin() + cursor.X, n, Cell{ L" ", attr, 0 }); if (size.X < int(r.size()) && r[size.X].half == 2) r[size.X - 1] = Cell{ L" ", attr, 0 }; r.resize(size.X); } break;
    case 'P': { Row& r = buf[cursor.Y]; int n = std::min<int>(arg1(0), size.X - cursor.X); pend = false; split(r, cursor.X); if (cursor.X + n < size.X) split(r, cursor.X + n); r.erase(r.begin() + cursor.X, r.begin() + cursor.X + n); r.resize(size.X, Cell{ L" ", attr, 0 }); } break;
    case 'X': { Row& r = buf[cursor.Y]; pend = false; split(r, cursor.X); split(r, cursor.X + arg1(0)); blank(r, cursor.X, cursor.X + arg1(0)); } break;
    case 'L': { int n = std::min(arg1(0), bot - cursor.Y + 1); for (int y = bot; y >= cursor.Y + n; --y) buf[y] = buf[y - n]; for (int y = cursor.Y; y < cursor.Y + n; ++y) blank(buf[y], 0, size.X); cursor.X = 0; pend = false; } break;
    case 'M': { int n = std::min(arg1(0), bot - cursor.Y + 1); for (int y = cursor.Y; y + n <= bot; ++y) buf[y] = buf[y + n]; for (int y = bot - n + 1; y <= bot; ++y) blank(buf[y], 0, size.X); cursor.X = 0; pend = false; } break;
    case 'S': { int n = std::min(arg1(0), rows); for (int y = top; y + n <= bot; ++y) buf[y] = buf[y + n]; for (int y = bot - n + 1; y <= bot; ++y) blank(buf[y], 0, size.X); } break;
    case 'T': { int n = std::min(arg1(0), rows); for (int y = bot; y >= top + n; --y) buf[y] = buf[y - n]; for (int y = top; y < top + n; ++y) blank(buf[y], 0, size.X); } break;
    case 'm': break;
    case 's': saved = { cursor.X, SHORT(cursor.Y - top) }; saved_pend = pend; break;
    case 'u': goto_xy(saved.X, top + saved.Y); break;
    case 'n': if (arg(0, 0) == 6) respond(strf("\x1b[%d;%dR", cursor.Y - top + 1, cursor.X + 1)); else if (arg(0, 0) == 5) respond("\x1b[0n"); break;
    case 'c': respond("\x1b[?61;4;6;7;14;21;22;23;24;28;32;42;52c"); break;
    case 'h': case 'l': case 't': case 'r': break;
    default: odd(L"[" + params + fin);
    }
}
void Con::odd(const ws& s) { string n = narrow(s); if (unknown.find(n) == string::npos && unknown.size() < 500) unknown += "ESC" + n + " "; }
void Con::osc(const ws& s)
{
    size_t i = s.find(';');
    ws cmd = s.substr(0, i), rest = i == ws::npos ? ws() : s.substr(i + 1);
    if (cmd == L"0" || cmd == L"1" || cmd == L"2") title = rest;
    else if ((cmd == L"10" || cmd == L"11") && rest == L"?") { if (osc_color_reply) respond("\x1b]" + narrow(cmd) + (cmd == L"11" ? ";rgb:0c0c/0c0c/0c0c" : ";rgb:cccc/cccc/cccc") + (osc_color_reply == 2 ? "\x07" : "\x1b\\")); }
    else if (cmd == L"4" && rest.size() > 2 && rest.compare(rest.size() - 2, 2, L";?") == 0) { int n = atoi(narrow(rest).c_str()); answer(n, strf("\x1b]4;%d;rgb:1212/a0/%x", n, n % 65536) + (n % 2 ? "\x07" : "\x1b\\")); }
    else if (cmd == L"4" || cmd == L"8" || cmd == L"9" || cmd == L"133" || cmd == L"10" || cmd == L"11" || cmd == L"12" || cmd == L"633" || cmd == L"1337") ;
    else odd(L"]" + s);
}
void Con::dcs(const ws& s)
{
    // Asks for a capability: "+qN", with N in decimal.
    if (s.compare(0, 2, L"+q") == 0) { int n = atoi(narrow(s.substr(2)).c_str()); answer(n, strf("\x1bP1+r%d=7573\x1b\\", n)); }
    else odd(L"P" + s);
}
void Con::write(const wchar_t* s, size_t n)
{
    if (g_sim && g_sim->trace) { string t; for (char c : narrow(ws(s, n))) if (c == 27) t += "\\e"; else if (c == '\r') t += "\\r"; else if (c == '\n') t += "\\n"; else if (c == 8) t += "\\b"; else t += c; sim_note("con(%d,%d)%s: %s", cursor.X, cursor.Y, pend ? "+" : "", t.c_str()); }
    if (buf.empty()) init(size.X, 25, size.Y);
    for (size_t i = 0; i < n; ++i)
    {
        wchar_t c = s[i];
        if (vt())
        {
            if (!esc.empty())
            {
                esc += c;
                if (esc[1] == '[')
                {
                    if (esc.size() > 2 && c >= 0x40 && c < 0x7f) { csi(esc.substr(2, esc.size() - 3), c); esc.clear(); }
                    else if (esc.size() > 60 || (esc.size() > 2 && c < 0x20)) { odd(esc.substr(1)); esc.clear(); }
                }
                else if (esc[1] == ']')
                {
                    if (c == 7) { osc(esc.substr(2, esc.size() - 3)); esc.clear(); }
                    else if (c == '\\' && esc[esc.size() - 2] == 27) { osc(esc.substr(2, esc.size() - 4)); esc.clear(); }
                    else if (esc.size() > 4000) { odd(esc.substr(1, 30)); esc.clear(); }
                }
                else if (esc[1] == 'P') { if (c == '\\' && esc[esc.size() - 2] == 27) { dcs(esc.substr(2, esc.size() - 4)); esc.clear(); } else if (esc.size() > 4000) { odd(esc.substr(1, 30)); esc.clear(); } }
                else if (esc[1] == '7') { saved = { cursor.X, SHORT(cursor.Y - top) }; saved_pend = pend; esc.clear(); }
                else if (esc[1] == '8') { goto_xy(saved.X, top + saved.Y); pend = saved_pend; esc.clear(); }
                else if (esc[1] == 'M') { if (cursor.Y > top) cursor.Y--; else { for (int y = top + rows - 1; y > top; --y) buf[y] = buf[y - 1]; blank(buf[top], 0, size.X); } esc.clear(); }
                else if (esc[1] == '(' || esc[1] == ')') { if (esc.size() == 3) esc.clear(); }
                else if (esc[1] == '=' || esc[1] == '>' || esc[1] == '\\' || esc[1] == 'c') esc.clear();
                else { odd(esc.substr(1)); esc.clear(); }
                continue;
            }
            if (c == 27) { esc = c; continue; }
        }
        if (hs) { ws t; t += hs; hs = 0; if (low(c)) { t += c; u32 cp = 0x10000 + ((t[0] - 0xd800) << 10) + (c - 0xdc00); put(t, con_width(cp)); continue; } put(L"\xfffd", 1); }
        if (high(c)) { hs = c; continue; }
        if (out_mode & 1)
        {
            switch (c)
            {
            case '\n': pend = false; if (!(out_mode & 8)) cursor.X = 0; line_feed(); continue;
            case '\r': pend = false; cursor.X = 0; continue;
            case '\b': if (pend) pend = false; else if (cursor.X > 0) cursor.X--; else if (!vt() && cursor.Y > 0) { cursor.Y--; cursor.X = size.X - 1; } continue;
            case '\t': { int to = std::min<int>((cursor.X / 8 + 1) * 8, size.X - 1); if (vt()) { cursor.X = to; } else { int n8 = 8 - cursor.X % 8; for (int k = 0; k < n8 && (k == 0 || cursor.X); ++k) put(L" ", 1); } continue; }
            case 7: bells++; continue;
            case 0: if (vt()) continue; put(L" ", 1); continue;
            }
            if (c < 32 && vt()) continue;
        }
        if (c >= 0x300 && c <= 0x36f)       // Combining mark: joins the previous cell.
        {
            int x = pend ? cursor.X : cursor.X - 1; if (x >= 0) { if (buf[cursor.Y][x].half == 2) --x; buf[cursor.Y][x].ch += c; }
            continue;
        }
        put(ws(1, c), con_width(c));
    }
}
// The terminal window changes size.  (Lines are cut or padded: no reflow.)
void Con::resize(int w, int r)
{
    if (buf.empty()) init(size.X, rows, size.Y);
    int oldh = size.Y; bool fixed = oldh == rows;
    for (auto& row : buf) { if (w < int(row.size()) && row[w].half == 2) row[w - 1] = Cell{ L" ", attr, 0 }; row.resize(w, Cell{ L" ", attr, 0 }); }
    size.X = SHORT(w);
    if (fixed)
    {
        while (int(buf.size()) > r) { if (cursor.Y >= r) { Row x = std::move(buf.front()); buf.pop_front(); ws t; for (auto& c : x) if (c.half != 2) t += c.ch; while (!t.empty() && t.back() == L' ') t.pop_back(); scrollback.push_back(narrow(t)); cursor.Y--; } else buf.pop_back(); }
        while (int(buf.size()) < r) buf.push_back(Row(w, Cell{ L" ", attr, 0 }));
        size.Y = SHORT(r); rows = r; top = 0;
    }
    else { rows = std::min(r, oldh); if (top + rows > oldh) top = oldh - rows; show_cursor(); }
    if (cursor.X >= w) cursor.X = SHORT(w - 1);
    pend = false;
    if (in_mode & ENABLE_WINDOW_INPUT) { INPUT_RECORD e = {}; e.EventType = WINDOW_BUFFER_SIZE_EVENT; e.Event.WindowBufferSizeEvent.dwSize = size; input.push_back(e); }
}
// One key press (down and up).
void Con::key(WORD vk, wchar_t ch, DWORD state)
{
    if ((in_mode & ENABLE_PROCESSED_INPUT) && ch == 3 && (state & (LEFT_CTRL_PRESSED | RIGHT_CTRL_PRESSED))) { ctrl_event(CTRL_C_EVENT); return; }
    INPUT_RECORD r = {}; r.EventType = KEY_EVENT;
    auto& k = r.Event.KeyEvent; k.bKeyDown = TRUE; k.wRepeatCount = 1; k.wVirtualKeyCode = vk; k.uChar.UnicodeChar = ch; k.dwControlKeyState = state;
    input.push_back(r);
    k.bKeyDown = FALSE;
    input.push_back(r);
}
void Con::ctrl_event(DWORD type)
{
    HostScope h;
    ctrl_count++;
    for (auto& pr : ctrl)
    {
        Proc* p = pr.first;
        if (!p->alive) continue;
        if (pr.second.empty()) continue;
        ++ctrl_pending;
        sim_new_thread(p, "ctrl-handler", [type, this, p] {
            // One event at a time, with the list of handlers locked.
            sim_block("ctrl lock", [p] { return !p->ctrl_thread; }, FOREVER);
            p->ctrl_thread = cur_thread_or_host();
            std::vector<void*> l; { HostScope h; auto& c = ctrl[p]; l.assign(c.rbegin(), c.rend()); }
            for (void* f : l) if (((PHANDLER_ROUTINE)f)(type)) break;
            { HostScope h; std::vector<void*>().swap(l); }
            p->ctrl_thread = nullptr; --ctrl_pending;
        });
    }
    for (auto& f : on_ctrl) f(type);
    if (reading) { abort_read = true; }
}

//------------------------------------------------------------------------------
// API.
API(HANDLE, GetStdHandle, (DWORD n)) { KE k; int i = n == STD_INPUT_HANDLE ? 0 : n == STD_OUTPUT_HANDLE ? 1 : 2; return (HANDLE)the_proc()->std_handles[i]; }
API(BOOL, SetStdHandle, (DWORD n, HANDLE h)) { KE k; int i = n == STD_INPUT_HANDLE ? 0 : n == STD_OUTPUT_HANDLE ? 1 : 2; the_proc()->std_handles[i] = (u64)h; return TRUE; }
static ConObj* con_obj(HANDLE h) { KObj* o = handle_get(h); if (o && !strcmp(o->type, "console")) return (ConObj*)o; set_last_error(ERROR_INVALID_HANDLE); return nullptr; }
static bool is_con(HANDLE h) { return !!con_obj(h); }
static Con& scr() { Con& c = con(); if (c.buf.empty()) c.init(c.size.X, 25, c.size.Y); return c; }
API(BOOL, GetConsoleMode, (HANDLE h, LPDWORD m)) { KE k; ConObj* o = con_obj(h); if (!o) return FALSE; *m = o->in ? con().in_mode : con().out_mode; return TRUE; }
API(BOOL, SetConsoleMode, (HANDLE h, DWORD m)) { KE k; sim_point("SetConsoleMode"); ConObj* o = con_obj(h); if (!o) return FALSE; if (o->in) con().in_mode = m; else { if (con().out_mode != m) con().esc.clear(); con().out_mode = m; } return TRUE; }
API(UINT, GetConsoleCP, ()) { return 437; }
API(UINT, GetConsoleOutputCP, ()) { return 437; }
API(BOOL, ReadConsoleInputW, (HANDLE h, PINPUT_RECORD r, DWORD n, LPDWORD got))
{
    KE k; sim_point("ReadConsoleInput");
    *got = 0;
    if (!is_con(h)) return FALSE;
    Con* c = &con();
    if (c->input.empty() && c->on_empty) c->on_empty();
    sim_block("ReadConsoleInput", [c] { return !c->input.empty(); }, FOREVER);
    while (*got < n && !c->input.empty()) { r[(*got)++] = c->input.front(); c->input.pop_front(); c->reads++; }
    return TRUE;
}
API(BOOL, PeekConsoleInputW, (HANDLE h, PINPUT_RECORD r, DWORD n, LPDWORD got)) { KE k; sim_point("PeekConsoleInput"); *got = 0; if (!is_con(h)) return FALSE; for (auto& x : con().input) { if (*got >= n) break; r[(*got)++] = x; } return TRUE; }
API(BOOL, GetNumberOfConsoleInputEvents, (HANDLE h, LPDWORD n)) { KE k; sim_point("GetNumberOfConsoleInputEvents"); if (!is_con(h)) return FALSE; *n = DWORD(con().input.size()); return TRUE; }
API(BOOL, WriteConsoleInputA, (HANDLE h, const INPUT_RECORD* r, DWORD n, LPDWORD put)) { KE k; sim_point("WriteConsoleInput"); if (!is_con(h)) return FALSE; for (DWORD i = 0; i < n; ++i) con().input.push_back(r[i]); if (put) *put = n; return TRUE; }
API(BOOL, FlushConsoleInputBuffer, (HANDLE h)) { KE k; if (!is_con(h)) return FALSE; con().input.clear(); return TRUE; }
void con_write(const wchar_t* p, size_t n)
{
    Con& c = con();
    string s = narrow(ws(p, n));
    if (c.keep_out && c.out.size() < (8u << 20)) c.out += s;
    if (c.emulate) c.write(p, n);
    if (c.on_write) c.on_write(s);
}
API(BOOL, WriteConsoleW, (HANDLE h, const VOID* p, DWORD n, LPDWORD put, LPVOID)) { KE k; sim_point("WriteConsole"); if (!is_con(h)) return FALSE; con_write((const wchar_t*)p, n); if (put) *put = n; return TRUE; }
// Cooked line input, as the console itself does it.
API(BOOL, ReadConsoleW, (HANDLE h, LPVOID p, DWORD n, LPDWORD got, PCONSOLE_READCONSOLE_CONTROL))
{
    KE k; sim_point("ReadConsole"); *got = 0; if (!is_con(h)) return FALSE;
    Con* c = &con();
    c->reading++; c->abort_read = false;
    wchar_t* out = (wchar_t*)p;
    bool ok = true;
    if (c->cooked.empty())
    {
        ws line; bool done = false;
        while (!done)
        {
            sim_block("ReadConsole", [c] { return !c->input.empty() || c->abort_read; }, FOREVER);
            if (c->abort_read) { c->abort_read = false; line.clear(); set_last_error(ERROR_OPERATION_ABORTED); ok = true; c->reading--; return TRUE; }
            INPUT_RECORD r = c->input.front(); c->input.pop_front(); c->reads++;
            if (r.EventType != KEY_EVENT || !r.Event.KeyEvent.bKeyDown) continue;
            wchar_t ch = r.Event.KeyEvent.uChar.UnicodeChar;
            if (!(c->in_mode & ENABLE_LINE_INPUT)) { if (ch) { out[0] = ch; *got = 1; c->reading--; return TRUE; } continue; }
            if (ch == '\r') { line += L"\r\n"; done = true; if ((c->in_mode & ENABLE_ECHO_INPUT) && c->emulate) c->write(L"\r\n", 2); }
            else if (ch == 8) { if (!line.empty()) { line.pop_back(); if ((c->in_mode & ENABLE_ECHO_INPUT) && c->emulate) c->write(L"\b \b", 3); } }
            else if (ch == 27) { if (c->emulate) for (size_t i = 0; i < line.size(); ++i) c->write(L"\b \b", 3); line.clear(); }
            else if (ch >= 32) { line += ch; if ((c->in_mode & ENABLE_ECHO_INPUT) && c->emulate) c->write(&ch, 1); }
        }
        c->cooked = line;
    }
    while (*got < n && !c->cooked.empty()) { out[(*got)++] = c->cooked[0]; c->cooked.erase(0, 1); }
    c->reading--;
    return ok;
}
static void fill_info(Con& c, CONSOLE_SCREEN_BUFFER_INFO* i)
{
    i->dwSize = c.size; i->dwCursorPosition = c.cursor; i->wAttributes = c.attr;
    i->srWindow = { 0, SHORT(c.top), SHORT(c.size.X - 1), SHORT(c.top + c.rows - 1) };
    i->dwMaximumWindowSize = { c.size.X, SHORT(c.rows) };
}
API(BOOL, GetConsoleScreenBufferInfo, (HANDLE h, PCONSOLE_SCREEN_BUFFER_INFO i)) { KE k; if (!is_con(h)) return FALSE; memset(i, 0, sizeof *i); fill_info(scr(), i); return TRUE; }
API(BOOL, GetConsoleScreenBufferInfoEx, (HANDLE h, PCONSOLE_SCREEN_BUFFER_INFOEX i))
{
    KE k; if (!is_con(h)) return FALSE;
    CONSOLE_SCREEN_BUFFER_INFO b; fill_info(scr(), &b);
    i->dwSize = b.dwSize; i->dwCursorPosition = b.dwCursorPosition; i->wAttributes = b.wAttributes; i->srWindow = b.srWindow; i->dwMaximumWindowSize = b.dwMaximumWindowSize;
    i->wPopupAttributes = 0xf5; i->bFullscreenSupported = FALSE;
    static const COLORREF t[16] = { 0x0c0c0c, 0xda3700, 0x0ea113, 0xdd963a, 0x1f0fc5, 0x981788, 0x009cc1, 0xcccccc, 0x767676, 0xff783b, 0x0cc616, 0xd6d661, 0x5648e7, 0x9e00b4, 0xa5f1f9, 0xf2f2f2 };
    memcpy(i->ColorTable, t, sizeof t);
    return TRUE;
}
API(BOOL, SetConsoleScreenBufferInfoEx, (HANDLE h, PCONSOLE_SCREEN_BUFFER_INFOEX)) { KE k; return is_con(h); }
API(BOOL, SetConsoleCursorPosition, (HANDLE h, COORD p))
{
    KE k; if (!is_con(h)) return FALSE; Con& c = scr();
    if (g_sim->trace) sim_note("con(%d,%d): go to %d,%d", c.cursor.X, c.cursor.Y, p.X, p.Y);
    if (p.X < 0 || p.Y < 0 || p.X >= c.size.X || p.Y >= c.size.Y) { set_last_error(ERROR_INVALID_PARAMETER); return FALSE; }
    c.cursor = p; c.pend = false; c.show_cursor(); return TRUE;
}
API(BOOL, SetConsoleTextAttribute, (HANDLE h, WORD a)) { KE k; if (!is_con(h)) return FALSE; con().attr = a; return TRUE; }
API(BOOL, GetConsoleCursorInfo, (HANDLE h, PCONSOLE_CURSOR_INFO i)) { KE k; if (!is_con(h)) return FALSE; i->dwSize = con().cursor_size; i->bVisible = con().visible; return TRUE; }
API(BOOL, SetConsoleCursorInfo, (HANDLE h, const CONSOLE_CURSOR_INFO* i)) { KE k; if (!is_con(h)) return FALSE; con().cursor_size = i->dwSize; con().visible = i->bVisible; return TRUE; }
API(BOOL, SetConsoleWindowInfo, (HANDLE h, BOOL abs_, const SMALL_RECT* r))
{
    KE k; if (!is_con(h)) return FALSE; Con& c = scr();
    int t = abs_ ? r->Top : c.top + r->Top, b = abs_ ? r->Bottom : c.top + c.rows - 1 + r->Bottom;
    if (t < 0 || b < t || b >= c.size.Y) { set_last_error(ERROR_INVALID_PARAMETER); return FALSE; }
    c.top = t; c.rows = b - t + 1; return TRUE;
}
API(BOOL, SetConsoleScreenBufferSize, (HANDLE h, COORD)) { KE k; return is_con(h); }
API(BOOL, FillConsoleOutputCharacterW, (HANDLE h, WCHAR ch, DWORD n, COORD at, LPDWORD put))
{
    KE k; if (put) *put = 0; if (!is_con(h)) return FALSE; Con& c = scr();
    if (at.X < 0 || at.Y < 0 || at.X >= c.size.X || at.Y >= c.size.Y) return FALSE;
    DWORD i = 0; int x = at.X, y = at.Y;
    if (n) c.split(c.buf[y], x);
    for (; i < n && y < c.size.Y; ++i) { Cell& l = c.buf[y][x]; if (l.half == 1 && x + 1 < c.size.X && i + 1 == n) c.buf[y][x + 1] = Cell{ L" ", l.attr, 0 }; l.ch = ws(1, ch); l.half = 0; if (++x == c.size.X) { x = 0; ++y; } }
    if (put) *put = i; return TRUE;
}
API(BOOL, FillConsoleOutputAttribute, (HANDLE h, WORD a, DWORD n, COORD at, LPDWORD put))
{
    KE k; if (put) *put = 0; if (!is_con(h)) return FALSE; Con& c = scr();
    if (at.X < 0 || at.Y < 0 || at.X >= c.size.X || at.Y >= c.size.Y) return FALSE;
    DWORD i = 0; int x = at.X, y = at.Y;
    for (; i < n && y < c.size.Y; ++i) { c.buf[y][x].attr = a; if (++x == c.size.X) { x = 0; ++y; } }
    if (put) *put = i; return TRUE;
}
static BOOL scroll(HANDLE h, const SMALL_RECT* r, const SMALL_RECT* clip, COORD to, const CHAR_INFO* fill, bool wide)
{
    if (!is_con(h)) return FALSE; Con& c = scr();
    Cell f{ ws(1, wide ? fill->Char.UnicodeChar : (wchar_t)(unsigned char)fill->Char.AsciiChar), fill->Attributes, 0 };
    SMALL_RECT cl = clip ? *clip : SMALL_RECT{ 0, 0, SHORT(c.size.X - 1), SHORT(c.size.Y - 1) };
    auto clipped = [&](int x, int y) { return x < 0 || y < 0 || x >= c.size.X || y >= c.size.Y || x < cl.Left || x > cl.Right || y < cl.Top || y > cl.Bottom; };
    auto old = c.buf;
    for (int y = r->Top; y <= r->Bottom; ++y) for (int x = r->Left; x <= r->Right; ++x) if (!clipped(x, y)) c.buf[y][x] = f;
    for (int y = r->Top; y <= r->Bottom; ++y) for (int x = r->Left; x <= r->Right; ++x)
    {
        if (x < 0 || y < 0 || x >= c.size.X || y >= c.size.Y) continue;
        int dx = to.X + x - r->Left, dy = to.Y + y - r->Top;
        if (!clipped(dx, dy)) c.buf[dy][dx] = old[y][x];
    }
    for (auto& row : c.buf) for (size_t x = 0; x < row.size(); ++x)
    {
        if (row[x].half == 1 && (x + 1 >= row.size() || row[x + 1].half != 2)) row[x] = Cell{ L" ", row[x].attr, 0 };
        if (row[x].half == 2 && (x == 0 || row[x - 1].half != 1)) row[x] = Cell{ L" ", row[x].attr, 0 };
    }
    return TRUE;
}
API(BOOL, ScrollConsoleScreenBufferA, (HANDLE h, const SMALL_RECT* r, const SMALL_RECT* clip, COORD to, const CHAR_INFO* fill)) { KE k; return scroll(h, r, clip, to, fill, false); }
API(BOOL, ScrollConsoleScreenBufferW, (HANDLE h, const SMALL_RECT* r, const SMALL_RECT* clip, COORD to, const CHAR_INFO* fill)) { KE k; return scroll(h, r, clip, to, fill, true); }
static BOOL read_out(HANDLE h, PCHAR_INFO b, COORD size, COORD at, PSMALL_RECT r)
{
    if (!is_con(h)) return FALSE; Con& c = scr();
    for (int y = r->Top; y <= r->Bottom && y < c.size.Y; ++y) for (int x = r->Left; x <= r->Right && x < c.size.X; ++x)
    {
        int bx = at.X + x - r->Left, by = at.Y + y - r->Top;
        if (x < 0 || y < 0 || bx >= size.X || by >= size.Y) continue;
        CHAR_INFO& i = b[by * size.X + bx]; i.Char.UnicodeChar = c.buf[y][x].ch.empty() ? L' ' : c.buf[y][x].ch[0]; i.Attributes = c.buf[y][x].attr;
    }
    return TRUE;
}
API(BOOL, ReadConsoleOutputA, (HANDLE h, PCHAR_INFO b, COORD size, COORD at, PSMALL_RECT r)) { KE k; return read_out(h, b, size, at, r); }
API(BOOL, ReadConsoleOutputW, (HANDLE h, PCHAR_INFO b, COORD size, COORD at, PSMALL_RECT r)) { KE k; return read_out(h, b, size, at, r); }
API(BOOL, ReadConsoleOutputAttribute, (HANDLE h, LPWORD p, DWORD n, COORD at, LPDWORD got))
{
    KE k; *got = 0; if (!is_con(h)) return FALSE; Con& c = scr();
    if (at.X < 0 || at.Y < 0 || at.X >= c.size.X || at.Y >= c.size.Y) return FALSE;
    int x = at.X, y = at.Y; for (; *got < n && y < c.size.Y; ++*got) { p[*got] = c.buf[y][x].attr; if (++x == c.size.X) { x = 0; ++y; } }
    return TRUE;
}
API(BOOL, ReadConsoleOutputCharacterW, (HANDLE h, LPWSTR p, DWORD n, COORD at, LPDWORD got))
{
    KE k; *got = 0; if (!is_con(h)) return FALSE; Con& c = scr();
    if (at.X < 0 || at.Y < 0 || at.X >= c.size.X || at.Y >= c.size.Y) return FALSE;
    int x = at.X, y = at.Y; DWORD cells = 0;
    for (; cells < n && y < c.size.Y; ++cells) { Cell& l = c.buf[y][x]; if (l.half != 2) p[(*got)++] = l.ch.empty() ? L' ' : l.ch[0]; if (++x == c.size.X) { x = 0; ++y; } }
    return TRUE;
}
API(HANDLE, CreateConsoleScreenBuffer, (DWORD, DWORD, const SECURITY_ATTRIBUTES*, DWORD, LPVOID)) { return INVALID_HANDLE_VALUE; }
API(BOOL, SetConsoleActiveScreenBuffer, (HANDLE)) { return FALSE; }
API(BOOL, SetConsoleCtrlHandler, (PHANDLER_ROUTINE r, BOOL add)) { KE k; sim_point("SetConsoleCtrlHandler"); Proc* p = the_proc(); Thread* t = cur_thread_or_host(); sim_block("ctrl lock", [p, t] { return !p->ctrl_thread || p->ctrl_thread == t; }, FOREVER); auto& l = con().ctrl[the_proc()]; ++p->ctrl_changes; if (r) { if (add) l.push_back((void*)r); else { auto i = std::find(l.rbegin(), l.rend(), (void*)r); if (i == l.rend()) { set_last_error(ERROR_INVALID_PARAMETER); return FALSE; } l.erase(std::next(i).base()); } } return TRUE; }
API(DWORD, GetConsoleTitleW, (LPWSTR b, DWORD n)) { KE k; wcsncpy(b, con().title.c_str(), n); if (n) b[n - 1] = 0; return DWORD(con().title.size()); }
API(DWORD, GetConsoleOriginalTitleW, (LPWSTR b, DWORD n)) { KE k; wcsncpy(b, L"sim", n); return 3; }
API(BOOL, SetConsoleTitleW, (LPCWSTR t)) { KE k; sim_point("SetConsoleTitle"); con().title = t; return TRUE; }
API(HWND, GetConsoleWindow, ()) { return nullptr; }
API(BOOL, GetCurrentConsoleFontEx, (HANDLE, BOOL, PVOID)) { return FALSE; }
API(BOOL, FlashWindowEx, (PFLASHWINFO)) { return FALSE; }
API(SHORT, GetKeyState, (int)) { return 0; }
