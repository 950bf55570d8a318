#include "model/session.h"
#include <windows.h>
#include "winpty.h"
#include <algorithm>
#undef min
#undef max
namespace session {
static_assert(sizeof(wchar_t) == 2, "16-bit wchar_t");
static LPCWSTR W(const U16 &s) { return (LPCWSTR)s.c_str(); }
static void takeErr(Call &r, winpty_error_ptr_t e) {
    r.hasErr = e != nullptr;
    if (e) { r.code = winpty_error_code(e); LPCWSTR m = winpty_error_msg(e); if (m) r.msg = (const char16_t *)m; winpty_error_free(e); }
}
Call libOpen(const Opts &o, void **wp) {
    Call r; winpty_error_ptr_t e = nullptr; *wp = nullptr;
    winpty_config_t *cfg = winpty_config_new(o.flags, &e);
    if (!cfg) { takeErr(r, e); r.returned = true; return r; }
    if (e) simFail("winpty_config_new succeeded but set an error");
    if (o.setSize) winpty_config_set_initial_size(cfg, o.cols, o.rows);
    winpty_config_set_mouse_mode(cfg, o.mouseMode);
    if (o.timeout >= 0) winpty_config_set_agent_timeout(cfg, (DWORD)o.timeout);
    *wp = winpty_open(cfg, &e);
    winpty_config_free(cfg);
    takeErr(r, e); r.ok = *wp != nullptr; r.returned = true;
    return r;
}
Call libSpawn(void *wp, const SpawnArgs &a) {
    Call r; winpty_error_ptr_t e = nullptr;
    auto *sc = winpty_spawn_config_new(a.flags, a.hasApp ? W(a.app) : nullptr, a.hasCmd ? W(a.cmd) : nullptr, a.hasCwd ? W(a.cwd) : nullptr, a.hasEnv ? W(a.env) : nullptr, &e);
    if (!sc) { takeErr(r, e); r.returned = true; return r; }
    HANDLE p = (HANDLE)(uintptr_t)0x7777, t = (HANDLE)(uintptr_t)0x7778; DWORD ce = 0xdeadbeef;
    r.ok = winpty_spawn((winpty_t *)wp, sc, a.wantProc ? &p : nullptr, a.wantThread ? &t : nullptr, a.wantCreateErr ? &ce : nullptr, a.wantErr ? &e : nullptr);
    winpty_spawn_config_free(sc);
    takeErr(r, e); r.createErr = ce; r.hProc = (uint64_t)(uintptr_t)p; r.hThread = (uint64_t)(uintptr_t)t; r.returned = true;
    return r;
}
Call libSetSize(void *wp, int cols, int rows, bool wantErr) { Call r; winpty_error_ptr_t e = nullptr; r.ok = winpty_set_size((winpty_t *)wp, cols, rows, wantErr ? &e : nullptr); takeErr(r, e); r.returned = true; return r; }
Call libProcList(void *wp, int *arr, int n, bool wantErr) { Call r; winpty_error_ptr_t e = nullptr; r.n = winpty_get_console_process_list((winpty_t *)wp, arr, n, wantErr ? &e : nullptr); takeErr(r, e); r.ok = r.n > 0; r.returned = true; return r; }
void libFree(void *wp) { winpty_free((winpty_t *)wp); }
static LPCWSTR name(void *wp, int k) { auto *p = (winpty_t *)wp; return k == 0 ? winpty_conin_name(p) : k == 1 ? winpty_conout_name(p) : winpty_conerr_name(p); }
U16 libName(void *wp, int k) { LPCWSTR s = name(wp, k); return s ? U16((const char16_t *)s) : U16(); }
bool libNameNull(void *wp, int k) { return name(wp, k) == nullptr; }
uint64_t libAgentProcess(void *wp) { return (uint64_t)(uintptr_t)winpty_agent_process((winpty_t *)wp); }

Session::Session(pbt::Ctx &c_, World &w_, const Opts &o_) : c(c_), w(w_), o(o_), term(o_.cols, o_.rows, o_.paper), termErr(o_.cols, o_.rows, o_.paper) {}
Session::~Session() {}
void Session::open() {
    Call r = libOpen(o, &wp);
    if (!r.ok) c.fail("winpty_open failed: code %u, %s", r.code, u8(r.msg).c_str());
    auto v = w.agents(); agent = v.back(); con = agent->con;
    if (o.attach) connect();
    if (con) { for (auto &b : con->buffers) if (b->h == 3000) { if (!buf) buf = b; else errBuf = b; } if (!buf) buf = con->active; }
}
void Session::connect() {
    if (!out.open(libName(wp, 1), true, false, w.client->pid)) c.fail("cannot connect to the CONOUT pipe '%s' (error %u)", u8(libName(wp, 1)).c_str(), out.err);
    if (!in.open(libName(wp, 0), false, true, w.client->pid)) c.fail("cannot connect to the CONIN pipe '%s' (error %u)", u8(libName(wp, 0)).c_str(), in.err);
    if (o.flags & F_CONERR) if (!err.open(libName(wp, 2), true, false, w.client->pid)) c.fail("cannot connect to the CONERR pipe (error %u)", err.err);
}
void Session::spawn(uint64_t flags) {
    SpawnArgs a; a.flags = flags; size_t n = w.creates.size();
    Call r = libSpawn(wp, a);
    if (!r.ok) c.fail("winpty_spawn failed: code %u, create error %u, %s", r.code, r.createErr, u8(r.msg).c_str());
    for (size_t i = n; i < w.creates.size(); ++i) if (w.creates[i].child) child = w.creates[i].child;
    if (!child) c.fail("winpty_spawn reported success but no process was created");
    con = child->con;
}
void Session::setSize(int cols, int rows) {
    Call r = libSetSize(wp, cols, rows);
    if (!r.ok) c.fail("winpty_set_size(%d,%d) failed: code %u, %s", cols, rows, r.code, u8(r.msg).c_str());
    o.cols = cols; o.rows = rows;
    drain(); term.resize(cols, rows); termErr.resize(cols, rows);
}
void Session::drain() {
    if (out.ok()) { std::string s = out.read(); if (!s.empty()) { if (keepRaw) raw += s; term.feed(s); } }
    if (err.ok()) { std::string s = err.read(); if (!s.empty()) { if (keepRaw) rawErr += s; termErr.feed(s); } }
}
void Session::run(uint64_t ms) { for (uint64_t i = 0; i < ms; ++i) { w.runFor(1); drain(); } }
void Session::settle() {
    uint64_t last = term.bytes + termErr.bytes; int quiet = 0;
    for (int i = 0; i < 4000 && quiet < 55 + 2 * w.pol.maxDelay + 2 * w.pol.jitter; ++i) { w.runFor(1); drain(); uint64_t n = term.bytes + termErr.bytes; quiet = n == last ? quiet + 1 : 0; last = n; }
}
void Session::free() { if (wp) { libFree(wp); wp = nullptr; } }
void Session::checkClean() {
    if (w.agentAsserted) c.fail("internal assertion failed in the agent: %s", w.agentAssertText.c_str());
    if (!w.problems.empty()) c.fail("system interface misuse: %s", w.problems[0].c_str());
}
void App::race(bool on) {
    racing = on;
    if (!on) { s.w.onApi = nullptr; return; }
    // only calls that touch the console are points where the program can get in between
    s.w.onApi = [this](const char *api) {
        if (q.empty() || s.w.cur->proc != s.agent || !(strstr(api, "Console") || !strcmp(api, "SendMessageW") || !strcmp(api, "CreateFileW"))) return;
        if (gap < 0) gap = s.c.skewed(0, 60);
        if (gap-- > 0) return;
        if (step()) ++racedInScrape;
    };
}
bool App::step() {
    if (q.empty() || !s.con || s.con->frozen) return false;
    auto f = std::move(q.front()); q.pop_front(); gap = -1; ++ran;
    auto b = s.con->active; int t = b->win.t;
    f();
    if (b->win.t < t) ++upMoves;
    return true;
}
void App::flush() {
    for (int i = 0; i < 20000 && !q.empty(); ++i) { if (racing) { s.w.runFor(1); s.drain(); if (i % 100 == 99) step(); } else if (!step()) { s.w.runFor(1); s.drain(); } }
    if (!q.empty()) s.c.fail("the console stays frozen: the program cannot draw any more");
}
Config genConfig(pbt::Ctx &c) {
    Config f; f.os = (int)(c.env() % 5);
    f.seed = 1 + c.choose(1000);
    if (c.chance(30)) { static const uint32_t t[] = {0xFFFFFFFFu - 300, 0xFFFFFFFFu - 3000, 0x7FFFFFFFu - 300, 0x7FFFFFFFu - 3000, 0, 0xFFFFFFFFu - 60000}; f.startTick = t[c.choose(6)]; }      // the tick counter wraps around after 49.7 days
    return f;
}
Policy genPolicy(pbt::Ctx &c, bool gentle) {
    Policy p;
    switch (c.weighted({4, 3, 3})) {
    case 0: break;
    case 1: p.pendPct = 30; p.maxDelay = gentle ? 3 : 10; p.chunkPct = 30; break;
    case 2: p.pendPct = c.range(0, 100); p.maxDelay = c.skewed(0, gentle ? 5 : 60); p.chunkPct = c.range(0, 100); p.quotaMode = (int)c.choose(3); p.cancelRacePct = (int)c.choose(2) * 50; break;
    }
    return p;
}
static void put8(std::string &r, uint32_t u) {
    if (u < 0x80) r += (char)u; else if (u < 0x800) { r += (char)(0xC0 | u >> 6); r += (char)(0x80 | (u & 63)); }
    else if (u < 0x10000) { r += (char)(0xE0 | u >> 12); r += (char)(0x80 | (u >> 6 & 63)); r += (char)(0x80 | (u & 63)); }
    else { r += (char)(0xF0 | u >> 18); r += (char)(0x80 | (u >> 12 & 63)); r += (char)(0x80 | (u >> 6 & 63)); r += (char)(0x80 | (u & 63)); }
}
// A row of cells as characters: a full-width character is a lead and a trail cell with the same code; a surrogate pair is two such units.
std::vector<OutCell> decodeRow(const Cell *p, int n) {
    std::vector<OutCell> v;
    auto span = [&](int i) { return i + 1 < n && (p[i].attr & 0x100) && (p[i + 1].attr & 0x200) && p[i].ch == p[i + 1].ch ? 2 : 1; };
    for (int i = 0; i < n;) {
        int k = span(i); uint32_t u = p[i].ch;
        if (u >= 0xD800 && u <= 0xDBFF && i + k < n && p[i + k].ch >= 0xDC00 && p[i + k].ch <= 0xDFFF) {
            int k2 = span(i + k); u = 0x10000 + ((u - 0xD800) << 10) + (p[i + k].ch - 0xDC00); k += k2;
        } else if (u >= 0xD800 && u <= 0xDFFF) u = '?';
        static const uint16_t box[] = {0, 0x2554, 0x2557, 0x255A, 0x255D, 0x2551, 0x2550};
        if (u >= 1 && u <= 6) u = box[u]; else if (u == 27) u = '?';
        v.push_back({u, k}); i += k;
    }
    return v;
}
std::string cellsUtf8(const Cell *p, int n, bool trim) {
    std::string r; for (auto &o : decodeRow(p, n)) put8(r, o.cp);
    if (trim) while (!r.empty() && r.back() == ' ') r.pop_back();
    return r;
}
void putWide(Buffer &b, uint16_t ch) {
    if (b.cx + 2 > b.w) { if (!(b.mode & 2)) return; b.newline(); }
    uint16_t a = b.attr;
    b.set(b.cx, b.cy, Cell{ch, (uint16_t)(a | 0x100)}); b.set(b.cx + 1, b.cy, Cell{ch, (uint16_t)(a | 0x200)});
    if (b.cx + 2 < b.w) b.cx += 2; else if (b.mode & 2) b.newline(); else b.cx = b.w - 1;
    b.ensureVisible(b.cx, b.cy);
}
std::string diffRow(const Buffer &b, int y, int x0, int n, const vt::Vt &t, int absLine, bool attrs, bool rev, bool und) {
    std::vector<Cell> cut(&b.cells[(size_t)y * b.w + x0], &b.cells[(size_t)y * b.w + x0] + n); Cell *p = cut.data();
    // a full-width character cut in two by the edge of what is shown reads as a blank
    if (n > 1 && x0 > 0 && (p[0].attr & 0x200) ) { const Cell &q = b.cells[(size_t)y * b.w + x0 - 1]; if ((q.attr & 0x100) && q.ch == p[0].ch) p[0] = Cell{' ', (uint16_t)(p[0].attr & ~0x300)}; }
    if (n > 1 && x0 + n < b.w && (p[n - 1].attr & 0x100)) { const Cell &q = b.cells[(size_t)y * b.w + x0 + n]; if ((q.attr & 0x200) && q.ch == p[n - 1].ch) p[n - 1] = Cell{' ', (uint16_t)(p[n - 1].attr & ~0x300)}; }
    const vt::Line &l = t.line(absLine); int col = 0; char m[400];
    for (auto &o : decodeRow(p, n)) {
        uint32_t got = col < (int)l.size() ? l[col].ch : ' ';
        if (got != o.cp) {
            snprintf(m, sizeof m, "row %d column %d: the console shows U+%04X, the terminal U+%04X", y, x0 + col, o.cp, got);
            return std::string(m) + "\n  console:  [" + esc(cellsUtf8(p, n, true)) + "]\n  terminal: [" + esc(t.rowText(absLine)) + "]";
        }
        if (attrs) for (int k = 0; k < o.cells; ++k) {
            vt::Rend want = vt::rendOf(p[col].attr, rev, und);
            vt::Rend have = col + k < (int)l.size() ? l[col + k].r : vt::Rend();
            if (o.cp == ' ' || o.cp == 0xA0) {      // only the background of a blank shows
                auto bgOnly = [](vt::Rend r) { if (!r.inverse) r.fg = -1; r.bold = r.conceal = false; return r; };
                want = bgOnly(want); have = bgOnly(have);
            }
            if (want != have) { snprintf(m, sizeof m, "row %d column %d: console attribute 0x%04x wants rendition {%s}, the terminal has {%s}", y, x0 + col + k, p[col].attr, want.str().c_str(), have.str().c_str()); return m; }
        }
        col += o.cells;
    }
    for (; col < (int)l.size() && col < t.w; ++col) if (l[col].ch != ' ') { snprintf(m, sizeof m, "row %d: the terminal shows U+%04X at column %d, beyond the console's %d columns", y, l[col].ch, col, n); return m; }
    return "";
}
} // namespace session
