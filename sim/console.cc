// The console host: screen buffers, window, selection freeze, input queue, title, fonts, keyboard layout.
#include "internal.h"
#include "../engine/pbt.h"
#include <algorithm>
#include <math.h>

namespace sim {

static uint64_t g_rowIds = 1;

void Buffer::init(int w_, int h_) {
    w = w_; h = h_; cells.assign((size_t)w * h, Cell{' ', attr}); rowId.resize(h);
    for (auto &r : rowId) r = g_rowIds++;
}
void Buffer::scrollUp(int n) {
    if (n <= 0) return;
    n = std::min(n, h);
    cells.erase(cells.begin(), cells.begin() + (size_t)n * w);
    cells.resize((size_t)w * h, Cell{' ', attr});
    rowId.erase(rowId.begin(), rowId.begin() + n);
    for (int i = 0; i < n; ++i) rowId.push_back(g_rowIds++);
}
void Buffer::ensureVisible(int x, int y) {
    int dx = 0, dy = 0;
    if (y < win.t) dy = y - win.t; else if (y > win.b) dy = y - win.b;
    if (x < win.l) dx = x - win.l; else if (x > win.r) dx = x - win.r;
    win.t += dy; win.b += dy; win.l += dx; win.r += dx;
}
// Overwriting half of a full-width character turns its other half into a space, as the console host does.
void Buffer::set(int x, int y, Cell c) {
    Cell &o = at(x, y);
    if ((o.attr & 0x100) && x + 1 < w && (at(x + 1, y).attr & 0x200)) { at(x + 1, y).ch = ' '; at(x + 1, y).attr &= ~0x300; }
    if ((o.attr & 0x200) && x > 0 && (at(x - 1, y).attr & 0x100)) { at(x - 1, y).ch = ' '; at(x - 1, y).attr &= ~0x300; }
    o = c;
}
void Buffer::newline() {
    cx = 0;
    if (cy + 1 >= h) scrollUp(1); else cy++;
    ensureVisible(cx, cy);
}
void Buffer::putChar(uint16_t c) {
    bool processed = mode & 1, wrap = mode & 2;
    if (processed) {
        switch (c) {
        case '\n': newline(); return;
        case '\r': cx = 0; ensureVisible(cx, cy); return;
        case 8: if (cx > 0) cx--; ensureVisible(cx, cy); return;
        case 9: do { putChar(' '); } while (cx % 8); return;
        case 7: return;
        }
    }
    set(cx, cy, Cell{c, attr});
    if (cx + 1 < w) cx++; else if (wrap) newline();
    ensureVisible(cx, cy);
}
void Buffer::write(const U16 &s) { for (auto c : s) putChar(c); }
void Buffer::clear(uint16_t a) {
    for (auto &c : cells) c = Cell{' ', a};
    for (auto &r : rowId) r = g_rowIds++;
    cx = cy = 0;
    int ww = win.w(), hh = win.h();
    win.l = win.t = 0; win.r = ww - 1; win.b = hh - 1;
}
void Buffer::resize(int nw, int nh) {
    int drop = 0;
    if (nh < h && cy >= nh) drop = cy - nh + 1;      // rows rotate so that the cursor row survives
    std::vector<Cell> nc((size_t)nw * nh, Cell{' ', attr});
    std::vector<uint64_t> nr(nh);
    for (int y = 0; y < nh; ++y) {
        int sy = y + drop;
        nr[y] = sy < h ? rowId[sy] : g_rowIds++;
        if (sy < h) for (int x = 0; x < std::min(w, nw); ++x) nc[(size_t)y * nw + x] = at(x, sy);
        if (sy < h && nw < w) { Cell &e = nc[(size_t)y * nw + nw - 1]; if ((e.attr & 0x100) && (at(nw, sy).attr & 0x200) && at(nw, sy).ch == e.ch) e = Cell{' ', (uint16_t)(e.attr & ~0x300)}; }   // half a character is dropped
    }
    cells.swap(nc); rowId.swap(nr); w = nw; h = nh; cy -= drop; cx = std::min(cx, w - 1); cy = std::min(std::max(cy, 0), h - 1);
    win.t -= drop; win.b -= drop;
    if (win.t < 0) { win.b -= win.t; win.t = 0; }
    if (win.b >= h) { int d = win.b - h + 1; win.b -= d; win.t = std::max(0, win.t - d); }
    if (win.r >= w) { int d = win.r - w + 1; win.r -= d; win.l = std::max(0, win.l - d); }
}
U16 Buffer::rowText(int y) const { U16 s; for (int x = 0; x < w; ++x) s += (char16_t)cells[(size_t)y * w + x].ch; return s; }
void Buffer::handleClosed(Process *, bool last) {
    if (!last || !con) return;
    if (con->buffers.size() > 1) {
        auto self = std::static_pointer_cast<Buffer>(shared_from_this());
        auto &v = con->buffers;
        v.erase(std::remove(v.begin(), v.end(), self), v.end());
        if (con->active == self) con->active = v[0];
    }
}

bool Console::legacy() const { return g->cfg.os != OS_W10; }
int Console::largestW() const { return std::max(1, g->cfg.monW / std::max(1, fontW)); }
int Console::largestH() const { return std::max(1, g->cfg.monH / std::max(1, fontH)); }
int Console::minCols() const { return std::max(1, (g->cfg.minWinPx + fontW - 1) / fontW); }
std::shared_ptr<Buffer> Console::newBuffer() {
    auto b = std::make_shared<Buffer>();
    b->con = this; buffers.push_back(b);
    return b;
}
Console *World::newConsole() {
    consoles.emplace_back(new Console);
    Console *c = consoles.back().get();
    c->g = this; c->id = nextConsole++; c->hwnd = nextHwnd; nextHwnd += 0x10; c->outCp = c->cp = cfg.outCp;
    c->in = std::make_shared<ConIn>(); c->in->con = c;
    auto b = c->newBuffer();
    b->init(std::max(cfg.initW, 1), std::max(cfg.initBufH, cfg.initH));
    b->win = Rect{0, 0, cfg.initW - 1, cfg.initH - 1};
    c->active = b;
    return c;
}
void Console::setFont(const U16 &f, int h, int w, int idx) {
    face = f; fontH = h; fontW = w; fontIndex = idx;
    for (auto &b : buffers) {
        int lw = largestW(), lh = largestH();
        if (b->win.w() > lw) b->win.r = b->win.l + lw - 1;
        if (b->win.h() > lh) { b->win.b = b->win.t + lh - 1; if (b->cy > b->win.b && b->cy < b->h) { int d = b->cy - b->win.b; b->win.t += d; b->win.b += d; } }
        if (b->w < minCols()) {
            if (frozen && !legacy()) simFail("console host hang: the screen buffer had to grow (font change) while a selection was active");
            int nw = minCols();
            b->resize(nw, b->h);
            if (!legacy()) b->win.r = b->win.l + std::min(nw, lw) - 1;
        }
    }
}
void Console::selection(bool on, bool mark) {
    if (on) {
        if (frozen) return;
        frozen = true; frozenByMark = mark; freezes++;
        if (mark && legacy()) { markX = active->cx; markY = active->cy; active->cx = active->win.l; active->cy = active->win.t; }
    } else {
        if (!frozen) return;
        frozen = false;
        if (frozenByMark && legacy()) { active->cx = std::min(markX, active->w - 1); active->cy = std::min(markY, active->h - 1); }
    }
}
std::string InEv::str() const {
    char b[200];
    switch (type) {
    case Key: snprintf(b, sizeof b, "Key{%s vk=%02x sc=%02x ch=%04x ctl=%x rep=%d}", down ? "down" : "up", vk, scan, ch, ctrl, repeat); break;
    case Mouse: snprintf(b, sizeof b, "Mouse{%d,%d btn=%x ctl=%x fl=%x}", x, y, buttons, ctrl, flags); break;
    case Size: snprintf(b, sizeof b, "Size{%d,%d}", x, y); break;
    case Focus: snprintf(b, sizeof b, "Focus"); break;
    case Menu: snprintf(b, sizeof b, "Menu"); break;
    case WinMsg: snprintf(b, sizeof b, "Msg{%x wp=%llx lp=%llx}", msg, (unsigned long long)wp, (unsigned long long)lp); break;
    case Ctrl: snprintf(b, sizeof b, "CtrlEvent{%d}", x); break;
    }
    return b;
}
void killConsole(Console *c) {
    auto v = c->procs;
    for (auto *p : v) sim::g->killProcess(p, 0xC000013A, true);
}
std::shared_ptr<Buffer> bufOf(HANDLE h) { return objOf<Buffer>(h); }
static Console *consoleByHwnd(uint64_t hwnd) { for (auto &c : g->consoles) if (c->hwnd == hwnd) return c.get(); return nullptr; }

// ---- fonts
static int lucidaWidth(int h) { return std::max(1, (int)lround(h * 0.602)); }
static std::vector<std::pair<int,int>> xpFontList() { return g->cfg.xpFonts.empty() ? std::vector<std::pair<int,int>>{{8,12},{4,6},{6,8},{8,8},{16,8},{5,12},{7,12},{16,12},{12,16},{10,18}} : g->cfg.xpFonts; }
struct FontEx { ULONG cbSize; DWORD nFont; COORD dwFontSize; UINT FontFamily; UINT FontWeight; WCHAR FaceName[32]; };
struct FontXp { DWORD nFont; COORD dwFontSize; };
extern "C" {
static BOOL WINAPI simGetCurrentConsoleFont(HANDLE h, BOOL, FontXp *o) { API_F("GetCurrentConsoleFont", FALSE); auto b = bufOf(h); if (!b) return FALSE; o->nFont = b->con->fontIndex; o->dwFontSize.X = b->con->fontW; o->dwFontSize.Y = b->con->fontH; return TRUE; }
static COORD WINAPI simGetConsoleFontSize(HANDLE h, DWORD i) { API("GetConsoleFontSize"); COORD c = {0, 0}; auto l = xpFontList(); if (i < l.size()) { c.X = l[i].first; c.Y = l[i].second; } return c; }
static BOOL WINAPI simSetConsoleFont(HANDLE h, DWORD i) { API_F("SetConsoleFont", FALSE); auto b = bufOf(h); if (!b) return FALSE; auto l = xpFontList(); if (i >= l.size()) { setErr(87); return FALSE; } if (g.cfg.fontWorks) b->con->setFont(u"Terminal", l[i].second, l[i].first, i); return TRUE; }
static DWORD WINAPI simGetNumberOfConsoleFonts() { API("GetNumberOfConsoleFonts"); return xpFontList().size(); }
static BOOL WINAPI simGetCurrentConsoleFontEx(HANDLE h, BOOL, FontEx *o) {
    API_F("GetCurrentConsoleFontEx", FALSE); auto b = bufOf(h); if (!b) return FALSE;
    if (o->cbSize != sizeof(FontEx)) { setErr(87); return FALSE; }
    o->nFont = b->con->fontIndex; o->dwFontSize.X = b->con->fontW; o->dwFontSize.Y = b->con->fontH; o->FontFamily = 0x36; o->FontWeight = 400;
    memset(o->FaceName, 0, sizeof o->FaceName); for (size_t i = 0; i < b->con->face.size() && i < 31; ++i) o->FaceName[i] = b->con->face[i];
    return TRUE;
}
static BOOL WINAPI simSetCurrentConsoleFontEx(HANDLE h, BOOL, FontEx *o) {
    API_F("SetCurrentConsoleFontEx", FALSE); auto b = bufOf(h); if (!b) return FALSE;
    if (o->cbSize != sizeof(FontEx)) { setErr(87); return FALSE; }
    if (!g.cfg.fontWorks) return TRUE;                       // silently keeps the old font
    U16 face; for (int i = 0; i < 32 && o->FaceName[i]; ++i) face += (char16_t)o->FaceName[i];
    int hgt = o->dwFontSize.Y; if (hgt < 1) hgt = 12;
    bool lucida = face == u"Lucida Console";
    b->con->setFont(face, hgt, lucida ? lucidaWidth(hgt) : std::max(1, hgt / 2), 1);
    return TRUE;
}
BOOL WINAPI sim_GetNamedPipeClientProcessId(HANDLE, PULONG);
}
void *consoleProc(const char *n) {
    int os = g->cfg.os;
    if (!strcmp(n, "GetCurrentConsoleFont")) return (void *)simGetCurrentConsoleFont;
    if (!strcmp(n, "GetConsoleFontSize")) return (void *)simGetConsoleFontSize;
    if (!strcmp(n, "SetConsoleFont")) return (void *)simSetConsoleFont;
    if (!strcmp(n, "GetNumberOfConsoleFonts")) return (void *)simGetNumberOfConsoleFonts;
    if (os != OS_XP) {
        if (!strcmp(n, "GetCurrentConsoleFontEx")) return (void *)simGetCurrentConsoleFontEx;
        if (!strcmp(n, "SetCurrentConsoleFontEx")) return (void *)simSetCurrentConsoleFontEx;
        if (!strcmp(n, "GetNamedPipeClientProcessId")) return (void *)sim_GetNamedPipeClientProcessId;
    }
    return nullptr;
}
static Rect rectOf(const SMALL_RECT &r) { return Rect{r.Left, r.Top, r.Right, r.Bottom}; }
} // namespace sim
using namespace sim;

extern "C" {
HWND WINAPI GetConsoleWindow(void) { API("GetConsoleWindow"); return me->con ? (HWND)(uintptr_t)me->con->hwnd : NULL; }
HANDLE WINAPI GetStdHandle(DWORD n) {
    API("GetStdHandle");
    switch ((int)n) { case -10: return vh(me->stdIn); case -11: return vh(me->stdOut); case -12: return vh(me->stdErr); }
    setErr(6); return INVALID_HANDLE_VALUE;
}
HANDLE WINAPI CreateConsoleScreenBuffer(DWORD, DWORD, const SECURITY_ATTRIBUTES *sa, DWORD flags, LPVOID) {
    API_F("CreateConsoleScreenBuffer", INVALID_HANDLE_VALUE);
    if (!me->con) { setErr(6); return INVALID_HANDLE_VALUE; }
    auto b = me->con->newBuffer();
    auto &a = *me->con->active;
    b->attr = 7; b->init(a.w, a.win.h()); b->win = Rect{0, 0, a.win.w() - 1, a.win.h() - 1};
    return vh(g.addHandle(me, b, "CreateConsoleScreenBuffer", sa && sa->bInheritHandle));
}
WINBOOL WINAPI GetConsoleScreenBufferInfo(HANDLE h, PCONSOLE_SCREEN_BUFFER_INFO o) {
    API_F("GetConsoleScreenBufferInfo", FALSE);
    auto b = bufOf(h); if (!b) return FALSE;
    o->dwSize.X = b->w; o->dwSize.Y = b->h; o->dwCursorPosition.X = b->cx; o->dwCursorPosition.Y = b->cy; o->wAttributes = b->attr;
    o->srWindow.Left = b->win.l; o->srWindow.Top = b->win.t; o->srWindow.Right = b->win.r; o->srWindow.Bottom = b->win.b;
    o->dwMaximumWindowSize.X = std::min(b->w, b->con->largestW()); o->dwMaximumWindowSize.Y = std::min(b->h, b->con->largestH());
    return TRUE;
}
COORD WINAPI GetLargestConsoleWindowSize(HANDLE h) { API("GetLargestConsoleWindowSize"); COORD c = {0, 0}; auto b = bufOf(h); if (b) { c.X = std::min(32767, b->con->largestW()); c.Y = std::min(32767, b->con->largestH()); } return c; }
WINBOOL WINAPI SetConsoleScreenBufferSize(HANDLE h, COORD s) {
    API_F("SetConsoleScreenBufferSize", FALSE);
    auto b = bufOf(h); if (!b) return FALSE;
    if (b->con->frozen && !b->con->legacy()) simFail("console host hang: SetConsoleScreenBufferSize while a selection is active (new Windows 10 console)");
    if (s.X < b->con->minCols() || s.Y < 1 || s.X < b->win.w() || s.Y < b->win.h() || s.X == 0x7fff) { setErr(ERROR_INVALID_PARAMETER); return FALSE; }
    b->resize(s.X, s.Y);
    return TRUE;
}
WINBOOL WINAPI SetConsoleWindowInfo(HANDLE h, WINBOOL abs, const SMALL_RECT *r) {
    API_F("SetConsoleWindowInfo", FALSE);
    auto b = bufOf(h); if (!b) return FALSE;
    Rect n = rectOf(*r);
    if (!abs) { n.l += b->win.l; n.t += b->win.t; n.r += b->win.r; n.b += b->win.b; }
    if (n.r < n.l || n.b < n.t || n.l < 0 || n.t < 0 || n.r >= b->w || n.b >= b->h || n.w() > b->con->largestW() || n.h() > b->con->largestH()) { setErr(ERROR_INVALID_PARAMETER); return FALSE; }
    b->win = n;
    return TRUE;
}
WINBOOL WINAPI SetConsoleCursorPosition(HANDLE h, COORD c) {
    API_F("SetConsoleCursorPosition", FALSE);
    auto b = bufOf(h); if (!b) return FALSE;
    if (c.X < 0 || c.Y < 0 || c.X >= b->w || c.Y >= b->h) { setErr(87); return FALSE; }
    b->cx = c.X; b->cy = c.Y; b->ensureVisible(c.X, c.Y);
    return TRUE;
}
WINBOOL WINAPI SetConsoleTextAttribute(HANDLE h, WORD a) { API_F("SetConsoleTextAttribute", FALSE); auto b = bufOf(h); if (!b) return FALSE; b->attr = a; return TRUE; }
WINBOOL WINAPI GetConsoleCursorInfo(HANDLE h, PCONSOLE_CURSOR_INFO o) { API_F("GetConsoleCursorInfo", FALSE); auto b = bufOf(h); if (!b) return FALSE; o->dwSize = b->cursorSize; o->bVisible = b->cursorVisible; return TRUE; }
WINBOOL WINAPI GetConsoleMode(HANDLE h, LPDWORD m) {
    API_F("GetConsoleMode", FALSE);
    ObjP o = g.getObj(me, hv(h));
    if (auto b = std::dynamic_pointer_cast<Buffer>(o)) { *m = b->mode; return TRUE; }
    if (auto i = std::dynamic_pointer_cast<ConIn>(o)) { *m = i->con->inMode; return TRUE; }
    setErr(6); return FALSE;
}
WINBOOL WINAPI SetConsoleMode(HANDLE h, DWORD m) {
    API_F("SetConsoleMode", FALSE);
    ObjP o = g.getObj(me, hv(h));
    if (auto b = std::dynamic_pointer_cast<Buffer>(o)) { b->mode = m; return TRUE; }
    if (auto i = std::dynamic_pointer_cast<ConIn>(o)) { i->con->inMode = m; return TRUE; }
    setErr(6); return FALSE;
}
UINT WINAPI GetConsoleCP(void) { API("GetConsoleCP"); return me->con ? me->con->cp : 0; }
UINT WINAPI GetConsoleOutputCP(void) { API("GetConsoleOutputCP"); return me->con ? me->con->outCp : 0; }
WINBOOL WINAPI ReadConsoleOutputW(HANDLE h, PCHAR_INFO buf, COORD size, COORD at, PSMALL_RECT reg) {
    API_F("ReadConsoleOutputW", FALSE);
    auto b = bufOf(h); if (!b) return FALSE;
    Rect r = rectOf(*reg);
    if (g.cfg.os != OS_W10 && (r.l < 0 || r.t < 0 || r.r >= b->w || r.b >= b->h))
        simFail("ReadConsoleOutputW of an out-of-range region (%d,%d)-(%d,%d) of a %dx%d buffer crashes the caller on this OS", r.l, r.t, r.r, r.b, b->w, b->h);
    if ((g.cfg.os == OS_W7 || g.cfg.os == OS_VISTA || g.cfg.os == OS_XP) && (int)size.X * size.Y > 8192) { setErr(ERROR_NOT_ENOUGH_MEMORY); return FALSE; }
    // the region is clipped to the target array first, then to the buffer
    r.r = std::min(r.r, r.l + (size.X - at.X) - 1); r.b = std::min(r.b, r.t + (size.Y - at.Y) - 1);
    for (int y = r.t; y <= r.b; ++y) for (int x = r.l; x <= r.r; ++x) {
        if (x < 0 || y < 0 || x >= b->w || y >= b->h) continue;
        CHAR_INFO &o = buf[(size_t)(at.Y + y - r.t) * size.X + at.X + (x - r.l)];
        Cell c = b->at(x, y);
        // a full-width character cut in two by the edge of the region reads as a blank
        if (x == r.l && x > 0 && (c.attr & 0x200) && (b->at(x - 1, y).attr & 0x100) && b->at(x - 1, y).ch == c.ch) c = Cell{' ', (uint16_t)(c.attr & ~0x300)};
        if (r.r > r.l && x == r.r && x + 1 < b->w && (c.attr & 0x100) && (b->at(x + 1, y).attr & 0x200) && b->at(x + 1, y).ch == c.ch) c = Cell{' ', (uint16_t)(c.attr & ~0x300)};
        o.Char.UnicodeChar = c.ch; o.Attributes = c.attr;
    }
    reg->Right = std::min(r.r, b->w - 1); reg->Bottom = std::min(r.b, b->h - 1);
    return TRUE;
}
WINBOOL WINAPI WriteConsoleOutputW(HANDLE h, const CHAR_INFO *buf, COORD size, COORD at, PSMALL_RECT reg) {
    API_F("WriteConsoleOutputW", FALSE);
    auto b = bufOf(h); if (!b) return FALSE;
    Rect r = rectOf(*reg);
    r.r = std::min(r.r, r.l + (size.X - at.X) - 1); r.b = std::min(r.b, r.t + (size.Y - at.Y) - 1);
    for (int y = r.t; y <= r.b; ++y) for (int x = r.l; x <= r.r; ++x) {
        if (x < 0 || y < 0 || x >= b->w || y >= b->h) continue;
        const CHAR_INFO &o = buf[(size_t)(at.Y + y - r.t) * size.X + at.X + (x - r.l)];
        b->at(x, y) = Cell{(uint16_t)o.Char.UnicodeChar, o.Attributes};
    }
    return TRUE;
}
WINBOOL WINAPI FillConsoleOutputCharacterW(HANDLE h, WCHAR ch, DWORD n, COORD at, LPDWORD actual) {
    API_F("FillConsoleOutputCharacterW", FALSE);
    auto b = bufOf(h); if (!b) return FALSE;
    if (at.X < 0 || at.Y < 0 || at.X >= b->w || at.Y >= b->h) { *actual = 0; return TRUE; }
    size_t p = (size_t)at.Y * b->w + at.X, m = std::min<size_t>(n, b->cells.size() - p);
    for (size_t i = 0; i < m; ++i) { b->cells[p + i].ch = ch; b->cells[p + i].attr &= ~0x300; }
    *actual = m; return TRUE;
}
WINBOOL WINAPI FillConsoleOutputAttribute(HANDLE h, WORD a, DWORD n, COORD at, LPDWORD actual) {
    API_F("FillConsoleOutputAttribute", FALSE);
    auto b = bufOf(h); if (!b) return FALSE;
    if (at.X < 0 || at.Y < 0 || at.X >= b->w || at.Y >= b->h) { *actual = 0; return TRUE; }
    size_t p = (size_t)at.Y * b->w + at.X, m = std::min<size_t>(n, b->cells.size() - p);
    for (size_t i = 0; i < m; ++i) b->cells[p + i].attr = a;
    *actual = m; return TRUE;
}
DWORD WINAPI GetConsoleTitleW(LPWSTR buf, DWORD size) {
    API_F("GetConsoleTitleW", 0);
    if (!me->con) return 0;
    const U16 &t = me->con->title; int os = g.cfg.os;
    size_t cap = size;
    if (os == OS_VISTA || os == OS_W7) cap = size / 2;      // the size is taken as a byte count
    if (os == OS_XP && t.empty()) return 0;                   // and no terminator
    if (cap == 0) return os == OS_XP ? 0 : t.size();
    size_t n = std::min(t.size(), cap - 1);
    for (size_t i = 0; i < n; ++i) buf[i] = t[i];
    buf[n] = 0;
    return os == OS_XP ? n : t.size();
}
WINBOOL WINAPI SetConsoleTitleW(LPCWSTR t) { API_F("SetConsoleTitleW", FALSE); if (!me->con) return FALSE; me->con->title = toU16(t); return TRUE; }
DWORD WINAPI GetConsoleProcessList(LPDWORD l, DWORD n) {
    API_F("GetConsoleProcessList", 0);
    if (!me->con || n == 0) return 0;
    auto &v = me->con->procs;
    if (v.size() > n) return v.size();
    for (size_t i = 0; i < v.size(); ++i) l[i] = v[v.size() - 1 - i]->pid;
    return v.size();
}
WINBOOL WINAPI WriteConsoleInputW(HANDLE h, const INPUT_RECORD *r, DWORD n, LPDWORD actual) {
    API_F("WriteConsoleInputW", FALSE);
    auto in = objOf<ConIn>(h); if (!in) return FALSE;
    for (DWORD i = 0; i < n; ++i) {
        InEv e; e.time = g.now;
        switch (r[i].EventType) {
        case KEY_EVENT: { auto &k = r[i].Event.KeyEvent; e.type = InEv::Key; e.down = k.bKeyDown; e.repeat = k.wRepeatCount; e.vk = k.wVirtualKeyCode; e.scan = k.wVirtualScanCode; e.ch = k.uChar.UnicodeChar; e.ctrl = k.dwControlKeyState; break; }
        case MOUSE_EVENT: { auto &m = r[i].Event.MouseEvent; e.type = InEv::Mouse; e.x = m.dwMousePosition.X; e.y = m.dwMousePosition.Y; e.buttons = m.dwButtonState; e.ctrl = m.dwControlKeyState; e.flags = m.dwEventFlags; break; }
        case WINDOW_BUFFER_SIZE_EVENT: e.type = InEv::Size; e.x = r[i].Event.WindowBufferSizeEvent.dwSize.X; e.y = r[i].Event.WindowBufferSizeEvent.dwSize.Y; break;
        case FOCUS_EVENT: e.type = InEv::Focus; break;
        default: e.type = InEv::Menu; break;
        }
        in->con->log.push_back(e);
    }
    if (actual) *actual = n;
    return TRUE;
}
WINBOOL WINAPI ReadConsoleInputW(HANDLE h, PINPUT_RECORD, DWORD, LPDWORD a) { API("ReadConsoleInputW"); if (a) *a = 0; setErr(6); return FALSE; }
WINBOOL WINAPI GenerateConsoleCtrlEvent(DWORD type, DWORD group) {
    API_F("GenerateConsoleCtrlEvent", FALSE);
    if (!me->con) { setErr(6); return FALSE; }
    InEv e; e.type = InEv::Ctrl; e.x = type; e.y = group; e.time = g.now; me->con->log.push_back(e);
    auto v = me->con->procs;
    for (auto *p : v) {
        if (type == CTRL_C_EVENT && p->ctrlCIgnored) continue;
        p->ctrlEvents.push_back(type);
        bool handled = false;
        for (auto it = p->ctrlHandlers.rbegin(); it != p->ctrlHandlers.rend() && !handled; ++it) handled = ((BOOL (WINAPI *)(DWORD))*it)(type);
        if (p->isAgent && !handled) simFail("the agent did not handle the console control event it generated: it would be terminated");
    }
    return TRUE;
}
WINBOOL WINAPI SetConsoleCtrlHandler(PHANDLER_ROUTINE r, WINBOOL add) {
    API_F("SetConsoleCtrlHandler", FALSE);
    if (!r) { me->ctrlCIgnored = add; return TRUE; }
    auto &v = me->ctrlHandlers;
    if (add) v.push_back((void *)r); else v.erase(std::remove(v.begin(), v.end(), (void *)r), v.end());
    return TRUE;
}
LRESULT WINAPI SendMessageW(HWND h, UINT msg, WPARAM wp, LPARAM lp) {
    API("SendMessageW");
    Console *c = consoleByHwnd((uint64_t)(uintptr_t)h);
    if (!c) { g.problem("%s: SendMessage to an invalid window", me->name.c_str()); return 0; }
    if (msg == WM_SYSCOMMAND) {
        if (wp == 0xFFF2) c->selection(true, true);
        else if (wp == 0xFFF5) c->selection(true, false);
        return 0;
    }
    if (msg == WM_CHAR && wp == 27 && c->frozen) { c->selection(false, false); return 0; }
    InEv e; e.type = InEv::WinMsg; e.msg = msg; e.wp = wp; e.lp = lp; e.time = g.now; c->log.push_back(e);
    return 0;
}
WINBOOL WINAPI PostMessageW(HWND h, UINT msg, WPARAM wp, LPARAM lp) {
    API("PostMessageW");
    Console *c = consoleByHwnd((uint64_t)(uintptr_t)h);
    if (!c) { g.problem("%s: PostMessage to an invalid window", me->name.c_str()); return FALSE; }
    if (msg == WM_CLOSE) { World *w = sim::g; g.timers.insert({g.now + 3, [w, c] { if (sim::g == w) killConsole(c); }}); return TRUE; }
    InEv e; e.type = InEv::WinMsg; e.msg = msg; e.wp = wp; e.lp = lp; e.time = g.now; c->log.push_back(e);
    return TRUE;
}
UINT WINAPI GetDoubleClickTime(void) { API("GetDoubleClickTime"); return g.cfg.dblClick; }

// ---- keyboard layout (US; or US plus German style AltGr keys)
static const struct { int vk, sc; } kScan[] = {
    {0x1B,1},{'1',2},{'2',3},{'3',4},{'4',5},{'5',6},{'6',7},{'7',8},{'8',9},{'9',10},{'0',11},{0xBD,12},{0xBB,13},{0x08,14},{0x09,15},
    {'Q',16},{'W',17},{'E',18},{'R',19},{'T',20},{'Y',21},{'U',22},{'I',23},{'O',24},{'P',25},{0xDB,26},{0xDD,27},{0x0D,28},{0x11,29},
    {'A',30},{'S',31},{'D',32},{'F',33},{'G',34},{'H',35},{'J',36},{'K',37},{'L',38},{0xBA,39},{0xDE,40},{0xC0,41},{0x10,42},{0xDC,43},
    {'Z',44},{'X',45},{'C',46},{'V',47},{'B',48},{'N',49},{'M',50},{0xBC,51},{0xBE,52},{0xBF,53},{0x6A,55},{0x12,56},{0x20,57},{0x14,58},
    {0x70,59},{0x71,60},{0x72,61},{0x73,62},{0x74,63},{0x75,64},{0x76,65},{0x77,66},{0x78,67},{0x79,68},{0x90,69},{0x91,70},
    {0x24,71},{0x26,72},{0x21,73},{0x6D,74},{0x25,75},{0x0C,76},{0x27,77},{0x6B,78},{0x23,79},{0x28,80},{0x22,81},{0x2D,82},{0x2E,83},
    {0x67,71},{0x68,72},{0x69,73},{0x64,75},{0x65,76},{0x66,77},{0x61,79},{0x62,80},{0x63,81},{0x60,82},{0x6E,83},
    {0x7A,87},{0x7B,88},{0x6F,53},{0x7C,100},{0x7D,101},{0x7E,102},{0x7F,103},{0x80,104},{0x81,105},{0x82,106},{0x83,107},{0x84,108},{0x85,109},{0x86,110},{0x87,118},{0x2C,84},{0x13,0},{0x5B,91},{0x5C,92},{0x5D,93}};
static int vkToScan(int vk) { for (auto &k : kScan) if (k.vk == vk) return k.sc; return 0; }
UINT WINAPI MapVirtualKeyW(UINT code, UINT type) { API("MapVirtualKeyW"); return type == 0 ? vkToScan((int)code) : 0; }
static int vkScan(int c, bool german) {
    if (german) {
        switch (c) { case 0xB2: return 0x600 | '2'; case 0xB3: return 0x600 | '3'; case '@': return 0x600 | 'Q'; case 0x20AC: return 0x600 | 'E'; case '{': return 0x600 | '7'; case '[': return 0x600 | '8'; case ']': return 0x600 | '9'; case '}': return 0x600 | '0';
                     case 0xFC: return 0xBA; case 0xDC: return 0x1BA; case 0xDF: return 0xDB; }
    }
    if (c >= 'a' && c <= 'z') return c - 32;
    if (c >= 'A' && c <= 'Z') return 0x100 | c;
    if (c >= '0' && c <= '9') return c;
    switch (c) {
    case 8: return 0x08; case 9: return 0x09; case 13: return 0x0D; case 27: return 0x1B; case 10: return 0x20D; case 127: return 0x208; case 3: return 0x03;
    case ' ': return 0x20; case '!': return 0x131; case '@': return 0x132; case '#': return 0x133; case '$': return 0x134; case '%': return 0x135; case '^': return 0x136; case '&': return 0x137; case '*': return 0x138; case '(': return 0x139; case ')': return 0x130;
    case '-': return 0xBD; case '_': return 0x1BD; case '=': return 0xBB; case '+': return 0x1BB; case '[': return 0xDB; case '{': return 0x1DB; case ']': return 0xDD; case '}': return 0x1DD; case '\\': return 0xDC; case '|': return 0x1DC;
    case ';': return 0xBA; case ':': return 0x1BA; case '\'': return 0xDE; case '"': return 0x1DE; case '`': return 0xC0; case '~': return 0x1C0; case ',': return 0xBC; case '<': return 0x1BC; case '.': return 0xBE; case '>': return 0x1BE; case '/': return 0xBF; case '?': return 0x1BF;
    case 0x1C: return 0x2DC; case 0x1D: return 0x2DD; case 0x1E: return 0x336; case 0x1F: return 0x3BD; case 0: return 0x332;
    }
    if (c >= 1 && c <= 26) return 0x200 | (c + 64);
    return -1;
}
SHORT WINAPI VkKeyScanW(WCHAR c) { API("VkKeyScanW"); return (SHORT)vkScan(c, g.cfg.germanLayout); }
} // extern "C"
namespace sim { int keyScanCode(int vk) { return vkToScan(vk); } int charKey(int ch, bool german) { return vkScan(ch, german); } }
