#include "model/draw.h"
#include <algorithm>
namespace draw {
static bool isWide(char16_t ch) { return vt::charWidth(ch) == 2 && !(ch >= 0xD800 && ch < 0xE000); }
void writeText(Buffer &b, const std::u16string &s) { for (auto ch : s) if (isWide(ch)) session::putWide(b, ch); else b.putChar(ch); }
std::u16string genText(pbt::Ctx &c, int maxLen, bool wide, bool ctrlGlyphs) {
    std::u16string s; int n = c.skewed(1, maxLen);
    int kind = c.weighted({6, 2, 2, 1});
    if (kind == 0) { static const char16_t w[] = u"abcdefghijklmnopqrstuvwxyz0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ.,:;-_/\\|"; uint64_t st = c.choose(70); for (int i = 0; i < n; ++i) { s += w[st % 70]; st = st * 7 + 3 + i; if (i % 9 == 8) s += u' '; } return s; }
    if (kind == 1) { char16_t ch = u"xX#=-."[c.choose(6)]; return std::u16string(n, ch); }
    for (int i = 0; i < std::min(n, 60); ++i) {
        switch (c.weighted({5, 4, 2, wide ? 3 : 0, wide ? 1 : 0, ctrlGlyphs ? 1 : 0})) {
        case 0: s += (char16_t)c.range('!', '~'); break;
        case 1: s += u' '; break;
        case 2: { static const char16_t v[] = {0xE9, 0xDF, 0x3B1, 0x416, 0x2500, 0x2502, 0x2588, 0x20AC, 0x2014, 0xA0, 0xFFFD, 0x7FF, 0x800, 0x20}; s += v[c.choose(14)]; break; }
        case 3: { static const char16_t v[] = {0x4E00, 0x3042, 0xAC00, 0xFF21, 0x30C6, 0x9FA5}; s += v[c.choose(6)]; break; }
        case 4: s += (char16_t)0xD83D; s += (char16_t)(0xDE00 + c.choose(0x40)); break;
        case 5: { static const char16_t v[] = {1, 2, 3, 4, 5, 6, 27}; s += v[c.choose(7)]; break; }
        }
    }
    return s;
}
uint16_t genAttr(pbt::Ctx &c, bool lvb) {
    switch (c.weighted({4, 3, 2, lvb ? 3 : 0})) {
    case 0: { static const uint16_t v[] = {7, 0x0F, 0x70, 0xF0, 0x1F, 8, 0x87, 0x00, 0x77, 0xFF, 0xF7, 0xF8, 0x0A, 0x4E}; return v[c.choose(14)]; }
    case 1: return (uint16_t)c.choose(256);
    case 2: return 7;
    default: return (uint16_t)(c.choose(256) | (c.choose(4) << 14) | (c.choose(16) == 0 ? 0x1c00 : 0));
    }
}
void cls(Buffer &b) { b.clear(b.attr); }
void scrollRegion(Buffer &b, int y0, int y1, int dy) {
    // rows [y0,y1] move by dy (dy<0: up), uncovered rows are blanked
    std::vector<Cell> src(b.cells.begin() + (size_t)y0 * b.w, b.cells.begin() + (size_t)(y1 + 1) * b.w);
    for (int y = y0; y <= y1; ++y) for (int x = 0; x < b.w; ++x) { int sy = y - dy; b.at(x, y) = sy >= y0 && sy <= y1 ? src[(size_t)(sy - y0) * b.w + x] : Cell{' ', b.attr}; }
}
void fillChars(Buffer &b, int x, int y, int n, uint16_t ch, int attr) {
    for (int i = 0; i < n; ++i) { int xx = (x + i) % b.w, yy = y + (x + i) / b.w; if (yy >= b.h) break; Cell c = b.at(xx, yy); c.ch = ch; c.attr = attr < 0 ? c.attr & ~0x300 : attr; b.set(xx, yy, c); }
}
int addOp(pbt::Ctx &c, session::App &a, std::shared_ptr<Buffer> b, const Kinds &k) {
    pbt::Ctx::Span sp(c);
    int op = c.weighted({10, 8, 3, 6, k.moves ? 1 : 0, k.colors ? 5 : 0, 4, 3, k.clears ? 1 : 0, 2, k.cursorVis ? 2 : 0, k.moves ? 1 : 0, 3, k.bigOutput ? 2 : 0, 2});
    switch (op) {
    case 0: { auto t = genText(c, 200, k.wide, k.ctrlGlyphs); c.note("print %d units [%s...]", (int)t.size(), u8(t.substr(0, 12)).c_str()); a.add([b, t] { writeText(*b, t); }); return (int)t.size() * 2 / b->w + 1; }
    case 1: { int n = c.skewed(1, 5); auto t = genText(c, 60, k.wide, k.ctrlGlyphs); c.note("%d lines [%s...]", n, u8(t.substr(0, 12)).c_str()); a.add([b, n, t] { for (int i = 0; i < n; ++i) { writeText(*b, t); b->putChar('\r'); b->putChar('\n'); } }); return n * ((int)t.size() * 2 / b->w + 1); }
    case 2: { int n = (int)c.choose(3); c.note("control %d", n); a.add([b, n] { b->putChar(n == 0 ? '\r' : n == 1 ? 8 : 9); }); return 1; }
    case 3: { int x = (int)c.choose(1000), y = (int)c.choose(1000); c.note("cursor to window %d,%d (mod)", x, y); a.add([b, x, y] { b->cx = b->win.l + x % b->win.w(); b->cy = b->win.t + y % b->win.h(); b->cx = std::min(b->cx, b->w - 1); b->cy = std::min(b->cy, b->h - 1); b->ensureVisible(b->cx, b->cy); }); return 0; }
    case 4: { int x = (int)c.choose(1000), y = (int)c.choose(4000); c.note("cursor to buffer %d,%d (mod)", x, y); a.add([b, x, y] { int lim = std::min(b->h, b->win.b + 40); b->cx = x % b->w; b->cy = y % lim; b->ensureVisible(b->cx, b->cy); }); return 40; }
    case 5: { uint16_t at = genAttr(c, k.lvb); c.note("attr %04x", at); a.add([b, at] { b->attr = at; }); return 0; }
    case 6: { int x = (int)c.choose(1000), y = (int)c.choose(1000), n = c.skewed(1, 300); uint16_t ch = c.chance(50) ? ' ' : (uint16_t)c.range('A', 'Z'); int at = c.chance(40) && k.colors ? genAttr(c, k.lvb) : -1; c.note("fill %d cells at %d,%d with '%c' attr %d", n, x, y, ch, at);
        a.add([b, x, y, n, ch, at] { fillChars(*b, x % b->w, b->win.t + y % b->win.h(), std::min(n, (b->win.b - (b->win.t + y % b->win.h()) + 1) * b->w - x % b->w), ch, at); }); return 0; }
    case 7: { int y0 = (int)c.choose(1000), n = c.skewed(1, 40), dy = c.chance(50) ? 1 : -1; c.note("scroll region"); a.add([b, y0, n, dy] { int h = b->win.h(); int t = b->win.t + y0 % h; int e = std::min(b->win.b, t + n); scrollRegion(*b, t, e, dy); }); return 0; }
    case 8: { c.note("CLS"); a.add([b] { cls(*b); }); return 0; }
    case 9: { int y = (int)c.choose(1000), n = c.skewed(1, 10); auto t = genText(c, 40, false); c.note("write block"); a.add([b, y, n, t] { for (int i = 0; i < n; ++i) { int yy = b->win.t + y % b->win.h() + i; if (yy > b->win.b) break; for (size_t j = 0; j < t.size() && (int)j < b->w; ++j) b->set((int)j, yy, Cell{(uint16_t)t[j], b->attr}); } }); return 0; }
    case 10: { bool v = c.chance(50); c.note("cursor %s", v ? "shown" : "hidden"); a.add([b, v] { b->cursorVisible = v; }); return 0; }
    case 11: { int d = c.range(-30, 30); c.note("move window by %d", d); a.add([b, d] { int t = std::min(std::max(0, b->win.t + d), b->h - b->win.h()); int h = b->win.h(); b->win.t = t; b->win.b = t + h - 1; }); return 30; }
    case 12: { int n = c.skewed(1, 60); c.note("overwrite %d", n); auto t = genText(c, 20, k.wide); a.add([b, n, t] { for (int i = 0; i < n; ++i) b->putChar(8); writeText(*b, t); }); return 1; }
    case 13: { int n = c.skewed(20, k.maxLines); int sd = (int)c.choose(100); c.note("%d numbered lines", n); a.add([b, n, sd] { for (int i = 0; i < n; ++i) { std::string t = "line " + std::to_string(sd * 1000 + i) + std::string((i * 7 + sd) % 50, 'a' + i % 26) + "\r\n"; b->write(u16(t)); } }); return n * (80 / b->w + 1); }
    default: { c.note("newlines"); int n = c.skewed(1, 30); a.add([b, n] { for (int i = 0; i < n; ++i) b->putChar('\n'); }); return n; }
    }
}
} // namespace draw
