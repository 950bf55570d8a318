// C10 text, C11 splitting, C12 keys, C13 mouse, C14 incomplete sequences, C15 input modes.
#include "model/draw.h"
#include <algorithm>
using namespace session;
namespace {
typedef std::vector<InEv> Evs;
enum { RALT = 1, LALT = 2, CTRL = 8, SHIFT = 0x10, ENH = 0x100 };
bool same(const InEv &a, const InEv &b) {
    if (a.type != b.type) return false;
    switch (a.type) {
    case InEv::Key: return a.down == b.down && a.repeat == b.repeat && a.vk == b.vk && a.scan == b.scan && a.ch == b.ch && a.ctrl == b.ctrl;
    case InEv::Mouse: return a.x == b.x && a.y == b.y && a.buttons == b.buttons && a.flags == b.flags && a.ctrl == b.ctrl;
    case InEv::WinMsg: return a.msg == b.msg && a.wp == b.wp && a.lp == b.lp;
    case InEv::Ctrl: return a.x == b.x;
    default: return true;
    }
}
Evs taken(Session &s) { Evs v; for (auto &e : s.con->log) if (e.type != InEv::Size) v.push_back(e); return v; }
std::string list(const Evs &v, size_t from, size_t n) { std::string r; for (size_t i = from; i < v.size() && i < from + n; ++i) r += "\n    " + v[i].str(); if (v.size() > from + n) r += "\n    ..."; return r; }
void compare(pbt::Ctx &c, const Evs &want, const Evs &got, const char *what) {
    for (size_t i = 0; i < want.size() || i < got.size(); ++i) if (i >= want.size() || i >= got.size() || !same(want[i], got[i])) {
        size_t f = i > 1 ? i - 2 : 0;
        c.fail("%s: event %d of %d is different (%d arrived)\n  expected:%s\n  arrived:%s", what, (int)i, (int)want.size(), (int)got.size(), list(want, f, 7).c_str(), list(got, f, 7).c_str());
    }
}
// ---- what a key press looks like in the console's input queue
void rec(Evs &v, bool down, int vk, int ch, int st) { InEv e; e.type = InEv::Key; e.down = down; e.repeat = 1; e.vk = vk; e.scan = keyScanCode(vk); e.ch = (uint16_t)ch; e.ctrl = (uint32_t)st; v.push_back(e); }
void recCp(Evs &v, bool down, int vk, uint32_t cp, int st) {
    if (cp < 0x10000) rec(v, down, vk, (int)cp, st); else { rec(v, down, vk, 0xD800 + ((cp - 0x10000) >> 10), st); rec(v, down, vk, 0xDC00 + (cp & 0x3ff), st); }
}
struct Press { int vk = 0; uint32_t dn = 0, up = 0; int win = 0; uint32_t vtCp = 0; int vt = 0; };
std::string vtOf(const Press &p, bool &handled) {       // the escape sequence of a key for a program in terminal-input mode
    handled = true; const char *fin = nullptr, *num = nullptr;
    switch (p.vk) {
    case 0x26: fin = "A"; break; case 0x28: fin = "B"; break; case 0x27: fin = "C"; break; case 0x25: fin = "D"; break; case 0x0C: fin = "E"; break; case 0x24: fin = "H"; break; case 0x23: fin = "F"; break;
    case 0x2D: num = "2"; break; case 0x2E: num = "3"; break; case 0x21: num = "5"; break; case 0x22: num = "6"; break;
    case 0x70: num = "11"; break; case 0x71: num = "12"; break; case 0x72: num = "13"; break; case 0x73: num = "14"; break; case 0x74: num = "15"; break; case 0x75: num = "17"; break; case 0x76: num = "18"; break; case 0x77: num = "19"; break; case 0x78: num = "20"; break; case 0x79: num = "21"; break; case 0x7A: num = "23"; break; case 0x7B: num = "24"; break;
    case 0x08: return std::string(p.vt & LALT ? "\x1b" : "") + "\x7f";
    case 0x09: if (p.vt & SHIFT) return "\x1b[Z"; handled = false; return "";
    default: handled = false; return "";
    }
    int m = 1 + (p.vt & SHIFT ? 1 : 0) + (p.vt & LALT ? 2 : 0) + (p.vt & CTRL ? 4 : 0);
    std::string r = "\x1b[";
    if (num) r += num; else if (m > 1) r += "1";
    if (m > 1) r += ";" + std::to_string(m);
    return r + (num ? "~" : fin);
}
void press(Evs &v, const Press &p, bool m200) {
    bool ctrl = p.win & CTRL, la = p.win & LALT, ra = p.win & RALT, sh = p.win & SHIFT;
    if (m200 && p.vk >= 0x23 && p.vk <= 0x28 && !ctrl && !la && !ra && !sh) {
        for (int up = 0; up < 2; ++up) { InEv e; e.type = InEv::WinMsg; e.msg = up ? 0x101 : 0x100; e.wp = p.vk; e.lp = (int64_t)(((uint32_t)keyScanCode(p.vk) << 16) | 1u | (up ? 0xC0000000u : 0)); v.push_back(e); }
        return;
    }
    int st = 0;
    if (ctrl) rec(v, true, 0x11, 0, st |= CTRL);
    if (la) rec(v, true, 0x12, 0, st |= LALT);
    if (ra) { st |= RALT; rec(v, true, 0x12, 0, st | ENH); }
    if (sh) rec(v, true, 0x10, 0, st |= SHIFT);
    st |= p.win & ENH;
    if (m200) {
        bool h; std::string q = vtOf(p, h);
        if (h) for (char ch : q) rec(v, true, 0, ch, 0);
        else if (p.vtCp) { if (p.vt & LALT) rec(v, true, 0, 27, 0); recCp(v, true, 0, p.vtCp, 0); }
    } else recCp(v, true, p.vk, p.dn, st);
    recCp(v, false, p.vk, p.up, st);
    st &= ~ENH;
    if (sh) rec(v, false, 0x10, 0, st &= ~SHIFT);
    if (ra) { st &= ~RALT; rec(v, false, 0x12, 0, st | ENH); }
    if (la) rec(v, false, 0x12, 0, st &= ~LALT);
    if (ctrl) rec(v, false, 0x11, 0, st &= ~CTRL);
}
Press charPress(uint32_t cp, bool alt, bool german) {
    Press p; int k = cp > 0xffff ? -1 : charKey((int)cp, german); p.dn = p.up = p.vtCp = cp;
    if (k != -1) { p.vk = k & 0xff; if (k & 0x100) p.win |= SHIFT; if (k & 0x200) p.win |= CTRL; if (k & 0x400) p.win |= RALT; if (alt && (k & 0x200)) p.dn = p.up = 0; }
    if (alt) { p.up = 0; p.win |= LALT; p.vt |= LALT; }
    return p;
}
Press keyPress(int vk, int ch, int mods) {
    Press p; p.vk = vk; p.vt = mods; p.win = mods | ((vk >= 0x21 && vk <= 0x28) || vk == 0x2D || vk == 0x2E ? ENH : 0);
    if (mods & CTRL) { if (vk == 0x6A || vk == 0x6B || vk == 0x6D || vk == 0x6F) ch = 0; else if (vk == 0x0D) ch = 10; }
    p.vtCp = ch; p.dn = (mods & CTRL) && (mods & LALT) ? 0 : ch; p.up = mods & LALT ? 0 : p.dn;
    return p;
}
std::string utf8(uint32_t u) {
    std::string r;
    if (u < 0x80) r += (char)u; else if (u < 0x800) { r += (char)(0xC0 | u >> 6); r += (char)(0x80 | (u & 63)); }
    else if (u < 0x10000) { r += (char)(0xE0 | u >> 12); r += (char)(0x80 | (u >> 6 & 63)); r += (char)(0x80 | (u & 63)); }
    else { r += (char)(0xF0 | u >> 18); r += (char)(0x80 | (u >> 12 & 63)); r += (char)(0x80 | (u >> 6 & 63)); r += (char)(0x80 | (u & 63)); }
    return r;
}
uint32_t genCp(pbt::Ctx &c) {
    switch (c.weighted({10, 2, 4, 3, 3, 2})) {
    case 0: return 32 + (uint32_t)c.choose(95);
    case 1: { static const uint8_t k[] = {13, 9, 8, 10, 1, 2, 4, 26, 28, 29, 30, 31, 5, 23}; return k[c.choose(14)]; }
    case 2: return 0xA0 + (uint32_t)c.choose(0x760);
    case 3: { static const uint16_t k[] = {0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xffff, 0xfffd, 0x20ac, 0x80, 0xb2, 0xfc, 0xdf, 0xfeff, 0xfffe}; return k[c.choose(15)]; }
    case 4: { uint32_t u = 0x800 + (uint32_t)c.choose(0xF800); return u >= 0xD800 && u < 0xE000 ? u - 0x1000 : u; }
    default: { uint32_t r = (uint32_t)c.choose(4); return r == 0 ? 0x10000 : r == 1 ? 0x10ffff : 0x10000 + (uint32_t)c.choose(0x100000); }
    }
}
// ---- key sequences of terminals, with the key each stands for
struct Key { std::string b; int vk, ch, mods; };
std::vector<Key> makeKeys() {
    std::vector<Key> v; auto modOf = [](int n) { --n; return (n & 1 ? SHIFT : 0) | (n & 2 ? LALT : 0) | (n & 4 ? CTRL : 0); };
    auto both = [&](const std::string &b, int vk, int ch, int mods, bool alt = true) { v.push_back({"\x1b" + b, vk, ch, mods}); if (alt) v.push_back({"\x1b\x1b" + b, vk, ch, mods | LALT}); };
    struct L { char f; int vk; } arrows[] = {{'A', 0x26}, {'B', 0x28}, {'C', 0x27}, {'D', 0x25}}, he[] = {{'H', 0x24}, {'F', 0x23}}, clr[] = {{'E', 0x0C}, {'G', 0x0C}}, fn[] = {{'P', 0x70}, {'Q', 0x71}, {'R', 0x72}, {'S', 0x73}};
    auto S = [](char ch) { return std::string(1, ch); };
    auto csiMods = [&](char f, int vk, int ch, bool bareMod) { for (int m = 2; m <= 8; ++m) { if (f == 'R') { v.push_back({"\x1b[1;" + std::to_string(m) + "R", -1, 0, 0}); continue; } both("[1;" + std::to_string(m) + f, vk, ch, modOf(m)); if (bareMod) both("[" + std::to_string(m) + f, vk, ch, modOf(m)); } };
    for (auto &a : arrows) { both("[" + S(a.f), a.vk, 0, 0); both("O" + S(a.f), a.vk, 0, 0); csiMods(a.f, a.vk, 0, true); both("[" + S(a.f + 32), a.vk, 0, SHIFT); both("O" + S(a.f + 32), a.vk, 0, CTRL); }
    for (auto &a : he) { both("[" + S(a.f), a.vk, 0, 0); both("O" + S(a.f), a.vk, 0, 0); csiMods(a.f, a.vk, 0, true); }
    for (auto &a : clr) { both("[" + S(a.f), a.vk, 0, 0); csiMods(a.f, a.vk, 0, false); } both("OG", 0x0C, 0, 0);
    for (auto &a : fn) { both("O" + S(a.f), a.vk, 0, 0, false); csiMods(a.f, a.vk, 0, false); for (int m = 2; m <= 8; ++m) { both("O" + std::to_string(m) + a.f, a.vk, 0, modOf(m), false); both("O1;" + std::to_string(m) + a.f, a.vk, 0, modOf(m), false); } }
    struct P { char f; int vk; int ch; } pad[] = {{'M', 0x0D, 13}, {'j', 0x6A, '*'}, {'k', 0x6B, '+'}, {'m', 0x6D, '-'}, {'n', 0x2E, 0}, {'o', 0x6F, '/'}, {'p', 0x2D, 0}, {'q', 0x23, 0}, {'r', 0x28, 0}, {'s', 0x22, 0}, {'t', 0x25, 0}, {'u', 0x0C, 0}, {'v', 0x27, 0}, {'w', 0x24, 0}, {'x', 0x26, 0}, {'y', 0x21, 0}};
    for (auto &a : pad) { both("O" + S(a.f), a.vk, a.ch, 0); for (int m = 2; m <= 8; ++m) both("O" + std::to_string(m) + a.f, a.vk, a.ch, modOf(m)); if (a.f != 'M') both("[" + S(a.f), a.vk, a.ch, 0); csiMods(a.f, a.vk, a.ch, false); }
    both("[Z", 9, 9, SHIFT, false);
    struct N { int n, vk, mods; } nums[] = {{1, 0x24, 0}, {2, 0x2D, 0}, {3, 0x2E, 0}, {4, 0x23, 0}, {5, 0x21, 0}, {6, 0x22, 0}, {7, 0x24, 0}, {8, 0x23, 0}, {11, 0x70, 0}, {12, 0x71, 0}, {13, 0x72, 0}, {14, 0x73, 0}, {15, 0x74, 0}, {17, 0x75, 0}, {18, 0x76, 0}, {19, 0x77, 0}, {20, 0x78, 0}, {21, 0x79, 0}, {23, 0x7A, 0}, {24, 0x7B, 0},
        {25, 0x72, SHIFT}, {26, 0x73, SHIFT}, {28, 0x74, SHIFT}, {29, 0x75, SHIFT}, {31, 0x76, SHIFT}, {32, 0x77, SHIFT}, {33, 0x78, SHIFT}, {34, 0x79, SHIFT}};
    for (auto &n : nums) {
        std::string id = "[" + std::to_string(n.n); struct { char f; int m; } suf[] = {{'~', 0}, {'$', SHIFT}, {'^', CTRL}, {'@', SHIFT | CTRL}};
        for (auto &x : suf) both(id + x.f, n.vk, 0, n.mods | x.m);
        for (int m = 2; m <= 8; ++m) for (auto &x : suf) both(id + ";" + std::to_string(m) + x.f, n.vk, 0, n.mods | x.m | modOf(m));
    }
    for (int i = 0; i < 5; ++i) both("[[" + S((char)('A' + i)), 0x70 + i, 0, 0);
    v.push_back({"\x7f", 8, 8, 0}); v.push_back({"\x1b\x7f", 8, 8, LALT});
    v.erase(std::remove_if(v.begin(), v.end(), [](const Key &k) { return k.vk < 0; }), v.end());   // ESC[1;nR is a cursor position report
    return v;
}
const std::vector<Key> &keys() { static const std::vector<Key> k = makeKeys(); return k; }
// Write bytes in pieces; `gap` bounds the pause between two pieces.
void feed(pbt::Ctx &c, Session &s, const std::string &b, int mode, int gap) {
    size_t i = 0;
    while (i < b.size()) {
        size_t n = mode == 0 ? b.size() : mode == 1 ? 1 : (size_t)c.skewed(1, 12);
        n = std::min(n, b.size() - i); s.in.write(b.substr(i, n)); i += n;
        if (i < b.size() || mode) { int ms = gap ? c.skewed(0, gap) : 0; if (ms) s.run(ms); }
    }
}
void startInput(Session &s) { s.setGrow(); s.open(); s.spawn(); s.settle(); s.con->log.clear(); }
Opts inOpts(pbt::Ctx &c) { Opts o; o.paper = true; o.flags = c.chance(15) ? F_PLAIN : c.chance(15) ? F_CONERR : 0; o.mouseMode = (int)c.choose(3); return o; }
Config inConfig(pbt::Ctx &c) { Config f = genConfig(c); f.germanLayout = c.chance(30); if (c.chance(25)) f.startTick = 0xFFFFFFFFu - (uint32_t)c.choose(4000); return f; }
void finish(pbt::Ctx &c, Session &s) { s.checkClean(); if (!s.term.errors.empty()) c.fail("the output stream misbehaves: %s", s.term.errors[0].c_str()); }
// ---------------------------------------------------------------- C10
void c10(pbt::Ctx &c) {
    Config cfg = inConfig(c); World &w = reset(cfg); if (c.chance(30)) w.pol = genPolicy(c, true);
    Session s(c, w, inOpts(c)); startInput(s);
    uint32_t mode = 0x1F7 & ~(uint32_t)c.choose(0x200) ; s.con->inMode = mode; bool processed = mode & 1; s.run(60);
    std::string b; bool bad = false, alts = false, big = false; int n = 0;
    do {
        pbt::Ctx::Span sp(c); ++n;
        switch (c.weighted({12, 2, 3, 1})) {
        case 0: b += utf8(genCp(c)); break;
        case 1: { uint32_t u = genCp(c); if (u == '[' || u == 'O' || u == 27) u = 'x'; b += '\x1b' + utf8(u); alts = true; break; }
        case 2: { bad = true; std::string q;
            switch (c.choose(6)) {
            case 0: q = utf8(genCp(c)); if (q.size() > 1) q.resize(1 + c.choose(q.size() - 1)); else q = "\xC3"; break;
            case 1: q = (char)(0x80 + c.choose(0x40)); break;
            case 2: q = (char)(0xF8 + c.choose(8)); break;
            case 3: { static const char *k[] = {"\xC0\x80", "\xC1\xBF", "\xE0\x80\x80", "\xE0\x9F\xBF", "\xF0\x80\x80\x80", "\xF0\x8F\xBF\xBF", "\xED\xA0\x80", "\xED\xBF\xBF", "\xF4\x90\x80\x80", "\xF7\xBF\xBF\xBF"}; q = k[c.choose(10)]; break; }
            case 4: q = (char)(0xC2 + c.choose(0x32)); break;
            default: { int m = 1 + (int)c.choose(4); for (int i = 0; i < m; ++i) q += (char)(0x80 + c.choose(0x80)); break; }
            }
            b += q; break; }
        default: { int m = c.skewed(1, 60); uint32_t u = genCp(c); big = true; for (int i = 0; i < m * 20; ++i) b += utf8(u < 0xA0 ? u : (u + i) % 0xD000 + 0xA0); break; }
        }
        if (!b.empty() && b.back() == 3) b += 'x';
    } while (c.more(20) && n < 400);
    std::string t; for (size_t i = 0; i < b.size(); ++i) if (b[i] != 3) t += b[i]; b = t;
    // an independent reading of the bytes
    Evs want; size_t chars = 0;
    auto dec = [&](size_t i, uint32_t &cp) -> size_t {
        unsigned char x = b[i]; int k = x < 0x80 ? 1 : x >= 0xC2 && x < 0xE0 ? 2 : x >= 0xE0 && x < 0xF0 ? 3 : x >= 0xF0 && x < 0xF5 ? 4 : 0;
        if (!k || i + k > b.size()) return 0;
        cp = k == 1 ? x : x & (0xFF >> (k + 1)); for (int j = 1; j < k; ++j) { if ((b[i + j] & 0xC0) != 0x80) return 0; cp = cp << 6 | (b[i + j] & 63); }
        if ((k == 3 && (cp < 0x800 || (cp >= 0xD800 && cp < 0xE000))) || (k == 4 && (cp < 0x10000 || cp > 0x10ffff))) return 0;
        return k;
    };
    for (size_t i = 0; i < b.size();) {
        uint32_t cp; bool alt = b[i] == 27; size_t k = dec(i + alt, cp);
        if (!k) { i += 1; if (alt) c.fail("generator"); continue; }
        press(want, charPress(cp, alt, cfg.germanLayout), false); i += alt + k; ++chars;
    }
    c.note("%s, %s layout, input mode %x, %d bytes: %s", osName(cfg.os), cfg.germanLayout ? "AltGr" : "US", mode, (int)b.size(), esc(b.substr(0, 300)).c_str());
    int wm = (int)c.choose(3); feed(c, s, b, big && wm == 1 ? 0 : wm, big ? 5 : 60);
    int guard = 0; while (guard++ < 20000 && taken(s).size() < want.size() && s.in.unsent()) s.run(5);
    s.run(300 + 10 * w.pol.maxDelay); s.run(1200);
    compare(c, want, taken(s), "text input"); finish(c, s);
    if (bad) c.label("malformed bytes"); if (alts) c.label("Alt characters"); if (big) c.label("long input"); if (processed) c.label("processed input");
    if (chars) c.nontrivial();
}
pbt::Registrar r10({"C10", "random UTF-8 (all planes, control characters, Alt prefixes, malformed fragments, long pastes) written in pieces under both keyboard layouts and all input modes; the exact key events of an independent decoder are required. Non-trivial: at least one character.", c10, 5, 8000, 120000, 10, {"malformed bytes", "Alt characters", "long input", "processed input"}});
// ---------------------------------------------------------------- C12
void c12(pbt::Ctx &c) {
    Config cfg = inConfig(c); World &w = reset(cfg); if (c.chance(30)) w.pol = genPolicy(c, true);
    Session s(c, w, inOpts(c)); startInput(s);
    uint32_t mode = 0x1F7 & ~(uint32_t)c.choose(0x200); s.con->inMode = mode; s.run(60);
    std::string b; Evs want; int n = 0, nk = 0;
    c.note("%s, input mode %x", osName(cfg.os), mode);
    do {
        pbt::Ctx::Span sp(c);
        if (c.chance(75)) { const Key &k = keys()[c.choose(keys().size())]; b += k.b; ++nk; c.note("key %s", esc(k.b).c_str()); press(want, keyPress(k.vk, k.ch, k.mods), false); }
        else { uint32_t u = genCp(c); b += utf8(u); c.note("U+%04X", u); press(want, charPress(u, false, cfg.germanLayout), false); }
    } while (++n < 100 && c.more(15));
    feed(c, s, b, (int)c.choose(3), 60);
    s.run(200 + 10 * w.pol.maxDelay); compare(c, want, taken(s), "before the timeout"); s.run(1200); compare(c, want, taken(s), "key input"); finish(c, s);
    if (nk) c.nontrivial();
}
pbt::Registrar r12({"C12", "random sequences drawn from every terminal key encoding (1,300 of them) mixed with text, written in pieces; the exact console key events of an independent table are required. Non-trivial: at least one key sequence.", c12, 5, 8000, 120000, 10, {}});
// ---------------------------------------------------------------- C13
struct MouseModel {
    int state = 0; bool have = false; int btn = 0; long px = 0, py = 0; uint64_t when = 0;
    static int flagOf(int b) { return b == 0 ? 1 : b == 1 ? 4 : 2; }
};
void c13(pbt::Ctx &c) {
    Config cfg = inConfig(c); static const uint32_t dc[] = {500, 500, 0, 200, 5000}; cfg.dblClick = dc[c.choose(5)];
    World &w = reset(cfg); Opts o = inOpts(c); o.cols = c.range(20, 120); o.rows = c.range(2, 50);
    Session s(c, w, o); startInput(s);
    c.note("%s, %dx%d, mouse mode %d, double click time %u", osName(cfg.os), o.cols, o.rows, o.mouseMode, cfg.dblClick);
    auto setMode = [&] { static const uint32_t m[] = {0x10, 0x10, 0x90, 0x91, 0x50, 0xD0, 0, 0x80, 0x290}; s.con->inMode = m[c.choose(9)]; c.note("input mode %x", s.con->inMode); s.run(60); };
    setMode(); s.con->log.clear();
    MouseModel m; Evs want; int n = 0, rep = 0, dbl = 0; bool clampd = false, moved = false; App app(s);
    long lx = 1, ly = 1; int lb = 0;
    do {
        pbt::Ctx::Span sp(c);
        switch (c.weighted({2, 14, 2, 2, 2})) {
        case 0: setMode(); break;
        case 2: { int k = c.skewed(1, 80); c.note("%d lines", k); auto b = s.con->active; app.add([=] { for (int i = 0; i < k; ++i) b->write(u"line\r\n"); }); app.flush(); s.settle(); moved = true; break; }
        case 3: if (c.chance(50)) { auto b = s.con->active; int t = c.range(0, b->h - b->win.h()); c.note("window to row %d", t); app.add([=] { int d = t - b->win.t; b->win.t += d; b->win.b += d; b->cy = t; }); app.flush(); s.settle(); moved = true; } else { int ms = c.skewed(0, 1500); c.note("%d ms", ms); s.run(ms); } break;
        case 4: { uint32_t u = genCp(c); if (s.con->inMode & 0x200) u = 'a' + u % 20; s.in.write(utf8(u)); c.note("U+%04X", u); press(want, charPress(u, false, cfg.germanLayout), s.con->inMode & 0x200); s.run(2); break; }
        default: {
            int enc = (int)c.choose(3); auto win = s.con->active->win;
            // what happens: 0 press, 1 release, 2 move, 3 wheel
            int act = c.weighted({5, 5, 3, 2}), b = c.chance(60) ? lb : (int)c.choose(3), mods = c.chance(25) ? (int)c.choose(8) : 0;
            long x, y;
            switch (c.weighted({6, 4, 2, 1})) {
            case 0: x = lx; y = ly; break;
            case 1: x = 1 + (long)c.choose(win.w()); y = 1 + (long)c.choose(win.h()); break;
            case 2: x = c.chance(50) ? win.w() + c.range(-1, 3) : 1; y = c.chance(50) ? win.h() + c.range(-1, 3) : c.range(0, 1); break;
            default: { static const long big[] = {0, -1, -5, 32767, 32768, 32769, 65536, 65540, 70000, 99999, 131073, 999999, 9999999, -32768, -32769, -65535, -99999}; x = c.chance(70) ? big[c.choose(17)] : 1; y = c.chance(70) ? big[c.choose(17)] : 1; if (x < -999999) x = 1; break; }
            }
            if (enc == 2) { x = std::max(1L, std::min(x, 223L)); y = std::max(1L, std::min(y, 223L)); }
            if (act == 1 && enc && !c.chance(50)) { }
            if (act == 1) { if (enc == 0 && c.chance(90)) { for (int q = 0; q < 3; ++q) if (m.state & MouseModel::flagOf(q)) b = q; } }
            int code; bool rel = false;
            if (act == 3) code = 64 + (int)c.choose(2);
            else if (act == 2) { b = 3; for (int q = 0; q < 3; ++q) if (m.state & MouseModel::flagOf(q)) { b = q; break; } code = 32 + b; }
            else if (act == 1) { if (enc == 0) { code = b; rel = true; } else code = 3; }
            else code = b;
            code += mods * 4;
            // a press near the double click limit, or at another position that is clamped to the same cell, could be judged either way
            bool pressing = act == 0 && !(m.state & MouseModel::flagOf(b));
            if (pressing && m.have && m.btn == b) {
                if ((m.px != x || m.py != y) && (x > win.w() || y > win.h() || x < 1 || y < 1 || m.px > win.w() || m.py > win.h())) { x = 1; y = 1; if (m.px == 1 && m.py == 1) x = m.px, y = m.py; }
                uint64_t d = w.now - m.when; if (d + 12 >= cfg.dblClick && d <= cfg.dblClick + 2u) s.run(16);
            }
            std::string r; char t[80];
            if (enc == 0) { snprintf(t, sizeof t, "\x1b[<%d;%ld;%ld%c", code, x, y, rel ? 'm' : 'M'); r = t; }
            else if (enc == 1) { snprintf(t, sizeof t, "\x1b[%d;%ld;%ldM", code + 32, x, y); r = t; }
            else { r = "\x1b[M"; r += (char)(code + 32); r += (char)(x + 32); r += (char)(y + 32); }
            c.note("report %s", esc(r).c_str()); ++rep; lx = x; ly = y; lb = b < 3 ? b : 0;
            if (c.chance(30)) feed(c, s, r, 2, 1); else s.in.write(r);
            uint64_t at = w.now; InEv e; e.type = InEv::Mouse; e.x = win.l + (int)std::max(0L, std::min(x - 1, (long)win.w() - 1)); e.y = win.t + (int)std::max(0L, std::min(y - 1, (long)win.h() - 1));
            if (x < 1 || x > win.w() || y < 1 || y > win.h()) clampd = true;
            e.ctrl = (mods & 1 ? SHIFT : 0) | (mods & 2 ? LALT : 0) | (mods & 4 ? CTRL : 0);
            if (act == 3) { e.flags = 4; e.buttons = (code & 1) ? 0xff880000 : 0x00780000; }
            else {
                if (act == 2) e.flags = 1;
                if (act == 1 || (act == 2 && b == 3)) {
                    if (!rel) m.state = 0;
                    else { m.state &= ~MouseModel::flagOf(b); if (m.have && m.btn != b) m.have = false; }
                } else if (!(m.state & MouseModel::flagOf(b))) {
                    m.state |= MouseModel::flagOf(b);
                    if (m.have && m.btn == b && m.px == x && m.py == y && at - m.when < cfg.dblClick) { e.flags |= 2; m.have = false; ++dbl; }
                    else { m.have = true; m.btn = b; m.px = x; m.py = y; m.when = at; }
                }
            }
            e.buttons |= m.state;
            if ((s.con->inMode & 0x10) && !(s.con->inMode & 0x40)) want.push_back(e);
            s.run(c.chance(50) ? 1 : c.skewed(1, 300));
        } }
        compare(c, want, taken(s), "mouse input");
    } while (++n < 120 && c.more(25));
    s.run(1200); compare(c, want, taken(s), "at the end"); finish(c, s);
    if (dbl) c.label("double click"); if (clampd) c.label("outside the window"); if (moved) c.label("window moved");
    if (rep && !want.empty()) c.nontrivial();
}
pbt::Registrar r13({"C13", "random mouse histories (press, release, drag, wheel, modifiers, positions of any size) in the three encodings with window movement, mode changes, pauses and text; the exact console mouse events of a reference model are required. Non-trivial: at least one event.", c13, 5, 8000, 120000, 10, {"double click", "outside the window", "window moved"}});
// ---------------------------------------------------------------- C14
// The keys that bytes without any recognisable sequence stand for.
void plainKeys(Evs &v, const std::string &p, bool german) {
    for (size_t i = 0; i < p.size();) {
        if (p[i] == 27 && i + 1 < p.size() && p[i + 1] != 27 && !(p[i + 1] & 0x80)) { press(v, charPress((unsigned char)p[i + 1], true, german), false); i += 2; continue; }
        if (!(p[i] & 0x80)) press(v, charPress((unsigned char)p[i], false, german), false);
        ++i;
    }
}
void c14(pbt::Ctx &c) {
    Config cfg = inConfig(c); World &w = reset(cfg); Opts o = inOpts(c); o.flags &= ~F_CONERR; bool plain = o.flags & F_PLAIN;
    Session s(c, w, o); startInput(s); s.con->inMode = c.chance(50) ? 0x1F7 : 0x1; s.run(60);
    c.note("%s%s", osName(cfg.os), plain ? ", plain" : "");
    bool open = false; int dsr = s.term.dsr; int eps = 0, timeouts = 0, replies = 0, late = 0; bool plainOpen = false;
    static const char *pre[] = {"\x1b", "\x1b\x1b", "\x1b[", "\x1bO", "\x1b[1", "\x1b[1;", "\x1b[1;5", "\x1b[12;3", "\x1b\x1b[", "\x1b\x1b[2", "\x1bO2", "\x1bO1;", "\x1b[[", "\x1b[<0;3", "\x1b[<", "\x1b\x1bO", "\x1b[3", "\x1b[35;4", "\xC3", "\xE3\x81", "\xF0\x9F\x98", "\xE2", "\x1b[M", "\x1b[M ", "\x1b[M !"};
    auto dsrCheck = [&](const char *when) { s.drain(); if (s.term.dsr != dsr) c.fail("%s: %d cursor position queries were sent, expected %d", when, s.term.dsr, dsr); };
    auto expectDsr = [&] { if (plain) { plainOpen = true; return; } if (!open) { open = true; ++dsr; } };
    auto reply = [&](int kind) { char t[40]; int r = c.chance(40) ? 1 : c.range(1, 300), q = c.chance(40) ? c.range(1, 9) : c.range(1, 400); (void)kind; snprintf(t, sizeof t, "\x1b[%d;%dR", r, q); return std::string(t); };
    auto tail = [&](Evs &want, std::string &b) { int k = (int)c.choose(4); for (int i = 0; i < k; ++i) { if (c.chance(40)) { const Key &q = keys()[c.choose(keys().size())]; b += q.b; press(want, keyPress(q.vk, q.ch, q.mods), false); } else { uint32_t u = genCp(c); b += utf8(u); press(want, charPress(u, false, cfg.germanLayout), false); } } };
    do {
        pbt::Ctx::Span sp(c); s.con->log.clear(); Evs want; std::string head;
        int kind = c.weighted({5, 5, 2, 2});
        if (kind == 2) {            // complete input only
            std::string b; tail(want, b); c.note("complete input %s", esc(b).c_str()); if (!b.empty()) s.in.write(b); s.run(c.skewed(5, 100)); compare(c, want, taken(s), "complete input"); dsrCheck("complete input"); continue;
        }
        if (kind == 3) {            // a reply to a query that has been given up, or none at all
            if (!open) continue; std::string b = reply(0); c.note("late reply %s", esc(b).c_str()); ++late;
            if (c.chance(40)) tail(want, b); s.in.write(b); open = false; s.run(5); compare(c, want, taken(s), "late reply"); s.run(30); dsrCheck("late reply"); continue;
        }
        int np = kind == 1 ? 22 : 25; std::string p = pre[c.choose(np)];
        if (c.chance(30)) { std::string b; tail(want, b); head = b; }
        c.note("input %s then incomplete %s", esc(head).c_str(), esc(p).c_str());
        size_t ready = want.size();
        bool split = c.chance(40), firstPending = true;
        if (split) { if (!head.empty()) s.in.write(head); for (size_t i = 0; i < p.size(); ++i) { s.in.write(p.substr(i, 1)); expectDsr(); s.run(2 + c.skewed(0, 400)); if (i + 1 < p.size()) dsrCheck("while the sequence arrives"); } (void)firstPending; }
        else { s.in.write(head + p); expectDsr(); }
        uint64_t t0 = w.now; if (split) { /* the last byte was followed by a pause */ }
        s.run(3);
        { Evs got = taken(s); if (got.size() != ready) { compare(c, want, got, "an incomplete sequence is pending"); } }
        dsrCheck("an incomplete sequence is pending");
        if (plain && plainOpen && s.term.dsr) c.fail("a cursor position query was sent in plain mode");
        if (kind == 0) {            // nothing more comes
            uint64_t lastWrite = t0; if (split) lastWrite = 0;   // unknown within the final pause
            if (!split) while (w.now < lastWrite + 1000) { s.run(1); if (taken(s).size() != ready) { c.note("after %d ms", (int)(w.now - lastWrite)); compare(c, want, taken(s), "before the timeout"); } }
            else s.run(3);
            if (p[0] == 27 && p.substr(0, 3) == "\x1b[M") { press(want, keyPress(0x0D, 13, 0), false); plainKeys(want, p.substr(3), cfg.germanLayout); }
            else plainKeys(want, p, cfg.germanLayout);
            s.run(split ? 1040 : 40); compare(c, want, taken(s), "after the timeout"); s.run(c.skewed(0, 300)); compare(c, want, taken(s), "well after the timeout"); dsrCheck("after the timeout"); ++timeouts;
        } else {
            if (plain && c.chance(50)) { s.run(1100); plainKeys(want, p, cfg.germanLayout); compare(c, want, taken(s), "after the timeout"); continue; }
            int d = c.skewed(0, 500); s.run(d); std::string r = reply(1); bool glued = c.chance(40); plainKeys(want, p, cfg.germanLayout); std::string b; if (glued) tail(want, b);
            c.note("reply %s after %d ms, then %s", esc(r).c_str(), d, esc(b).c_str());
            // A terminal that was never asked does not answer: in plain mode nothing is sent to it.
            if (plain) { s.in.write("x"); s.run(1100); s.con->log.clear(); continue; }
            bool rs = c.chance(30); open = false;
            if (rs) { feed(c, s, r, 1, 20); s.in.write(b); } else s.in.write(r + b);
            s.run(5); compare(c, want, taken(s), "after the reply"); s.run(50); dsrCheck("after the reply"); ++replies;
            if (c.chance(30)) { s.run(1200); compare(c, want, taken(s), "well after the reply"); }
        }
    } while (++eps < 30 && c.more(8));
    s.run(1100); dsrCheck("at the end"); if (plain && s.term.dsr) c.fail("a cursor position query was sent in plain mode"); finish(c, s);
    if (timeouts) c.label("resolved by the timeout"); if (replies) c.label("resolved by a reply"); if (late) c.label("late reply");
    if (timeouts || replies) c.nontrivial();
}
pbt::Registrar r14({"C14", "random episodes of incomplete sequences followed by silence, by the reply to the query (early, late, split, glued to other input) or by further input, with the clock wrapping around; delivery times, key events and the number of queries are checked. Non-trivial: an incomplete sequence was resolved.", c14, 5, 6000, 80000, 10, {"resolved by the timeout", "resolved by a reply", "late reply"}});
// ---------------------------------------------------------------- C15
void c15(pbt::Ctx &c) {
    Config cfg = inConfig(c); World &w = reset(cfg); if (c.chance(30)) w.pol = genPolicy(c, true);
    Session s(c, w, inOpts(c)); startInput(s); s.con->log.clear();
    c.note("%s", osName(cfg.os)); int eps = 0, nctrl = 0, nvt = 0, nkey3 = 0;
    do {
        pbt::Ctx::Span sp(c);
        uint32_t mode = (c.chance(50) ? 1 : 0) | (c.chance(50) ? 0x200 : 0) | ((uint32_t)c.choose(0x80) << 1 & 0xFE) | (c.chance(50) ? 0x100 : 0); bool m200 = mode & 0x200, processed = mode & 1;
        s.con->inMode = mode; s.run(60); s.con->log.clear();
        Evs want; std::string b, shown; int n = 0;
        do {
            switch (c.weighted({4, 6, 4, 2})) {
            case 0: b += '\x03'; shown += "^C "; if (processed) { InEv e; e.type = InEv::Ctrl; e.x = 0; want.push_back(e); ++nctrl; } else { press(want, keyPress('C', 3, CTRL), m200); ++nkey3; } break;
            case 1: { const Key &k = keys()[c.choose(keys().size())]; b += k.b; shown += esc(k.b) + " "; press(want, keyPress(k.vk, k.ch, k.mods), m200); if (m200) ++nvt; break; }
            case 2: { uint32_t u = genCp(c); b += utf8(u); shown += esc(utf8(u)) + " "; press(want, charPress(u, false, cfg.germanLayout), m200); break; }
            default: { uint32_t u = genCp(c); if (u == '[' || u == 'O') u = 'y'; b += '\x1b' + utf8(u); shown += "Alt+" + esc(utf8(u)) + " "; press(want, charPress(u, true, cfg.germanLayout), m200); break; }
            }
        } while (++n < 40 && c.more(6));
        c.note("input mode %x: %s", mode, shown.c_str());
        feed(c, s, b, (int)c.choose(3), 30); s.run(100 + 10 * w.pol.maxDelay); compare(c, want, taken(s), m200 ? "terminal-style input" : "input");
    } while (++eps < 20 && c.more(4));
    s.run(1100); finish(c, s);
    if (nctrl) c.label("Ctrl-C event"); if (nkey3) c.label("Ctrl-C key"); if (nvt) c.label("terminal-style input");
    if (nctrl || nvt || nkey3) c.nontrivial();
}
pbt::Registrar r15({"C15", "random input mode histories with Ctrl-C, keys, text and Alt characters typed under each mode; the exact order and form of control events, window messages and key records is required. Non-trivial: Ctrl-C or terminal-style input occurred.", c15, 5, 6000, 80000, 10, {"Ctrl-C event", "Ctrl-C key", "terminal-style input"}});
// ---------------------------------------------------------------- C11
std::string soup(pbt::Ctx &c) {
    std::string b; int n = 0;
    do {
        pbt::Ctx::Span sp(c);
        switch (c.weighted({5, 4, 3, 3, 2, 1})) {
        case 0: b += keys()[c.choose(keys().size())].b; break;
        case 1: b += utf8(genCp(c)); break;
        case 2: { char t[60]; snprintf(t, sizeof t, c.chance(50) ? "\x1b[<%d;%d;%d%c" : "\x1b[%d;%d;%d%c", (int)c.choose(128) + 0, c.range(-3, 300), c.range(-3, 100), c.chance(70) ? 'M' : 'm'); b += t; break; }
        case 3: { std::string k = keys()[c.choose(keys().size())].b; k.resize(1 + c.choose(k.size())); b += k; break; }
        case 4: { static const char t[] = "\x1b\x1b\x1b[[O;<M0123456789-~AR$^@ \x03\x7f\x80\xC3\xE3\xF0\xFFx"; b += t[c.choose(sizeof t - 1)]; break; }
        default: b += "\x1b[M"; for (int i = 0; i < 3; ++i) b += (char)(32 + c.choose(200)); break;
        }
    } while (++n < 120 && c.more(20));
    // ESC before a report that is also Alt with F3 is the one case decided by whether a reply is expected
    for (size_t p = 0; (p = b.find("\x1b\x1b[1;", p)) != std::string::npos; ++p) b[p] = 'z';
    return b;
}
void c11(pbt::Ctx &c) {
    Config cfg = inConfig(c); cfg.dblClick = c.chance(50) ? 0 : 0x7fffffff; Opts o = inOpts(c); uint32_t mode = (uint32_t)c.choose(0x400);
    std::string b = soup(c); c.note("%s, input mode %x: %s", osName(cfg.os), mode, esc(b).c_str());
    Evs first; int runs = 2 + (int)c.choose(2);
    for (int r = 0; r < runs; ++r) {
        World &w = reset(cfg); if (r && c.chance(40)) w.pol = genPolicy(c, true);
        Session s(c, w, o); startInput(s); s.con->inMode = mode; s.run(60); s.con->log.clear();
        static const int gaps[] = {0, 2, 50, 900}; int how = r ? 1 + (int)c.choose(2) : 0, gap = r ? gaps[c.choose(4)] : 0;
        if (r) c.note("split %d, pauses up to %d ms", how, gap);
        feed(c, s, b, how, gap); s.run(100 + 10 * w.pol.maxDelay); s.run(1300);
        Evs v = taken(s);
        for (auto &e : v) e.time = 0;
        if (!r) first = v; else compare(c, first, v, "split input compared with input written at once");
        finish(c, s); s.free(); w.runFor(50);
    }
    if (!first.empty()) c.nontrivial();
    bool inc = false; for (auto &e : first) if (e.type == InEv::Mouse) inc = true; if (inc) c.label("mouse events");
}
pbt::Registrar r11({"C11", "random token and byte soup (keys, truncated keys, mouse reports, UTF-8, malformed bytes, stray escape bytes) written once whole and then in one or two random divisions under other I/O schedules; the event logs must be equal. Non-trivial: any event.", c11, 5, 6000, 80000, 10, {"mouse events"}});
} // namespace
