// C04 plain output, C08 mouse mode, C09 title.
#include "model/draw.h"
#include <algorithm>
using namespace session;
static std::string mark(int n) { return "<M" + std::to_string(n) + "-" + std::to_string((n * 7919u + 77) % 9973) + ">"; }
static U16 genTitle(pbt::Ctx &c) {
    U16 t; int n = 0;
    switch (c.weighted({2, 6, 3, 2, 1})) { case 0: n = 0; break; case 1: n = c.skewed(1, 40); break; case 2: n = c.range(20, 140); break; case 3: n = c.skewed(100, 2000); break; default: n = c.skewed(1000, 20000); break; }
    int kind = (int)c.choose(3); uint64_t r = c.choose(1 << 20);
    for (int i = 0; (int)t.size() < n; ++i) {
        r = r * 6364136223846793005ull + 1442695040888963407ull; int k = (r >> 33) % 10; int v = (int)((r >> 40) & 0xffff);
        if (kind == 0 || k < 5) t += (char16_t)(' ' + v % 95);
        else if (k < 7) t += (char16_t)(0xA1 + v % 0x500);
        else if (k < 9) t += (char16_t)(0x3041 + v % 0x5000);
        else if (kind == 2 && n > 1) { t += (char16_t)(0xD800 + v % 0x400); t += (char16_t)(0xDC00 + (v >> 4) % 0x400); }
        else t += u'#';
    }
    return t;
}
static std::string esc60(const std::string &s) { return esc(s.size() > 80 ? s.substr(0, 80) + "..." : s); }
// ---------------------------------------------------------------- C04
static void c04(pbt::Ctx &c) {
    Config cfg = genConfig(c);
    World &w = reset(cfg);
    Opts o; bool color = c.chance(50); o.flags = F_PLAIN | (color ? F_COLOR : 0) | (c.chance(30) ? F_CONERR : 0); o.mouseMode = (int)c.choose(3);
    o.cols = c.chance(50) ? 80 : c.range(28, 120); o.rows = c.chance(50) ? 25 : c.range(3, 40); o.paper = true;
    Session s(c, w, o); s.setGrow(); s.keepRaw = true; s.open(); s.spawn();
    c.note("%s, %dx%d, flags %d, mouse mode %d", osName(cfg.os), o.cols, o.rows, (int)o.flags, o.mouseMode);
    if (s.buf->w != o.cols || s.buf->win.h() != o.rows) { c.label("size limited by the system"); return; }
    bool two = o.flags & F_CONERR; App app(s); bool race = c.chance(30); app.race(race);
    bool logMode = c.chance(50); draw::Kinds k; k.moves = c.chance(30); k.clears = c.chance(50); k.maxLines = 200; int steps = 0, marks[2] = {0, 0}; bool resized = false; uint32_t modes[] = {0x1F7, 0x10, 0x90, 0x1B7, 0xD0, 0};
    size_t seenTo[2] = {0, 0};
    auto scan = [&](const char *when) {
        for (int i = 0; i < (two ? 2 : 1); ++i) {
            const std::string &r = i ? s.rawErr : s.raw; size_t p = seenTo[i];
            for (; p < r.size(); ++p) {
                unsigned char b = r[p];
                if (b == 27) {
                    size_t e = p + 1; bool ok = color && e < r.size() && r[e] == '['; if (ok) { ++e; while (e < r.size() && ((r[e] >= '0' && r[e] <= '9') || r[e] == ';')) ++e; ok = e < r.size() && r[e] == 'm'; }
                    if (!ok) c.fail("%s: the plain %s stream contains the escape sequence %s", when, i ? "error" : "output", esc(r.substr(p, 12)).c_str());
                    c.label("colour sequence"); p = e;
                } else if ((b < 32 && b != 13 && b != 10) || b == 127) c.fail("%s: the plain %s stream contains the control character %02x", when, i ? "error" : "output", b);
            }
            seenTo[i] = p;
        }
    };
    auto plainLines = [&](int i) {
        const std::string &r = i ? s.rawErr : s.raw; std::vector<std::string> v(1); 
        for (size_t p = 0; p < r.size(); ++p) {
            if (r[p] == 27) { while (p < r.size() && r[p] != 'm') ++p; continue; }
            if (r[p] == '\n') { v.emplace_back(); continue; } if (r[p] == '\r') continue;
            v.back() += r[p];
        }
        for (auto &l : v) while (!l.empty() && l.back() == ' ') l.pop_back();
        return v;
    };
    do {
        pbt::Ctx::Span sp(c);
        int n = c.skewed(0, 5), lines = 0;
        for (int i = 0; i < n && lines < 1000; ++i) {
            int t = two ? (int)c.choose(2) : 0; auto b = t ? s.errBuf : s.buf;
            if (logMode) {
                if (c.chance(70)) { int m = c.skewed(1, 150), t0 = marks[t]; marks[t] += m; lines += m; c.note("%d marked lines%s", m, t ? " to the error buffer" : ""); app.add([=] { for (int j = 0; j < m; ++j) { b->write(u16(mark(t0 + j))); b->write(u"\r\n"); } }); }
                else if (c.chance(50)) { auto tx = draw::genText(c, 30, true, true); c.note("text"); app.add([=] { draw::writeText(*b, tx); b->write(u"\r\n"); }); lines += 2; }
                else { uint16_t at = draw::genAttr(c, true); c.note("attr %04x", at); app.add([=] { b->attr = at; }); }
            } else lines += draw::addOp(c, app, b, k);
        }
        if (lines > 300) { app.flush(); s.settle(); }
        if (c.chance(20)) { U16 t = genTitle(c); c.note("title of %d units", (int)t.size()); app.add([&, t] { s.con->title = t; }); }
        if (c.chance(20)) { uint32_t m = modes[c.choose(6)]; c.note("input mode %x", m); app.add([&, m] { s.con->inMode = m; }); }
        if (c.chance(20)) { static const char *in[] = {"\x1b", "\x1b[", "\x1b[1", "\x1b[M", "abc", "\x1bO", "\x1b[<0;3"}; int i = (int)c.choose(7); c.note("input %s", esc(in[i]).c_str()); s.in.write(in[i]); }
        if (c.chance(15)) { int cols = c.range(40, 120), rows = c.range(3, 50); app.flush(); c.note("resize to %dx%d", cols, rows); s.setSize(cols, rows); resized = true; }
        if (c.chance(50)) s.run(c.skewed(0, 80));
        if (c.chance(30)) { app.flush(); s.settle(); }
        scan("after a step");
    } while (++steps < 25 && c.more(7));
    app.flush(); s.settle(); s.run(1500); s.checkClean(); scan("at the end");
    bool end = c.chance(40);
    if (end) { c.note("exit"); w.killProcess(s.child, 0, false); for (int i = 0; i < 200 && !s.out.eof(); ++i) s.run(5); scan("after the exit"); }
    for (int i = 0; i < (two ? 2 : 1); ++i) {
        auto v = plainLines(i); Buffer &b = i ? *s.errBuf : *s.buf;
        if (!resized) for (int y = b.win.t; y <= b.win.b; ++y) {
            std::string want = cellsUtf8(&b.at(0, y), b.w, true); if (want.empty()) continue;
            if (std::find(v.begin(), v.end(), want) == v.end()) { c.fail("window row %d of standard %s is on no line of the plain stream:\n  [%s]", y - b.win.t, i ? "error" : "output", esc(want).c_str()); }
        }
        if (logMode) {
            int next = 0;
            for (auto &l : v) for (size_t p = 0; (p = l.find("<M", p)) != std::string::npos; ++p) {
                size_t e = l.find('>', p); if (e == std::string::npos) break; int n = atoi(l.c_str() + p + 2); if (l.substr(p, e - p + 1) != mark(n)) continue;
                if (n > next) c.fail("line %s is missing from the plain stream or comes after %s", mark(next).c_str(), mark(n).c_str());
                if (n == next) ++next;
            }
            if (next < marks[i]) c.fail("line %s is missing from the plain stream (%d lines printed)", mark(next).c_str(), marks[i]);
        }
    }
    if (app.racedInScrape) c.label("drawing raced with a scrape");
    if (resized) c.label("resized"); if (logMode) c.label("marked lines");
    if (s.raw.size() > 20) c.nontrivial();
}
static pbt::Registrar r04({"C04", "random drawing, titles, input modes, pending escape input and resizes under the two plain configurations; the raw streams are scanned for anything but text, CR, LF (and SGR), window rows and marked lines must appear. Non-trivial: more than 20 bytes of output.", c04, 5, 6000, 80000, 10, {"colour sequence", "resized", "marked lines", "drawing raced with a scrape"}});
// ---------------------------------------------------------------- C08
static void c08(pbt::Ctx &c) {
    Config cfg = genConfig(c);
    World &w = reset(cfg);
    if (c.chance(30)) w.pol = genPolicy(c, true);
    Opts o; bool plain = c.chance(20); o.flags = (plain ? F_PLAIN : 0) | (c.chance(20) ? F_CONERR : 0) | (c.chance(20) ? F_COLOR : 0); o.mouseMode = (int)c.choose(3); o.paper = true;
    Session s(c, w, o); s.setGrow(); s.open();
    static const char *mn[] = {"none", "auto", "force"}; c.note("%s, mouse mode %s%s", osName(cfg.os), mn[o.mouseMode], plain ? ", plain" : "");
    if (bool(s.con->inMode & 0x40) != (o.mouseMode == MOUSE_AUTO)) c.fail("QuickEdit is initially %s although the mouse mode is %s", s.con->inMode & 0x40 ? "on" : "off", mn[o.mouseMode]);
    s.spawn(SPAWN_AUTO_SHUTDOWN | (c.chance(30) ? SPAWN_EXIT_AFTER : 0));
    int steps = 0, flips = 0; uint64_t since = w.now; size_t checked = 0; bool sawOn = false; uint64_t slack = 30 + 6 * (uint64_t)w.pol.maxDelay + 30;
    auto want = [&] { uint32_t m = s.con->inMode; return !plain && (o.mouseMode == MOUSE_FORCE || (o.mouseMode == MOUSE_AUTO && (m & 0x10) && !(m & 0x40) && (m & 0x80))); };
    auto check = [&](const char *when) {
        auto &l = s.term.mouseLog;
        for (; checked < l.size(); ++checked) if (l[checked] != (checked % 2 ? "off" : "on")) c.fail("%s: mouse reporting is switched %s twice in a row (or off first)", when, l[checked].c_str());
        if (!s.term.errors.empty()) c.fail("%s: the output stream misbehaves: %s", when, s.term.errors[0].c_str());
        if (plain && !l.empty()) c.fail("%s: mouse sequences in plain mode", when);
        if (w.now - since < slack || s.term.midSequence()) return;
        auto &t = s.term; bool x = want();
        if (t.mouse1000 != x) c.fail("%s: mouse reporting is %s, the input mode is %x since %d ms", when, t.mouse1000 ? "on" : "off", s.con->inMode, (int)(w.now - since));
        if (x && (!t.mouse1002 || !t.mouse1006 || t.mouse1005)) c.fail("%s: mouse reporting is on without drag reports or extended coordinates", when);
        if (!x && (t.mouse1002 || t.mouse1003 || t.mouse1015 || t.mouse1006)) c.fail("%s: mouse reporting is off but some of its modes are still set", when);
        if (x) sawOn = true;
    };
    App app(s); draw::Kinds k; bool late = c.chance(20);   // late: the client stops reading before the shutdown
    do {
        pbt::Ctx::Span sp(c);
        if (c.chance(80)) {
            uint32_t m; switch (c.weighted({4, 3, 2})) { case 0: m = 0x90 | (uint32_t)c.choose(16) | (c.choose(3) == 0 ? 0x40 : 0); break; case 1: { m = s.con->inMode; static const uint32_t bit[] = {0x10, 0x40, 0x80, 0x200, 1, 8}; m ^= bit[c.choose(6)]; break; } default: m = (uint32_t)c.choose(0x400); break; }
            c.note("input mode %x", m); bool before = want(); s.con->inMode = m; if (want() != before) { since = w.now; ++flips; }
        }
        if (c.chance(30)) { draw::addOp(c, app, s.buf, k); app.flush(); }
        if (c.chance(15)) { static const char *in[] = {"abc", "\x1b[<0;3;3M\x1b[<0;3;3m", "\x1b[M !!", "\x1b", "\x03"}; s.in.write(in[c.choose(5)]); }
        if (c.chance(10)) { int cols = c.range(30, 100), rows = c.range(4, 40); c.note("resize"); s.setSize(cols, rows); }
        int ms = c.chance(50) ? c.range(80, 200) : c.skewed(0, 80); c.note("%d ms", ms);
        for (int i = 0; i < ms; ++i) { s.run(1); check("while running"); }
    } while (++steps < 30 && c.more(8));
    if (c.chance(70)) {
        c.note("exit%s", late ? " while the client is not reading" : "");
        if (late) w.runFor(c.skewed(0, 200));
        w.killProcess(s.child, 0, false); if (late) w.runFor(c.skewed(0, 300));
        for (int i = 0; i < 600 && !s.out.eof(); ++i) s.run(5);
        if (!s.out.eof()) c.fail("the output stream did not end within 3 s after the program's exit");
        auto &t = s.term; auto &l = t.mouseLog;
        for (; checked < l.size(); ++checked) if (l[checked] != (checked % 2 ? "off" : "on")) c.fail("at the end: mouse reporting is switched %s twice in a row", l[checked].c_str());
        if (t.mouse1000 || t.mouse1002 || t.mouse1003 || t.mouse1006 || t.mouse1015) c.fail("the output stream ended with mouse reporting enabled");
        if (t.midSequence()) c.fail("the output stream ended in the middle of an escape sequence");
        c.label("shutdown"); if (!l.empty()) c.label("switched off before the end");
    }
    s.checkClean();
    if (sawOn) c.label("mouse reporting was on"); if (plain) c.label("plain");
    if (flips || sawOn) c.nontrivial();
}
static pbt::Registrar r08({"C08", "random input mode histories under every mouse mode and output mode with shutdown at random points; the terminal's mouse modes are compared every millisecond once the mode has been stable for a poll interval. Non-trivial: the wanted state changed or mouse reporting was on.", c08, 5, 6000, 80000, 10, {"shutdown", "switched off before the end", "mouse reporting was on", "plain"}});
// ---------------------------------------------------------------- C09
static std::string titleUtf8(const U16 &t) {
    std::string r;
    for (size_t i = 0; i < t.size(); ++i) { uint32_t u = t[i]; if (u >= 0xD800 && u < 0xDC00 && i + 1 < t.size()) u = 0x10000 + ((u - 0xD800) << 10) + (t[++i] - 0xDC00);
        if (u < 0x80) r += (char)u; else if (u < 0x800) { r += (char)(0xC0 | u >> 6); r += (char)(0x80 | (u & 63)); } else if (u < 0x10000) { r += (char)(0xE0 | u >> 12); r += (char)(0x80 | (u >> 6 & 63)); r += (char)(0x80 | (u & 63)); } else { r += (char)(0xF0 | u >> 18); r += (char)(0x80 | (u >> 12 & 63)); r += (char)(0x80 | (u >> 6 & 63)); r += (char)(0x80 | (u & 63)); } }
    return r;
}
static void c09(pbt::Ctx &c) {
    Config cfg = genConfig(c);
    World &w = reset(cfg);
    if (c.chance(30)) w.pol = genPolicy(c, true);
    Opts o; o.paper = true; o.flags = c.chance(20) ? F_CONERR : 0;
    Session s(c, w, o); s.setGrow(); s.open(); s.spawn(); s.settle(); s.run(50);
    c.note("%s", osName(cfg.os));
    App app(s); bool race = c.chance(30); app.race(race); draw::Kinds k;
    std::vector<std::string> hist{titleUtf8(s.con->title)}; size_t n0 = s.term.titles.size(), checked = n0; int steps = 0, changes = 0; uint64_t slack = 60 + 8 * (uint64_t)w.pol.maxDelay;
    if (n0 > 1) c.fail("%d title sequences were sent before the title ever changed", (int)n0);
    std::string shown = n0 ? s.term.titles.back() : hist[0]; size_t hpos = 0;
    std::vector<U16> pool; bool longOne = false;
    auto absorb = [&](const char *when) {
        for (; checked < s.term.titles.size(); ++checked) {
            const std::string &t = s.term.titles[checked];
            if (t == shown) c.fail("%s: a title sequence was sent although the title has not changed: %s", when, esc60(t).c_str());
            size_t p = hpos; while (p < hist.size() && hist[p] != t) ++p;
            if (p == hist.size()) c.fail("%s: the title sent is not (or no longer) the console title: %d bytes, %s; the console title has %d bytes, %s", when, (int)t.size(), esc60(t).c_str(), (int)hist.back().size(), esc60(hist.back()).c_str());
            hpos = p; shown = t;
        }
        if (!s.term.errors.empty()) c.fail("%s: the output stream misbehaves: %s", when, s.term.errors[0].c_str());
    };
    do {
        pbt::Ctx::Span sp(c);
        int n = c.skewed(1, 4);
        for (int i = 0; i < n; ++i) {
            U16 t; if (!pool.empty() && c.chance(30)) t = pool[c.choose(pool.size())]; else t = genTitle(c); pool.push_back(t); if (t.size() > 300) longOne = true;
            if (c.chance(15) && !pool.empty()) { t = s.con->title; if (!t.empty() && c.chance(60)) { t.back() = t.back() == 'x' ? 'y' : 'x'; } }      // differs at the end only
            bool surr = !t.empty() && t.size() > 1 && (t[t.size() - 2] & 0xFC00) == 0xD800; if (surr) t.pop_back(), t.back() = 'z';
            c.note("title of %d units '%s'", (int)t.size(), u8(t.substr(0, 20)).c_str());
            app.add([&, t] { s.con->title = t; hist.push_back(titleUtf8(t)); ++changes; });
            if (c.chance(50)) app.flush();
            if (c.chance(40)) { int ms = c.skewed(0, 60); for (int q = 0; q < ms; ++q) { s.run(1); absorb("while running"); } }
        }
        app.flush();
        if (c.chance(20)) { draw::addOp(c, app, s.buf, k); app.flush(); }
        if (c.chance(10)) { c.note("resize"); s.setSize(c.range(40, 100), c.range(5, 40)); }
        if (c.chance(70)) { s.run(slack); absorb("after a poll interval"); if (shown != hist.back()) c.fail("the console title has been unchanged for %d ms (%d bytes, %s), the terminal shows %s", (int)slack, (int)hist.back().size(), esc60(hist.back()).c_str(), esc60(shown).c_str()); }
    } while (++steps < 20 && c.more(6));
    if (c.chance(30)) { w.killProcess(s.child, 0, false); for (int i = 0; i < 400 && !s.out.eof(); ++i) s.run(5); absorb("at the end"); if (shown != hist.back()) c.fail("the last title change before the exit was not sent"); c.label("exit"); }
    s.checkClean();
    if (longOne) c.label("long title"); if (app.racedInScrape) c.label("change raced with a poll");
    if (changes) c.nontrivial();
}
static pbt::Registrar r09({"C09", "random sequences of console titles (empty, long, non-BMP, reverting, racing with the poll) on every Windows version; the title sequences must follow the history of titles without repetition and end at the current one. Non-trivial: the title changed.", c09, 5, 4000, 50000, 10, {"exit", "long title", "change raced with a poll"}});
