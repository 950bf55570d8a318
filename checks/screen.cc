// C01 the terminal converges to the console window.
#include "model/draw.h"
#include <algorithm>
using namespace session;
static void compareScreen(Session &s, const char *when) {
    Buffer &b = *s.con->active;
    s.checkClean();
    if (!s.term.errors.empty()) s.c.fail("%s: the output stream misbehaves: %s", when, s.term.errors[0].c_str());
    if (!s.term.wrapped.empty()) s.c.fail("%s: the terminal had to wrap a line: %s", when, s.term.wrapped[0].c_str());
    int rows = std::min(s.term.h, b.win.h());
    for (int r = 0; r < rows; ++r) {
        std::string d = diffRow(b, b.win.t + r, 0, std::min(b.w, s.term.w), s.term, s.term.top + r, false, true, true);
        if (!d.empty()) s.c.fail("%s: window row %d differs: %s", when, r, d.c_str());
    }
    bool inWin = b.cx >= b.win.l && b.cx <= b.win.r && b.cy >= b.win.t && b.cy <= b.win.b;
    bool vis = b.cursorVisible && inWin;
    if (vis != s.term.cursorVisible) s.c.fail("%s: cursor should be %s in the terminal (console cursor %s, at %d,%d, window rows %d..%d)", when, vis ? "shown" : "hidden", b.cursorVisible ? "visible" : "hidden", b.cx, b.cy, b.win.t, b.win.b);
    if (vis && (s.term.cx != b.cx || s.term.screenRow() != b.cy - b.win.t || s.term.pendingWrap))
        s.c.fail("%s: console cursor at column %d row %d of the window, terminal cursor at column %d row %d%s", when, b.cx, b.cy - b.win.t, s.term.cx, s.term.screenRow(), s.term.pendingWrap ? " (past the end of the line)" : "");
}
static void c01(pbt::Ctx &c) {
    Config cfg = genConfig(c);
    World &w = reset(cfg);
    Opts o; o.cols = c.chance(60) ? 80 : c.range(20, 140); o.rows = c.chance(50) ? 25 : c.range(3, 60);
    if (c.chance(30)) w.pol = genPolicy(c, true);
    if (c.chance(30)) w.pol.jitter = (int)c.choose(20);
    Session s(c, w, o); s.open(); s.spawn();
    c.note("os %d, %dx%d", cfg.os, o.cols, o.rows);
    if (s.buf->w != o.cols || s.buf->win.h() != o.rows || s.buf->win.w() != o.cols) { c.label("size limited by the system"); return; }
    App app(s); bool race = c.chance(40); app.race(race);
    draw::Kinds k; k.maxLines = 400;
    int batches = 0; uint64_t shown = 0;
    do {
        pbt::Ctx::Span sp(c);
        int n = c.skewed(1, 12), lines = 0; c.note("batch:");
        for (int i = 0; i < n && lines < 2000; ++i) lines += draw::addOp(c, app, s.con->active, k);
        app.flush();
        if (c.chance(40)) { s.run(c.skewed(1, 40)); if (lines > 300) s.run(30); }
        else { s.settle(); compareScreen(s, "after settling"); shown++; }
        if (lines > 300) s.settle();
        ++batches;
    } while (batches < 25 && c.more(5));
    s.settle(); compareScreen(s, "at the end");
    if (app.racedInScrape) c.label("drawing raced with a scrape");
    if (s.term.clears) c.label("screen restarted");
    if (s.con->active->win.t > 216) c.label("sync marker placed");
    if (s.con->active->win.t > 2900) c.label("buffer scrolled");
    if (!s.con->active->cursorVisible) c.label("hidden cursor");
    c.label(race ? "racing" : "not racing");
    if (app.ran >= 3 && s.term.bytes > 50) c.nontrivial();
    s.free(); w.runFor(500); s.checkClean();
}
static pbt::Registrar r01({"C01", "random histories of console drawing operations (text, wide characters, fills, scrolling, cursor and window moves, clears), interleaved with the agent's polls or racing with its system calls; the reference terminal must equal the console window. Non-trivial: 3 or more drawing operations ran and produced output.", c01, 5, 12000, 150000, 20, {"drawing raced with a scrape", "screen restarted", "sync marker placed", "hidden cursor"}});

// ---------------------------------------------------------------- C03 colours
static void compareColours(Session &s, const char *when) {
    Buffer &b = *s.con->active;
    s.checkClean();
    bool w10 = s.w.cfg.os == OS_W10, cjk = s.con->outCp == 932 || s.con->outCp == 936 || s.con->outCp == 949 || s.con->outCp == 950;
    bool modes = (b.mode & 0x14) != 0, rev = w10 || cjk || modes, und = cjk || modes;
    int last = b.cy - b.win.t;
    for (int r = 0; r < b.win.h(); ++r) for (int x = 0; x < b.w; ++x) if (b.at(x, b.win.t + r).ch != ' ') last = std::max(last, r);
    // a blank row painted in another colour than the end of the row above has been drawn on too
    for (int r = 1; r < b.win.h(); ++r) for (int x = 0; x < b.w; ++x) if ((b.at(x, b.win.t + r).attr ^ b.at(b.w - 1, b.win.t + r - 1).attr) & ~0x300) last = std::max(last, r);
    for (int r = 0; r <= last && r < std::min(s.term.h, b.win.h()); ++r) {
        std::string d = diffRow(b, b.win.t + r, 0, std::min(b.w, s.term.w), s.term, s.term.top + r, true, rev, und);
        if (!d.empty()) s.c.fail("%s: window row %d differs (code page %u, output mode 0x%x): %s", when, r, s.con->outCp, b.mode, d.c_str());
    }
    if (!s.term.errors.empty()) s.c.fail("%s: the output stream misbehaves: %s", when, s.term.errors[0].c_str());
}
static void c03(pbt::Ctx &c) {
    Config cfg = genConfig(c); static const uint32_t cps[] = {437, 932, 936, 949, 950, 1252, 65001, 850};
    World &w = reset(cfg);
    Opts o; o.cols = c.chance(50) ? 80 : c.range(28, 120); o.rows = c.chance(50) ? 25 : c.range(3, 40);
    if (c.chance(20)) w.pol = genPolicy(c, true);
    if (c.chance(10)) o.flags |= F_COLOR;
    Session s(c, w, o); s.open(); s.spawn();
    if (s.buf->w != o.cols || s.buf->win.h() != o.rows || s.buf->win.w() != o.cols) { c.label("size limited by the system"); return; }
    auto modes = [&] {
        if (c.chance(50)) { s.con->outCp = c.pick(cps); c.note("output code page %u", s.con->outCp); }
        if (c.chance(50)) { s.con->active->mode = 3 | (c.chance(30) ? 4 : 0) | (c.chance(30) ? 0x10 : 0); c.note("output mode 0x%x", s.con->active->mode); }
    };
    modes();
    App app(s); app.race(c.chance(20));
    draw::Kinds k; k.lvb = true; k.maxLines = 60; k.wide = c.chance(50);
    int batches = 0; bool special = false;
    do {
        pbt::Ctx::Span sp(c);
        int n = c.skewed(1, 10); c.note("batch:");
        for (int i = 0; i < n; ++i) {
            if (c.chance(35)) {   // a run of cells with any attribute at all, blank or not
                uint16_t at = draw::genAttr(c, true); uint16_t ch = c.chance(40) ? ' ' : c.chance(10) ? 0xA0 : (uint16_t)c.range('!', '~'); int x = (int)c.choose(1000), y = (int)c.choose(1000), m = c.skewed(1, 100); auto b = s.con->active;
                if (c.chance(10)) at |= (uint16_t)(c.choose(8) << 10);       // grid lines: no terminal counterpart
                c.note("fill %d '%c' attr %04x at %d,%d", m, ch, at, x, y);
                app.add([=] { draw::fillChars(*b, x % b->w, b->win.t + y % b->win.h(), m, ch, at); });
                special = true;
            } else if (c.chance(8)) {      // blank bands of one or two colours, one or more rows each
                uint16_t at[2] = {(uint16_t)(draw::genAttr(c, true) & 0xff), (uint16_t)(c.chance(50) ? 7 : draw::genAttr(c, true) & 0xff)}; int y = (int)c.choose(1000), n = c.range(1, 5), e = c.range(1, 2); auto b = s.con->active;
                c.note("blank bands %04x/%04x, %d x %d rows, from row %d", at[0], at[1], n, e, y);
                app.add([=] { int r0 = y % b->win.h(); for (int i = 0; i < n * e && r0 + i < b->win.h(); ++i) draw::fillChars(*b, 0, b->win.t + r0 + i, b->w, ' ', at[(i / e) & 1]); });
                special = true;
            } else draw::addOp(c, app, s.con->active, k);
        }
        app.flush();
        if (c.chance(40)) s.run(c.skewed(1, 40)); else { s.settle(); compareColours(s, "after settling"); }
        if (c.chance(10)) modes();
    } while (++batches < 20 && c.more(4));
    s.settle(); compareColours(s, "at the end");
    if (s.term.clears) c.label("screen restarted");
    if (special && s.term.bytes > 60) c.nontrivial();
}
static pbt::Registrar r03({"C03", "random drawing histories with arbitrary 16-bit cell attributes, changing code pages and output modes; every visible cell up to the last printed line must have the rendition of an independent attribute table in the reference terminal. Non-trivial: cells with a generated attribute were output.", c03, 5, 12000, 150000, 20, {"screen restarted"}});
