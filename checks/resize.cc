// C07 resizing, C06 full-screen programs, C23 the error stream.
#include "model/draw.h"
#include <algorithm>
#include <set>
using namespace session;
// Makes the cursor visible inside the window so that terminal lines can be matched with buffer rows.
static void anchor(Session &s, Buffer &b) {
    b.cursorVisible = true;
    if (b.cy < b.win.t || b.cy > b.win.b || b.cx < b.win.l || b.cx > b.win.r) { b.cx = std::min(b.w - 1, std::max(b.cx, b.win.l)); b.cx = std::min(b.cx, b.win.r); b.cy = std::min(std::max(b.cy, b.win.t), b.win.b); }
    s.settle();
}
static std::string diffSheet(Buffer &b, vt::Vt &t, const std::set<uint64_t> *gone, int fromRow) {
    char m[300];
    if (!t.cursorVisible) return "the cursor is hidden in the terminal although it is visible in the console window";
    if (t.cx != b.cx || t.pendingWrap) { snprintf(m, sizeof m, "cursor in column %d of the console, column %d of the terminal", b.cx, t.cx); return m; }
    for (int y = std::max(b.win.t, fromRow); y <= b.win.b; ++y) {
        std::string want = cellsUtf8(&b.at(0, y), b.w, true), got = t.rowText(t.cy + (y - b.cy));
        if (gone && want.empty() && gone->count(b.rowId[y])) continue;
        if (want != got) { snprintf(m, sizeof m, "window row %d (cursor row %d)", y - b.win.t, b.cy - b.win.t); return std::string(m) + " reads\n  [" + esc(want) + "] in the console\n  [" + esc(got) + "] in the terminal"; }
    }
    return "";
}
static std::string token(int n) { return "<tok" + std::to_string(n) + "-" + std::to_string((n * 7919u + 13) % 9973) + ">"; }     // overwriting parts of one does not make another
static void c07(pbt::Ctx &c) {
    Config cfg = genConfig(c);
    static const int mon[][2] = {{1920, 1080}, {1920, 1080}, {1024, 768}, {1280, 1024}, {3840, 2160}};
    int mi = (int)c.choose(5); cfg.monW = mon[mi][0]; cfg.monH = mon[mi][1];
    World &w = reset(cfg);
    Opts o; o.cols = c.chance(60) ? 80 : c.range(28, 120); o.rows = c.chance(50) ? 25 : c.range(3, 40); o.paper = true;
    bool keeps = c.chance(30);     // a terminal that keeps what a narrower width hides; it is resized only when nothing is on the way to it
    Session s(c, w, o); if (keeps) s.term.obscure = true; else s.setGrow();
    s.open(); s.spawn();
    if (s.buf->w != o.cols || s.buf->win.h() != o.rows) { c.label("size limited by the system"); return; }
    c.note("%s, monitor %dx%d, start %dx%d", osName(cfg.os), cfg.monW, cfg.monH, o.cols, o.rows);
    auto b = s.buf; App app(s); bool race = !keeps && c.chance(30); app.race(race); if (keeps) c.label("terminal keeps hidden cells");
    draw::Kinds k; k.moves = c.chance(30); k.maxLines = 300; k.clears = c.chance(50); k.wide = false;
    std::set<uint64_t> gone; int clears = 0, resizes = 0, steps = 0, tok = 0; bool counted = true, tainted = false, stop = false;
    auto sync = [&](const char *when) {
        app.flush(); s.settle(); anchor(s, *b); s.checkClean();
        if (s.term.clears != clears) { clears = s.term.clears; gone.clear(); counted = false; tainted = false; }
        if (!s.term.errors.empty() && !tainted) c.fail("%s: the output stream misbehaves: %s", when, s.term.errors[0].c_str());
        std::string d = diffSheet(*b, s.term, &gone, 0);
        if (!d.empty() && tainted) { c.failKnown("window-up-during-resize", "%s: %s", when, d.c_str()); stop = true; return; }
        if (!d.empty()) c.fail("%s (buffer %dx%d, window %d..%d): %s", when, b->w, b->h, b->win.t, b->win.b, d.c_str());
        if (counted && tok && !tainted) {    // every numbered line was printed once, so it may be on the sheet at most once
            std::set<std::string> seen;
            for (size_t i = 0; i < s.term.lines.size(); ++i) {
                std::string t = s.term.rowText((int)i); size_t p = t.find("<tok"); if (p == std::string::npos) continue; size_t e = t.find('>', p); if (e == std::string::npos) continue;
                std::string id = t.substr(p, e - p + 1); int tn = atoi(id.c_str() + 4); if (id == token(tn) && !seen.insert(id).second) c.fail("%s: a line that was printed once is on the terminal twice: %s", when, esc(t).c_str());
            }
        }
    };
    do {
        pbt::Ctx::Span sp(c);
        if (c.chance(60)) {
            int n = c.skewed(1, 6), lines = 0; c.note("batch:");
            for (int i = 0; i < n && lines < 1200; ++i) {
                if (c.chance(40)) { int m = c.skewed(1, 200), t0 = tok; tok += m; lines += m; c.note("%d tokens", m); app.add([=] { for (int j = 0; j < m; ++j) b->write(u16(token(t0 + j) + "\r\n")); }); }
                else lines += draw::addOp(c, app, b, k);
            }
            if (c.chance(60)) app.flush();
            if (lines > 300) { app.flush(); s.settle(); }
        }
        if (c.chance(40)) s.run(c.skewed(0, 60));
        if (c.chance(60)) {
            int cols, rows;
            switch (c.weighted({8, 2, 2, 1})) {
            case 0: cols = c.range(28, 180); rows = c.range(2, 60); break;
            case 1: cols = o.cols; rows = c.range(1, 80); break;
            case 2: cols = c.range(28, 180); rows = o.rows; break;
            default: cols = c.chance(50) ? c.skewed(1, 3000) : c.range(1, 300); rows = c.chance(50) ? c.skewed(1, 2500) : c.range(1, 300); break;
            }
            c.note("resize to %dx%d", cols, rows);
            for (int y = 0; y < b->win.t; ++y) gone.insert(b->rowId[y]);
            size_t logn = s.con->log.size();
            // rows that leave the window while the agent works on the resize are unknown to us
            uint64_t up = app.upMoves; if (keeps) { app.flush(); s.settle(); s.drain(); s.term.resize(cols, rows); }
            s.setSize(cols, rows); ++resizes;
            if (app.upMoves > up) tainted = true;      // the program cleared the screen (or moved the window up) while the resize was carried out
            for (int y = 0; y < b->win.t; ++y) gone.insert(b->rowId[y]);
            int ec = std::min(cols, 2500), er = std::min(rows, 2000);
            bool ev = false; for (size_t i = logn; i < s.con->log.size(); ++i) if (s.con->log[i].type == InEv::Size) { ev = true; if (s.con->log[i].x != b->w || s.con->log[i].y != b->h) c.fail("the size event says %dx%d, the buffer is %dx%d", s.con->log[i].x, s.con->log[i].y, b->w, b->h); }
            if (!ev) c.fail("no size event was sent to the program for the resize to %dx%d", cols, rows);
            if (b->h != 3000) c.fail("the screen buffer is %d rows high after the resize to %dx%d, not 3000", b->h, cols, rows);
            int lw = s.con->largestW(), lh = s.con->largestH();
            if (ec < 28 && b->w != ec) { c.label("size limited by the system"); break; }
            if (b->w != ec) c.fail("the screen buffer is %d columns wide after a resize to %dx%d", b->w, cols, rows);
            bool modest = cols >= 28 && cols * 8 <= cfg.monW && rows * 16 <= cfg.monH;
            if (modest && (b->win.w() != cols || b->win.h() != rows)) c.fail("the window is %dx%d after a resize to %dx%d (largest possible %dx%d)", b->win.w(), b->win.h(), cols, rows, lw, lh);
            if (!modest) { c.label("extreme size"); if (b->win.h() != std::min(er, lh) || (b->win.w() != std::min(b->w, lw) && b->win.w() != std::min(ec, lw))) c.fail("the window is %dx%d after a resize to %dx%d (buffer width %d, largest window %dx%d)", b->win.w(), b->win.h(), cols, rows, b->w, lw, lh); }
            if (b->win.l != 0 || b->win.b >= b->h) c.fail("the window is at %d,%d..%d,%d after a resize", b->win.l, b->win.t, b->win.r, b->win.b);
            if (b->w != ec) { c.label("size limited by the system"); break; }
            if (b->win.h() != er || b->win.w() != ec) { c.label("window limited by the monitor"); }
        }
        if (c.chance(50)) sync("after settling");
    } while (!stop && ++steps < 30 && c.more(8));
    if (!stop && b->w == std::min(s.o.cols, 2500)) sync("at the end");
    if (app.racedInScrape) c.label("drawing raced with a scrape");
    if (clears) c.label("screen restarted");
    if (resizes >= 1 && s.term.bytes > 60) c.nontrivial();
}
static pbt::Registrar r07({"C07", "random histories of drawing and resize requests (shrinking, growing, extreme), settled or racing; after each request the window, buffer and size event are checked, after settling the window must equal the matching rows of the terminal sheet and no numbered line may be on it twice. Non-trivial: at least one resize and some output.", c07, 5, 6000, 80000, 10, {"extreme size", "drawing raced with a scrape", "screen restarted"}});
// ---------------------------------------------------------------- C06 full-screen programs
static void c06(pbt::Ctx &c) {
    Config cfg = genConfig(c);
    World &w = reset(cfg);
    Opts o; o.cols = c.chance(50) ? 80 : c.range(28, 110); o.rows = c.chance(50) ? 25 : c.range(4, 45);
    if (c.chance(25)) w.pol = genPolicy(c, true);
    Session s(c, w, o); s.open(); s.spawn();
    if (s.buf->w != o.cols || s.buf->win.h() != o.rows) { c.label("size limited by the system"); return; }
    c.note("%s, %dx%d", osName(cfg.os), o.cols, o.rows);
    App app(s); bool race = c.chance(30); app.race(race);
    auto mainBuf = s.buf; std::vector<std::pair<std::shared_ptr<Buffer>, uint64_t>> extra; draw::Kinds k; k.maxLines = 60; k.wide = c.chance(50);
    int clears = 0; bool direct = false; int switches = 0, compared = 0, resizes = 0; int expectDirect = 0;
    auto compare = [&](const char *when) {
        app.flush(); s.settle(); s.checkClean();
        Buffer &b = *s.con->active; int ww = std::min(b.win.w(), s.o.cols), hh = std::min(b.win.h(), s.o.rows); bool d = b.h != 3000;
        char where[200]; snprintf(where, sizeof where, "%s (buffer %dx%d, window %d,%d..%d,%d, terminal %dx%d, %s)", when, b.w, b.h, b.win.l, b.win.t, b.win.r, b.win.b, s.o.cols, s.o.rows, d ? "full-screen" : "scrolling");
        for (auto &e : s.term.errors) if (e.find("past the top") == std::string::npos && !(e == "control character 00" && cfg.os == OS_W10 && app.racedInScrape)) c.fail("%s: the output stream misbehaves: %s", where, e.c_str());
        if (!s.term.wrapped.empty()) c.fail("%s: the terminal had to wrap a line: %s", where, s.term.wrapped[0].c_str());
        for (int r = 0; r < hh; ++r) {
            std::string e = diffRow(b, b.win.t + r, b.win.l, ww, s.term, s.term.top + r, false, true, true);
            if (!e.empty()) c.fail("%s: window row %d: %s", where, r, e.c_str());
        }
        int x = b.cx - b.win.l, y = b.cy - b.win.t; bool vis = b.cursorVisible && x >= 0 && y >= 0 && x < ww && y < hh;
        if (vis != s.term.cursorVisible) c.fail("%s: the terminal cursor should be %s (console cursor %s at window position %d,%d)", where, vis ? "shown" : "hidden", b.cursorVisible ? "visible" : "hidden", x, y);
        if (vis && (s.term.cx != x || s.term.screenRow() != y || s.term.pendingWrap)) c.fail("%s: console cursor at window position %d,%d, terminal cursor at %d,%d", where, x, y, s.term.cx, s.term.screenRow());
        if (expectDirect && s.term.clears == clears && d != direct) c.fail("%s: the terminal was not cleared although the program changed to %s mode", where, d ? "full-screen" : "scrolling");
        clears = s.term.clears; direct = d; expectDirect = 1; ++compared;
    };
    int steps = 0;
    auto genWin = [&](Buffer &b, int ww, int hh) { b.win = Rect{0, 0, std::min({ww, b.w, s.con->largestW()}) - 1, std::min({hh, b.h, s.con->largestH()}) - 1}; };
    do {
        pbt::Ctx::Span sp(c);
        switch (c.weighted({4, 3, 2, 2, 2, 2})) {
        case 0: break;
        case 1: { // a screen buffer of its own
            int bw = c.chance(50) ? o.cols : c.range(10, 130), bh = c.chance(60) ? s.o.rows : c.range(1, 300); int ww = c.chance(70) ? bw : c.range(10, 130), hh = c.chance(70) ? std::min(bh, s.o.rows) : c.range(1, 60); bool act = c.chance(85);
            c.note("new screen buffer %dx%d with window %dx%d%s", bw, bh, ww, hh, act ? ", activated" : "");
            app.add([&, bw, bh, ww, hh, act] { if (extra.size() > 3) return; auto n = s.con->newBuffer(); n->init(std::max(bw, s.con->minCols()), bh); genWin(*n, std::max(ww, s.con->minCols()), hh); extra.push_back({n, w.addHandle(s.child, n, "screen buffer")}); if (act) s.con->active = n; });
            ++switches; break; }
        case 2: { int i = (int)c.choose(5); c.note("activate buffer %d (mod)", i); app.add([&, i] { auto &v = s.con->buffers; s.con->active = v[i % v.size()]; }); ++switches; break; }
        case 3: { // resize the active buffer in place
            int bw = c.chance(60) ? s.o.cols : c.range(28, 120), bh = c.chance(40) ? s.o.rows : c.chance(30) ? 3000 : c.range(1, 200); if (bh == 3000) bw = s.o.cols; c.note("set the active buffer to %dx%d", bw, bh);
            app.add([&, bw, bh] { Buffer &b = *s.con->active; if (bh == 3000 && s.con->active != mainBuf) return; int nw = std::max(bw, s.con->minCols()); if (b.win.w() > nw) b.win.r = b.win.l + nw - 1; if (b.win.h() > bh) b.win.b = b.win.t + bh - 1; b.resize(nw, bh); genWin(b, bh == 3000 ? s.o.cols : b.win.w(), bh == 3000 ? s.o.rows : b.win.h()); b.ensureVisible(b.cx, b.cy); });
            ++switches; break; }
        case 4: { c.note("close the extra buffer"); app.add([&] { if (extra.empty()) return; auto n = extra.back(); extra.pop_back(); w.closeHandle(s.child, n.second); }); ++switches; break; }
        case 5: { int dx = c.range(-20, 20), dy = c.range(-20, 20); c.note("move window by %d,%d", dx, dy); app.add([&, dx, dy] { Buffer &b = *s.con->active; if (b.h == 3000) return; int ww = b.win.w(), hh = b.win.h(); b.win.l = std::min(std::max(0, b.win.l + dx), b.w - ww); b.win.t = std::min(std::max(0, b.win.t + dy), b.h - hh); b.win.r = b.win.l + ww - 1; b.win.b = b.win.t + hh - 1; }); break; }
        }
        app.flush();
        int n = c.skewed(0, 6);
        if (n) c.note("batch:");
        auto act = s.con->active; int lines = 0;
        for (int i = 0; i < n && lines < 400; ++i) lines += draw::addOp(c, app, act, k);
        app.flush();
        if (c.chance(50)) s.run(c.skewed(0, 60));
        if (c.chance(20)) {
            int cols = c.range(28, 110), rows = c.range(4, 45); s.settle();
            if (rows <= s.term.screenRow()) { c.label("resize would cut off the cursor line"); rows = s.term.screenRow() + 1; }   // a terminal scrolls then, on its own
            c.note("resize to %dx%d", cols, rows); s.drain(); s.term.resize(cols, rows); s.setSize(cols, rows); ++resizes; expectDirect = 0;
            Buffer &b = *s.con->active; if (b.w != cols || b.win.w() != cols || b.win.h() != rows) { if (b.w < cols || b.win.h() > rows) c.fail("after a resize to %dx%d the buffer is %dx%d with window %dx%d", cols, rows, b.w, b.h, b.win.w(), b.win.h()); c.label("size limited by the system"); break; }
            if (b.h == 3000) { c.label("resized in scrolling mode"); break; }    // C07 judges what happens then
            c.label("resized while full-screen");
        }
        if (c.chance(60)) compare("after settling");
        if (s.con->active->h == 3000 && (s.con->active->w != s.o.cols || s.con->active->win.w() != s.o.cols || s.con->active->win.h() != s.o.rows)) { s.settle(); if (s.con->active->w != s.o.cols || s.con->active->win.h() != s.o.rows) { c.label("size limited by the system"); break; } }
    } while (++steps < 30 && c.more(7));
    if (app.racedInScrape) c.label("drawing raced with a scrape");
    if (s.term.clears) c.label("mode changed");
    if (compared && s.term.clears) c.nontrivial();
}
static pbt::Registrar r06({"C06", "random histories of screen buffer creation, activation, closing, in-place size changes, window moves, drawing and resizes; after settling the terminal must equal the window of the active buffer, clipped. Non-trivial: the mode changed and the screen was compared.", c06, 5, 8000, 100000, 10, {"mode changed", "resized while full-screen", "drawing raced with a scrape"}});
// ---------------------------------------------------------------- C23 the separate error stream
static std::string mark(char k, int n) { return std::string("<") + k + std::to_string(n) + "-" + std::to_string((n * 7919u + k * 31u) % 9973) + ">"; }
// The streams are connected at any time, also after the program has exited: each must still be there, carry its own last words and end.
static void c23late(pbt::Ctx &c) {
    Config cfg = genConfig(c); World &w = reset(cfg); bool plain = c.chance(50), color = c.chance(30);
    Opts o; o.flags = F_CONERR | (plain ? F_PLAIN : 0) | (color ? F_COLOR : 0); o.attach = false; o.paper = true; if (c.chance(40)) w.pol = genPolicy(c, true);
    Session s(c, w, o); s.setGrow(); s.open(); s.spawn(SPAWN_AUTO_SHUTDOWN | (c.chance(70) ? SPAWN_EXIT_AFTER : 0));
    c.note("%s%s, pipes connected late", osName(cfg.os), plain ? ", plain" : "");
    auto bo = std::dynamic_pointer_cast<Buffer>(s.child->table.find(s.child->create.hStdOut)->second.obj), be = std::dynamic_pointer_cast<Buffer>(s.child->table.find(s.child->create.hStdErr)->second.obj); std::shared_ptr<Buffer> bufs[2] = {bo, be};
    static const char *nm[2] = {"output", "error"}; Ext *ext[2] = {&s.out, &s.err}; vt::Vt *terms[2] = {&s.term, &s.termErr}; bool words[2] = {c.chance(60), c.chance(50)}; int when[2] = {(int)c.choose(4), (int)c.choose(4)}; std::vector<int> order = {0, 1}; if (c.chance(50)) std::swap(order[0], order[1]); bool late = false;
    auto open = [&](int at) { for (int i : order) if (when[i] == at) { if (c.chance(50)) s.run(c.skewed(0, 300)); c.note("connect the %s stream%s", nm[i], at >= 2 ? " after the exit" : ""); if (!ext[i]->open(libName(s.wp, 1 + i), true, false, w.client->pid)) c.fail("the %s pipe is gone (error %u)", nm[i], ext[i]->err); if (at >= 2) late = true; } };
    open(0); s.run(c.skewed(0, 200));
    for (int t = 0; t < 2; ++t) if (words[t]) { c.note("last words to standard %s", nm[t]); bufs[t]->write(u16(mark(t ? 'E' : 'O', t + 1))); }
    open(1); if (c.chance(50)) s.run(c.skewed(0, 200)); c.note("exit"); w.killProcess(s.child, 0, false); w.runFor(c.skewed(0, 1000)); open(2); s.run(c.skewed(0, 600)); open(3);
    for (int i = 0; i < 600 && !(s.out.eof() && s.err.eof()); ++i) s.run(5);
    if (!s.out.eof() || !s.err.eof()) c.fail("the %s stream was not closed within 3 s after the program's exit", s.out.eof() ? "error" : "output");
    s.checkClean();
    for (int t = 0; t < 2; ++t) { std::string own, other; for (size_t y = 0; y < terms[t]->lines.size(); ++y) { std::string r = terms[t]->rowText((int)y); if (r.find(mark(t ? 'E' : 'O', t + 1)) != std::string::npos) own = r; if (r.find(mark(t ? 'O' : 'E', 2 - t)) != std::string::npos) other = r; }
        if (words[t] && own.empty()) c.fail("the last words on standard %s are missing", nm[t]); if (!other.empty()) c.fail("text written to standard %s is on the %s stream", nm[1 - t], nm[t]); }
    c.label("connected late"); if (late) c.nontrivial();
}
static void c23(pbt::Ctx &c) {
    if (c.chance(15)) { c23late(c); return; }
    Config cfg = genConfig(c);
    World &w = reset(cfg);
    Opts o; o.flags = F_CONERR; o.cols = c.chance(60) ? 80 : c.range(28, 120); o.rows = c.chance(50) ? 25 : c.range(3, 40); o.paper = true;
    if (c.chance(25)) w.pol = genPolicy(c, true);
    Session s(c, w, o); s.setGrow(); s.open(); s.spawn(SPAWN_AUTO_SHUTDOWN | (c.chance(50) ? SPAWN_EXIT_AFTER : 0));
    c.note("%s, %dx%d", osName(cfg.os), o.cols, o.rows);
    // the standard handles of the program
    const CreateRec &cr = s.child->create;
    if (!(cr.suiFlags & 0x100) || !cr.inherit) c.fail("the program was started without standard handles although the error stream was requested");
    auto obj = [&](uint64_t h) -> ObjP { auto it = s.child->table.find(h); return it == s.child->table.end() ? nullptr : it->second.obj; };
    if (obj(cr.hStdIn) != ObjP(s.con->in)) c.fail("the program's standard input is not the console input");
    auto bo = std::dynamic_pointer_cast<Buffer>(obj(cr.hStdOut)), be = std::dynamic_pointer_cast<Buffer>(obj(cr.hStdErr));
    if (!bo || !be) c.fail("standard output or standard error is not an inherited console screen buffer");
    if (bo == be) c.fail("standard output and standard error are the same screen buffer");
    if (bo != s.con->active) c.fail("standard output is not the buffer on display when the program starts");
    if (bo->w != o.cols || bo->win.h() != o.rows || be->w != o.cols || be->win.h() != o.rows) { c.label("size limited by the system"); return; }
    App app(s); bool race = c.chance(30); app.race(race);
    std::shared_ptr<Buffer> bufs[2] = {bo, be}; vt::Vt *terms[2] = {&s.term, &s.termErr}; static const char *nm[2] = {"output", "error"}; static const char kind[2] = {'O', 'E'};
    std::set<uint64_t> gone[2]; int clears[2] = {0, 0}, counts[2] = {0, 0}; bool tainted = false; draw::Kinds k; k.moves = c.chance(30); k.clears = c.chance(50); k.wide = false; k.maxLines = 200; k.bigOutput = c.chance(50);
    std::shared_ptr<Buffer> third; int steps = 0; bool resized = false, switched = false, stop = false, sized = true;
    auto foreign = [&](const char *when) {
        for (int i = 0; i < 2; ++i) for (size_t y = 0; y < terms[i]->lines.size(); ++y) {
            std::string t = terms[i]->rowText((int)y); char bad = kind[1 - i];
            for (size_t p = 0; (p = t.find(std::string("<") + bad, p)) != std::string::npos; ++p) { size_t e = t.find('>', p); if (e == std::string::npos) break; int n = atoi(t.c_str() + p + 2); if (t.substr(p, e - p + 1) == mark(bad, n)) c.fail("%s: text written to standard %s is on the %s stream: %s", when, nm[1 - i], nm[i], esc(t).c_str()); }
        }
    };
    auto sync = [&](const char *when, bool anchored = true) {
        for (int i = 0; i < 2; ++i) {
            Buffer &b = *bufs[i];
            if (terms[i]->clears != clears[i]) { clears[i] = terms[i]->clears; gone[i].clear(); if (terms[i]->clears) tainted = false; }
            if (!terms[i]->errors.empty()) c.fail("%s: the %s stream misbehaves: %s", when, nm[i], terms[i]->errors[0].c_str());
            std::string d = anchored ? diffSheet(b, *terms[i], &gone[i], 0) : "";
            if (!d.empty() && tainted) { c.label("window moved up during a resize"); stop = true; return; }        // C07's known finding
            if (!d.empty()) c.fail("%s: standard %s (buffer %dx%d, window %d..%d): %s", when, nm[i], b.w, b.h, b.win.t, b.win.b, d.c_str());
        }
        foreign(when);
    };
    auto settle = [&] { app.flush(); s.settle(); for (auto &b : bufs) anchor(s, *b); s.checkClean(); };
    do {
        pbt::Ctx::Span sp(c);
        int n = c.skewed(0, 6), lines = 0; if (n) c.note("batch:");
        for (int i = 0; i < n && lines < 1000; ++i) {
            int t = (int)c.choose(2); auto b = bufs[t];
            if (c.chance(60)) { int m = c.skewed(1, 100), t0 = counts[t]; counts[t] += m; lines += m; c.note("%d marked lines to standard %s", m, nm[t]); char kk = kind[t]; app.add([=] { for (int j = 0; j < m; ++j) b->write(u16(mark(kk, t0 + j) + (j % 3 == 2 ? " " : "\r\n"))); }); }
            else { c.note("to standard %s:", nm[t]); lines += draw::addOp(c, app, b, k); }
        }
        if (lines > 300) { app.flush(); s.settle(); } else if (c.chance(60)) app.flush();
        if (c.chance(15)) { int a = (int)c.choose(3); switched = true; c.note("activate screen buffer %d", a); app.add([&, a] { if (a < 2) s.con->active = bufs[a]; else { if (!third) { third = s.con->newBuffer(); third->init(o.cols, 40); third->win = Rect{0, 0, std::min(o.cols, s.con->largestW()) - 1, std::min(40, s.con->largestH()) - 1}; w.addHandle(s.child, third, "screen buffer"); third->write(u"<third>"); } s.con->active = third; } }); }
        if (c.chance(20)) {
            int cols = c.range(28, 150), rows = c.range(2, 50); c.note("resize to %dx%d", cols, rows); resized = true;
            for (int i = 0; i < 2; ++i) for (int y = 0; y < bufs[i]->win.t; ++y) gone[i].insert(bufs[i]->rowId[y]);
            uint64_t up = app.upMoves; s.setSize(cols, rows); if (app.upMoves > up || (race && k.moves) || (race && k.clears)) tainted = true;
            for (int i = 0; i < 2; ++i) for (int y = 0; y < bufs[i]->win.t; ++y) gone[i].insert(bufs[i]->rowId[y]);
            for (int i = 0; i < 2; ++i) { Buffer &b = *bufs[i]; if (b.w != cols || b.win.w() != cols || b.win.h() != rows) { if (cols * 8 <= cfg.monW && rows * 16 <= cfg.monH) c.fail("after a resize to %dx%d the buffer of standard %s is %dx%d with window %dx%d", cols, rows, nm[i], b.w, b.h, b.win.w(), b.win.h()); sized = false; } }
            if (!sized) break;
        }
        if (c.chance(40)) s.run(c.skewed(0, 60));
        if (c.chance(50)) { settle(); sync("after settling"); }
    } while (!stop && sized && ++steps < 25 && c.more(7));
    if (!stop && sized) {
        if (c.chance(50)) {     // the program writes some last words and exits
            settle(); sync("before the exit"); app.flush();
            if (!stop) {
                for (int t = 0; t < 2; ++t) { int m = (int)c.choose(30); for (int j = 0; j < m; ++j) bufs[t]->write(u16(mark(kind[t], counts[t]++) + "\r\n")); bufs[t]->write(u16(std::string("\r\n<last") + kind[t] + ">")); }
                c.note("last words and exit"); w.killProcess(s.child, 0, false);
                for (int i = 0; i < 400 && !(s.out.eof() && s.err.eof()); ++i) s.run(5);
                if (!s.out.eof() || !s.err.eof()) c.fail("the %s stream was not closed within 2 s after the program's exit", s.out.eof() ? "error" : "output");
                sync("after the exit"); c.label("exit");
                for (int t = 0; t < 2 && !stop; ++t) { bool seen = false; for (size_t y = 0; y < terms[t]->lines.size(); ++y) if (terms[t]->rowText((int)y).find(std::string("<last") + kind[t] + ">") != std::string::npos) seen = true; if (!seen && bufs[t]->w >= 40) c.fail("the last words on standard %s are missing", nm[t]); }
            }
        } else { settle(); sync("at the end"); }
    }
    if (app.racedInScrape) c.label("drawing raced with a scrape");
    if (switched) c.label("screen buffer switched"); if (resized) c.label("resized");
    if (counts[0] && counts[1]) c.nontrivial();
}
static pbt::Registrar r23({"C23", "random histories of writing to the main and the error buffer, screen buffer activations, resizes and a final exit; both streams must mirror their own buffer and never carry a checksummed line of the other. One case in six connects the two pipes at random moments, also after the exit. Non-trivial: marked lines were written to both, or a pipe was connected after the exit.", c23, 5, 6000, 80000, 10, {"exit", "resized", "connected late", "screen buffer switched", "drawing raced with a scrape"}});
