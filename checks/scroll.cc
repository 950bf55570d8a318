// C02 scrollback completeness.
#include "model/draw.h"
#include <algorithm>
using namespace session;
namespace {
// What the program has printed: rows of the endless sheet.
struct Sheet {
    int w; std::vector<std::string> rows{1}; int cx = 0; size_t cy = 0; uint64_t touched = 0;
    void ch(char k) {
        if (k == '\n') { cx = 0; down(); } else if (k == '\r') cx = 0;
        else { put(k); }
    }
    void down() { if (++cy == rows.size()) rows.push_back(""); }
    void put(char k) { std::string &r = rows[cy]; if ((int)r.size() <= cx) r.resize(cx + 1, ' '); r[cx] = k; if (++cx == w) { cx = 0; down(); } }
    void text(const std::string &s) { for (char k : s) ch(k); }
};
}
static std::string trimmed(std::string s) { while (!s.empty() && s.back() == ' ') s.pop_back(); return s; }
static void c02(pbt::Ctx &c) {
    Config cfg = genConfig(c);
    World &w = reset(cfg);
    Opts o; o.cols = c.range(28, 60); o.rows = c.chance(60) ? 25 : c.range(2, 100); o.paper = true;
    if (c.chance(30)) w.pol = genPolicy(c, true);
    if (c.chance(30)) w.pol.jitter = (int)c.choose(15);
    Session s(c, w, o); s.term.screen = true; s.open(); s.spawn();
    if (s.buf->w != o.cols || s.buf->win.h() != o.rows || s.buf->win.w() != o.cols) { c.label("size limited by the system"); return; }
    auto b = s.buf; Sheet sh{o.cols}; int seq = 0; size_t floor = 0; int width = o.cols;
    App app(s); bool race = c.chance(35); app.race(race); size_t lastSync = 0; int resizes = 0;
    auto abs2y = [&](size_t a) { return (int)a - (int)(std::max<size_t>(sh.rows.size(), b->h) - b->h); };
    // everything is executed in order, so the sheet can be advanced when the operation runs
    auto print = [&](std::string t) { app.add([&, t] { sh.text(t); b->write(u16(t)); }); };
    auto compare = [&](const char *when) {
        s.checkClean();
        if (!s.term.errors.empty()) c.fail("%s: the output stream misbehaves: %s", when, s.term.errors[0].c_str());
        if (!s.term.wrapped.empty()) c.fail("%s: the terminal had to wrap a line: %s", when, s.term.wrapped[0].c_str());
        if (s.term.clears) c.fail("%s: the terminal was made to start over although the program only printed lines", when);
        size_t n = std::max(sh.rows.size(), s.term.lines.size());
        for (size_t i = 0; i < n; ++i) {
            std::string want = i < sh.rows.size() ? trimmed(sh.rows[i]) : "", got = s.term.rowText((int)i);
            if (want != got) {
                // say what happened
                const char *how = "differs"; for (size_t j = 0; j < sh.rows.size(); ++j) if (!want.empty() && j != i && trimmed(sh.rows[j]) == got) how = j < i ? "repeats an earlier line" : "skips lines";
                c.fail("%s: terminal line %zu %s: the program printed\n  [%s]\nthe terminal has\n  [%s]\n(%zu rows printed, %zu terminal lines)", when, i, how, esc(want).c_str(), esc(got).c_str(), sh.rows.size(), s.term.lines.size());
            }
        }
    };
    int total = 0, batches = 0, maxTotal = c.chance(30) ? 14000 : 3000; bool big = false;
    do {
        pbt::Ctx::Span sp(c);
        int budget = race ? 1000 : 2300, n = c.skewed(1, 6);
        for (int i = 0; i < n; ++i) {
            pbt::Ctx::Span sp2(c);
            switch (c.weighted({5, 6, 3, 2, 2, 2})) {
            case 0: { std::string t = "w" + std::to_string(seq++) + std::string(c.skewed(0, 200), 'a' + seq % 26); if (budget < 8) break; budget -= 8; c.note("print %d characters", (int)t.size()); print(t); break; }
            case 1: { int m = std::min(budget, c.chance(25) ? c.range(1, 2300) : c.skewed(1, 300)); if (m <= 0) break; budget -= m; int base = seq; seq += m; c.note("%d lines", m); if (m > 1500) big = true;
                for (int at = 0; at < m;) { int k = race ? std::min(m - at, 1 + (int)c.choose(60)) : m - at; std::string t; for (int j = 0; j < k; ++j) { int q = base + at + j; t += "line " + std::to_string(q) + std::string(q * 7 % 17, 'a' + q % 26) + (q % 5 ? "\n" : "\r\n"); } print(t); at += k; }
                break; }
            case 2: { int m = std::min(budget, c.skewed(1, 60)); if (m <= 0) break; budget -= m; c.note("%d empty lines", m); print(std::string(m, '\n')); break; }
            case 3: c.note("rewrite line"); print("\r" + std::string("p") + std::to_string(seq++)); break;
            case 4: { int up = (int)c.choose(1000); std::string t = "u" + std::to_string(seq++); c.note("rewrite a row %d (mod) above", up); app.add([&, up, t] {
                size_t top = sh.cy >= (size_t)(b->cy - b->win.t) ? sh.cy - (b->cy - b->win.t) : 0; top = std::max(top, floor);
                if (top > sh.cy) return;
                size_t a = sh.cy - up % (sh.cy - top + 1); size_t sc = sh.cy; int scx = sh.cx; int y = abs2y(a);
                if (y < b->win.t || y > b->win.b) return;
                int by = b->cy, bx = b->cx; sh.cy = a; sh.cx = 0; b->cy = y; b->cx = 0; sh.text(t); b->write(u16(t)); sh.cy = sc; sh.cx = scx; b->cy = by; b->cx = bx; }); break; }
            case 5: if (!race && c.chance(40)) { app.flush(); s.settle(); int rows = c.chance(50) ? c.skewed(2, 100) : c.range(2, 60); c.note("resize to %d rows", rows); s.setSize(o.cols, rows); s.settle(); ++resizes; floor = sh.cy; c.label("resized"); lastSync = sh.rows.size(); budget = 2300;
                if (s.buf->w != width) { c.label("size limited by the system"); return; } } break;
            }
        }
        app.flush();
        total = (int)sh.rows.size();
        // two polls see everything before the next burst may start, or the burst was small
        if (c.chance(50)) { s.settle(); if (c.chance(30)) compare("after settling"); lastSync = sh.rows.size(); }
        else { int ms = c.skewed(0, 60); s.run(ms); if (sh.rows.size() - lastSync > (race ? 500u : 100u)) { s.run(60 + 2 * w.pol.maxDelay + 2 * w.pol.jitter); s.settle(); lastSync = sh.rows.size(); } }
    } while (++batches < 40 && total < maxTotal && c.more(6));
    s.settle(); compare("at the end");
    if (total > 3000) c.label("buffer wrapped"); if (total > 240) c.label("sync marker placed"); if (big) c.label("burst over 1500 lines"); if (app.racedInScrape) c.label("printing raced with a scrape");
    if (total > 6000) c.label("wrapped more than once");
    if (total > o.rows) c.nontrivial();
    s.free(); w.runFor(300); s.checkClean();
}
static pbt::Registrar r02({"C02", "random histories of printed lines (bursts up to 2,300 lines per poll, empty lines, partial lines, rewritten rows, height changes), racing with the agent or not; the sheet of paper the output prints must carry exactly the printed rows. Non-trivial: more rows than the window has were printed.", c02, 5, 2500, 40000, 10, {"buffer wrapped", "sync marker placed", "burst over 1500 lines", "resized", "printing raced with a scrape", "wrapped more than once"}});
