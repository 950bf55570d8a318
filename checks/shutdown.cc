// C20 shutdown delivers all output; C22 output does not depend on the I/O schedule.
#include "model/draw.h"
#include <algorithm>
#include <set>
#include <string.h>
using namespace session;
namespace {
std::string token(char k, int n) { return std::string("<") + k + std::to_string(n) + "-" + std::to_string((n * 7919u + k * 31u) % 9973) + ">"; }
struct Stream { Ext *e; vt::Vt *t; char kind; int printed = 0; uint16_t pad = 0; };
// A client reading in its own manner.
struct Reader {
    int mode = 0, chunk = 1, stall = 0; uint64_t next = 0;
    void gen(pbt::Ctx &c) { mode = c.weighted({2, 4, 4}); chunk = c.chance(50) ? c.range(1, 40) : c.range(50, 3000); stall = c.skewed(1, 400); }
    size_t want(uint64_t now) { if (mode == 0) return (size_t)-1; if (mode == 1) return chunk; if (now < next) return 0; next = now + stall; return (size_t)-1; }
};
void c20(pbt::Ctx &c) {
    Config cfg = genConfig(c); World &w = reset(cfg); Opts o; o.flags = (c.chance(35) ? F_CONERR : 0) | (c.chance(25) ? F_PLAIN : 0); o.mouseMode = (int)c.choose(3);
    o.cols = c.chance(50) ? 80 : c.range(28, 130); o.rows = c.chance(50) ? 25 : c.range(3, 45); o.paper = true; o.attach = false; if (c.chance(50)) w.pol = genPolicy(c);
    Session s(c, w, o); s.setGrow(); s.open(); s.con = s.agent->con;
    uint64_t fl = c.weighted({5, 5, 2, 1}); fl = fl == 0 ? 1 : fl == 1 ? 3 : fl == 2 ? 0 : 2; bool autoS = fl & 1, exitAfter = fl == 3, two = o.flags & F_CONERR;
    int when[2]; for (int i = 0; i < 2; ++i) when[i] = (int)c.weighted({3, 2, 2, 3, 1}); if (c.chance(60)) when[1] = when[0];      // before the start, after it, during the output, some time after the exit, not before something else was tried
    static const char *wn[] = {"before the program starts", "when it has started", "during its output", "after its exit", "very late"};
    Reader rd[2]; rd[0].gen(c); rd[1].gen(c); Stream st[2] = {{&s.out, &s.term, 'O'}, {&s.err, &s.termErr, 'E'}}; int ns = two ? 2 : 1; std::string fed[2];
    c.note("%s, %dx%d, flags %d, spawn flags %d, output read %s%s%s", osName(cfg.os), o.cols, o.rows, (int)o.flags, (int)fl, wn[when[0]], two ? ", errors read " : "", two ? wn[when[1]] : "");
    auto conn = [&](int phase) { for (int i = 0; i < ns; ++i) if (when[i] == phase) if (!st[i].e->open(libName(s.wp, i + 1), true, false, w.client->pid)) c.fail("cannot connect to the %s pipe %s: error %u", i ? "CONERR" : "CONOUT", wn[phase], st[i].e->err); };
    uint64_t exited = ~0ull; bool endChecked = false; size_t unreadAtExit = 0;
    auto read = [&](size_t cap) { for (int i = 0; i < ns; ++i) if (st[i].e->ok()) { size_t k = std::min(cap, rd[i].want(w.now)); if (k) { std::string d = st[i].e->read(k); fed[i] += d; st[i].t->feed(d); } } };
    auto tick = [&](int ms) { for (int i = 0; i < ms; ++i) { w.runFor(1); read((size_t)-1); if (!autoS || exited == ~0ull) for (int j = 0; j < ns; ++j) if (st[j].e->ok() && st[j].e->peerClosed()) c.fail("the %s stream ended although %s", j ? "error" : "output", autoS ? "the program is still running" : "automatic shutdown was not requested"); if (s.agent->exited && !(exitAfter && exited != ~0ull)) c.fail("the agent exited although that was not requested%s", w.agentAsserted ? w.agentAssertText.c_str() : ""); } };
    conn(0); s.spawn(fl); conn(1); if (c.chance(60)) tick(c.skewed(0, 100));
    std::shared_ptr<Buffer> b[2] = {s.buf, s.errBuf}; for (int i = 0; i < ns; ++i) if (!b[i]) c.fail("no screen buffer"); if (s.buf->w != o.cols || s.buf->win.h() != o.rows) { c.label("size limited by the system"); return; }
    int pad = c.chance(40) ? o.cols - 15 : 0; App app(s); bool race = c.chance(40); int total = 0, lastSync = 0; U16 title; std::vector<std::shared_ptr<Process>> helpers;
    app.race(race); int bursts = 0; const int limit = race ? 500 : 2000;
    auto line = [pad, o](char k, int n) { std::string t = token(k, n); if (pad && n % 3) t += std::string(pad * (n % 7) / 7, 'a' + n % 26); return t; };
    auto print = [&](int i, int m) { int t0 = st[i].printed; st[i].printed += m; total += m; char k = st[i].kind; auto bb = b[i]; c.note("%d lines to the %s buffer", m, i ? "error" : "output"); bool part = c.chance(20);
        for (int at = 0; at < m;) { int n = race ? std::min(m - at, 1 + (int)c.choose(30)) : m - at; std::string t; for (int j = 0; j < n; ++j) { int id = t0 + at + j; t += line(k, id); if (!(part && at + j == m - 1)) t += "\r\n"; } if (part && at + n == m) t += " "; app.add([bb, t] { bb->write(u16(t)); }); at += n; }
        if (part) app.add([bb] { bb->write(u"\r\n"); }); };
    auto slack = [&] { app.flush(); for (int i = 0; i < 55 + 2 * w.pol.maxDelay + 2 * w.pol.jitter; ++i) tick(1); lastSync = total; };
    // The buffer holds 3000 lines; let the agent see each burst.
    int nb = c.chance(10) ? c.range(4, 9) : c.skewed(0, 4);
    for (; bursts < nb; ++bursts) {
        pbt::Ctx::Span sp(c);
        int i = two ? (int)c.choose(2) : 0, m = c.chance(30) ? c.range(1, limit) : c.skewed(1, 80); if (total - lastSync + m > limit) slack();
        print(i, m); if (c.chance(20)) { title = u"title " + u16(std::to_string(bursts)); U16 t = title; app.add([&, t] { s.con->title = t; }); }
        if (bursts == nb / 2) { app.flush(); conn(2); }
        if (c.chance(50)) { app.flush(); tick(c.skewed(0, 80)); } if (c.chance(30)) slack();
    }
    if (nb == 0) conn(2);
    // the last words, directly followed by the exit
    { int m = c.skewed(0, 60); if (total - lastSync + m > limit) slack(); if (m) print(0, m); if (two && c.chance(50)) print(1, 1 + c.skewed(0, 20)); }
    bool grand = c.chance(15); if (grand) { helpers.push_back(w.newProcess("helper", s.child)); w.attach(helpers.back().get(), s.con); c.label("another program still on the console"); }
    int code = (int)c.choose(3); app.add([&] { exited = w.now; for (int i = 0; i < ns; ++i) unreadAtExit += st[i].e->ok() ? st[i].e->unread() : 0; w.killProcess(s.child, code, false); }); c.note("exit"); app.flush(); app.race(false); w.onApi = nullptr;
    if (app.racedInScrape) c.label("raced with a scrape"); if (unreadAtExit) c.label("unread output at the exit");
    auto closedSrv = [&](int i) { for (auto &p : w.allPipes) { if (p->rec.name == libName(s.wp, i + 1)) return p->serverClosed; } return false; };
    auto waitFor = [&](const std::function<bool()> &f, int ms) { for (int i = 0; i < ms && !f(); ++i) tick(1); return f(); };
    auto settleAll = [&] { size_t last = ~(size_t)0; int quiet = 0; for (int i = 0; i < 60000 && quiet < 600; ++i) { tick(1); size_t n = fed[0].size() + fed[1].size(); quiet = n == last ? quiet + 1 : 0; last = n; } };
    auto complete = [&](int i, const char *at) {
        std::vector<std::string> seen; for (size_t y = 0; y < st[i].t->lines.size(); ++y) { std::string r = st[i].t->rowText((int)y); size_t p = r.find(std::string("<") + st[i].kind); if (p != std::string::npos) seen.push_back(r.substr(p)); }
        for (int n = 0; n < std::max(st[i].printed, (int)seen.size()); ++n) { std::string want = n < st[i].printed ? line(st[i].kind, n) : "(nothing)", got = n < (int)seen.size() ? seen[n] : "(nothing)"; while (!got.empty() && got.back() == ' ') got.pop_back(); if (want != got) c.fail("%s: line %d of %d on the %s stream is %s instead of %s", at, n, st[i].printed, i ? "error" : "output", esc(got).c_str(), want.c_str()); }
        if (!st[i].t->errors.empty()) c.fail("the stream misbehaves: %s", st[i].t->errors[0].c_str());
    };
    auto ended = [&](int i) { return st[i].e->ok() && st[i].e->eof(); };
    auto alive = [&](const char *at, bool mayResize) { if (s.agent->exited) c.fail("%s: the agent has exited", at); int arr[10]; Call r; if (!w.call([&] { r = libProcList(s.wp, arr, 10); }, 100000)) c.fail("%s: the process list call does not return", at); if (r.hasErr) c.fail("%s: the process list call fails with code %u", at, r.code); if (mayResize && c.chance(50)) { Call q; int cc = c.range(1, 120), rr = c.range(1, 60); w.call([&] { q = libSetSize(s.wp, cc, rr); }, 100000); if (!q.ok) c.fail("%s: set_size fails", at); c.label("resized after the exit"); return true; } return false; };
    bool late = false;
    for (int phase = 3; phase <= 4; ++phase) {
        bool pend[2] = {when[0] > phase - 1 && when[0] != 9, two && when[1] > phase - 1};      // not connected yet
        if (pend[0] || pend[1]) {
            for (int k = c.skewed(1, 1500); k > 0; --k) tick(1);
            for (int i = 0; i < ns; ++i) if (pend[i] && closedSrv(i)) c.fail("the %s pipe was closed before the client had connected to it", i ? "CONERR" : "CONOUT");
            if (s.agent->exited) c.fail("the agent exited before the client had read the output");
            if (phase == 4 && !exitAfter && c.chance(30) ) alive("before the client connected", false);
            late = true;
        }
        conn(phase);
    }
    if (late) c.label("connected after the exit");
    bool both = true;
    if (autoS) {
        auto done = [&] { for (int i = 0; i < ns; ++i) if (!ended(i)) return false; return true; };
        if (!waitFor(done, 30000)) { settleAll(); if (!done()) for (int i = 0; i < ns; ++i) if (!ended(i)) c.fail("the %s stream does not end after the program's exit (%zu bytes unread)", i ? "error" : "output", st[i].e->unread()); }
        both = done(); for (int i = 0; i < ns; ++i) complete(i, "at the end of the stream");
        for (int i = 0; i < ns; ++i) if (st[i].t->mouse1000 || st[i].t->mouse1002 || st[i].t->mouse1003 || st[i].t->mouse1006 || st[i].t->mouse1015) c.fail("the terminal is left in mouse mode at the end of the stream");
        if (!title.empty() && !(o.flags & F_PLAIN) && (s.term.titles.empty() || s.term.titles.back() != u8(title))) c.fail("the last title '%s' did not arrive before the end: '%s'", u8(title).c_str(), s.term.titles.empty() ? "" : esc(s.term.titles.back()).c_str());
        endChecked = true;
        if (exitAfter) { w.run([&] { return s.agent->exited; }, 5000); if (!s.agent->exited) c.fail("the agent does not exit after the shutdown"); if (w.agentAsserted) c.fail("internal assertion failed in the agent: %s", w.agentAssertText.c_str()); c.label("agent exited as requested"); }
        else { for (int k = 0; k < 300; ++k) tick(1); alive("after the shutdown", true); for (int k = 0; k < 100; ++k) tick(1); c.label("agent stays"); }
    } else {
        settleAll(); for (int i = 0; i < ns; ++i) complete(i, "after the exit");
        bool rs = alive("after the exit without shutdown", true); for (int k = 0; k < 100; ++k) tick(1);
        if (!rs) { app.flush(); print(0, 5); app.flush(); settleAll(); complete(0, "after more output"); c.label("output after the exit"); }
        c.label("streams stay open");
    }
    if (!(exitAfter && s.agent->exited)) s.checkClean();
    if (w.closedWithIo) c.fail("a pipe was closed with I/O in flight");
    if (total > 0 && (both || !autoS)) c.nontrivial(); (void)endChecked;
    s.out.close(); s.err.close(); s.free(); w.run([&] { return s.agent->exited; }, 20000); if (!s.agent->exited) c.fail("the agent does not end");
}
static pbt::Registrar r20({"C20", "random programs printing numbered lines to one or two streams and exiting right after (also in the middle of a scrape), all spawn flags, clients that connect early, late or very late and read fast, in small pieces or in bursts; every line must arrive exactly once, in order, before the end of the stream. Non-trivial: lines were printed.", c20, 5, 4000, 60000, 10, {"raced with a scrape", "unread output at the exit", "connected after the exit", "agent exited as requested", "agent stays", "streams stay open", "another program still on the console", "output after the exit"}});

// ---- C22
struct Ev { uint64_t t; int kind; std::function<void()> f; std::string keys; int cols = 0, rows = 0; };       // kind 0 at a time, 1 inside the agent's next scrape, 2 keys, 3 resize
struct Run { std::string out, err, keys; uint64_t ms = 0; bool blocked = false; size_t pended = 0; int evs = 0; };
Run c22run(pbt::Ctx &c, const Config &cfg, const Opts &o0, bool variant, size_t from) {
    World &w = reset(cfg); Opts o = o0; Session s(c, w, o); s.open(); s.spawn(SPAWN_AUTO_SHUTDOWN); w.runFor(200); Run r;
    std::string got[2]; Reader rd; bool stallAll = false;
    auto read = [&](bool all) { if (stallAll && !all) return; size_t k = all ? (size_t)-1 : variant ? rd.want(w.now) : (size_t)-1; if (k) { got[0] += s.out.read(k); if (s.err.ok()) got[1] += s.err.read(k); } };
    auto tick = [&](bool all) { w.runFor(1); if (s.out.unread() > 60000 || (w.pol.quotaMode == 2 && s.out.unread())) r.blocked = true; read(all); };
    read(true);
    // the history
    App app(s); std::shared_ptr<Buffer> bufs[2] = {s.buf, s.errBuf}; std::vector<Ev> evs; draw::Kinds k; k.bigOutput = true; uint64_t t = 0; int lines = 0; bool two = o.flags & F_CONERR;
    if (variant) c.again(from);
    int n = c.chance(30) ? c.range(20, 70) : c.skewed(4, 40); k.maxLines = 700; std::shared_ptr<Buffer> third;
    for (int i = 0; i < n; ++i) {
        t += c.chance(50) ? 0 : c.skewed(0, 120);
        switch (c.weighted({10, 4, 2, 1, 1, 1})) {
        case 0: case 1: { auto b = bufs[two ? c.choose(2) : 0]; bool in = c.chance(25); size_t q = app.q.size(); lines += draw::addOp(c, app, b, k); while (app.q.size() > q) { evs.push_back({t, in ? 1 : 0, app.q[q], ""}); app.q.erase(app.q.begin() + q); } if (lines > 1200) { lines = 0; t += 80; } break; }
        case 2: { std::string ks; int m = c.skewed(1, 60); for (int j = 0; j < m; ++j) ks += (char)('a' + (j * 7 + i) % 26); evs.push_back({t, 2, nullptr, ks}); break; }
        case 3: { int cc = c.range(30, 120), rr = c.range(4, 50); Ev e{t, 3, nullptr, ""}; e.cols = cc; e.rows = rr; evs.push_back(e); t += 5000; break; }
        case 4: { U16 ti = u"title " + u16(std::to_string(i)); evs.push_back({t, 0, [&w, &s, ti] { s.con->title = ti; }, ""}); break; }
        case 5: { bool other = c.chance(60); evs.push_back({t, 0, [&s, &third, &w, bufs, other, o] { if (!third) { third = s.con->newBuffer(); third->init(70, 40); third->win = Rect{0, 0, 69, std::min(39, s.con->active->win.h() - 1)}; w.addHandle(s.child, third, "screen buffer"); } s.con->active = other ? third : bufs[0]; }, ""}); break; }
        }
    }
    bool volume = c.chance(7); if (volume) { int m = c.range(4, 14); for (int i = 0; i < m; ++i) { t += 100 + c.choose(60); int nl = c.range(100, 1500); auto b = bufs[0]; evs.push_back({t, 0, [b, nl, i] { for (int j = 0; j < nl; ++j) b->write(u16(std::to_string(i * 10000 + j) + std::string((j * 13 + i) % 90, 'a' + j % 26) + "\r\n")); }, ""}); } }
    bool exits = c.chance(60);
    if (variant) c.againEnd();
    if (variant) { w.pol = genPolicy(c); rd.gen(c); stallAll = c.chance(volume ? 60 : 30); r.evs = n; }
    Policy pol = w.pol;
    std::deque<std::function<void()>> inScrape; w.onApi = [&](const char *api) { if (inScrape.empty() || w.cur->proc != s.agent || s.con->frozen || !strstr(api, "ReadConsoleOutputW")) return; auto f = std::move(inScrape.front()); inScrape.pop_front(); f(); };
    uint64_t t0 = w.now; std::string typed; auto keysSeen = [&] { std::string v; for (auto &e : s.con->log) if (e.type == InEv::Key && e.down && e.ch >= 'a' && e.ch <= 'z') v += (char)e.ch; return v; };
    for (auto &e : evs) {
        while (w.now < t0 + e.t) tick(false);
        for (int i = 0; i < 2000 && s.con->frozen; ++i) tick(false);
        if (e.kind == 0) e.f(); else if (e.kind == 1) inScrape.push_back(e.f);
        else if (e.kind == 2) { s.in.write(e.keys); typed += e.keys; if (variant) { size_t want = typed.size(); uint64_t lim = 500 + want * (pol.maxDelay + 2) * 2; w.timers.insert({w.now + lim, [&, want, lim] { if (keysSeen().size() < want) c.fail("%zu typed characters have not arrived after %d ms (%s)", want - keysSeen().size(), (int)lim, s.out.unread() ? "while the output is blocked" : "output is not blocked"); }}); } }
        else { for (int i = 0; i < 4000; ++i) { tick(true); } if (w.now > t0 + e.t + 4500) c.fail("timeline slipped"); while (w.now < t0 + e.t + 4500) tick(true); w.pol = Policy(); w.call([&] { libSetSize(s.wp, e.cols, e.rows); }); w.pol = pol; }
    }
    for (int i = 0; i < (stallAll ? 600 : 200); ++i) tick(false);
    size_t last = ~(size_t)0; int quiet = 0; for (int i = 0; i < 200000 && quiet < 500; ++i) { tick(true); size_t m = got[0].size() + got[1].size(); quiet = m == last ? quiet + 1 : 0; last = m; }
    if (exits) { w.killProcess(s.child, 0, false); for (int i = 0; i < 5000 && !(s.out.eof() && (!two || s.err.eof())); ++i) tick(true); if (!s.out.eof()) c.fail("the output stream does not end"); }
    w.onApi = nullptr; s.checkClean(); if (w.closedWithIo) c.fail("a pipe was closed with I/O in flight");
    r.out = got[0]; r.err = got[1]; r.keys = keysSeen(); if (r.keys != typed) c.fail("typed '%s', the console received '%s'", typed.c_str(), r.keys.c_str()); r.ms = w.now - t0; w.timers.clear();
    if (variant) { if (s.child && exits) c.label("stream ended"); if (!typed.empty()) c.label("keys typed"); if (stallAll) c.label("not read until the end"); if (pol.pendPct) c.label("pending operations"); if (pol.quotaMode == 2) c.label("tiny pipe buffers"); }
    return r;
}
void c22(pbt::Ctx &c) {
    Config cfg = genConfig(c); Opts o; o.flags = (c.chance(25) ? F_CONERR : 0) | (c.chance(20) ? F_PLAIN : 0) | (c.chance(30) ? F_COLOR : 0); o.mouseMode = (int)c.choose(3);
    size_t from = c.pos(); Run a = c22run(c, cfg, o, false, 0); Run b = c22run(c, cfg, o, true, from);
    auto cmp = [&](const std::string &x, const std::string &y, const char *nm) { if (x == y) return; size_t p = 0; while (p < x.size() && p < y.size() && x[p] == y[p]) ++p; size_t f = p > 30 ? p - 30 : 0; c.fail("the bytes on the %s stream depend on how they are read: from byte %zu of %zu / %zu on: immediate [%s], otherwise [%s]", nm, p, x.size(), y.size(), esc(x.substr(f, 80)).c_str(), esc(y.substr(f, 80)).c_str()); };
    cmp(a.out, b.out, "output"); cmp(a.err, b.err, "error");
    if (b.blocked) c.label("output was blocked"); if (b.out.size() > 200) c.nontrivial(); if (b.out.size() > 65536) c.label("more than 64 KB");
}
static pbt::Registrar r22({"C22", "a random history of drawing (also inside scrapes), keys, titles, buffer switches and resizes is run twice at the same virtual times: once with immediate I/O, once with a random I/O schedule (pending, partial and delayed completions, small buffers) and a slow or stalled reader; the byte streams must be equal. Non-trivial: more than 200 bytes of output.", c22, 5, 3000, 50000, 10, {"output was blocked", "stream ended", "keys typed", "not read until the end", "pending operations", "tiny pipe buffers", "more than 64 KB"}});
}
