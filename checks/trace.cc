// C33 debug tracing: the same session with and without it, and what the debug server shows of it.
#include "model/session.h"
#include <algorithm>
#include <set>
#include <map>
#include <string.h>
using namespace session;
namespace {
struct St { int kind; int a, b; std::string s; };
const char *kinds[] = {"output", "clear", "cursor", "title", "input mode", "buffer size", "set_size", "process list", "failing spawn", "spawn", "input", "wait", "scroll", "selection"};
const char *keys[] = {"abc", "\r", "\x03", "\x1b", "\x1b[A", "\x1b[1;5C", "\x1bOP", "\xC3\xA9\xE2\x82\xAC", "\xF0\x9F\x98\x80", "\xff\x80", "\x1b[M !!", "\x1b[<0;3;4M", "\x1b[<0;3;4m", "\x1b[200~", "\x1bx", "\x7f", "\x1a", "\x1b[9999;1R", "\t", "%s%n%d"};
struct Rec { std::vector<std::string> lines; void add(const std::string &s) { lines.push_back(s); } };
struct Plan33 { Config cfg; Opts o; std::vector<St> steps; bool childFirst = true; int server = 0, killAt = -1; bool hog = false; std::vector<std::pair<int, int>> hogAt; };
std::string snap(Session &s) {
    std::string r = "screen top " + std::to_string(s.term.top) + " cursor " + std::to_string(s.term.cx) + "," + std::to_string(s.term.cy) + (s.term.cursorVisible ? "" : " hidden") + " clears " + std::to_string(s.term.clears);
    for (size_t i = 0; i < s.term.lines.size(); ++i) r += "\n      " + s.term.rowText((int)i);
    for (auto &e : s.term.errors) r += "\n    error " + e;
    r += "\n    title " + (s.term.titles.empty() ? std::string("-") : s.term.titles.back()) + "\n    input:"; for (auto &e : s.con->log) r += "\n      " + e.str();
    char t[200]; auto &b = *s.con->active; snprintf(t, sizeof t, "\n    buffer %dx%d window %d,%d..%d,%d input mode 0x%x", b.w, b.h, b.win.l, b.win.t, b.win.r, b.win.b, s.con->inMode); r += t;
    if (!s.termErr.errors.empty()) r += "\n    conerr error " + s.termErr.errors[0];
    return r;
}
std::string callStr(const Call &r) { return std::string(r.ok ? "ok" : "not ok") + (r.hasErr ? " error " + std::to_string(r.code) + " " + u8(r.msg) : "") + " creation error " + std::to_string(r.createErr); }
Rec run(pbt::Ctx &c, const Plan33 &p, const std::string &flags, const Fault *f, Process *&srv, World *&wOut, bool count) {
    Rec rec; Config cfg = p.cfg; cfg.debug = flags; World &w = reset(cfg); wOut = &w; w.crashIsDeath = true; w.countFallible = count; if (f) w.faults.push_back(*f);
    srv = nullptr; if (p.server) { srv = startDebugServer({"winpty-debugserver.exe"}); w.runFor(5); }
    if (p.hog && srv) { // somebody else keeps the server busy now and then
        auto held = std::make_shared<Ext>();
        for (auto &ha : p.hogAt) { int at = ha.first; w.timers.insert({w.now + at, [held] { if (!held->end) { held->open(u"\\\\.\\pipe\\DebugServer", true, true, 7777); } }}); w.timers.insert({w.now + at + ha.second, [held] { if (held->end) { held->close(); *held = Ext(); } }}); }
    }
    Call r; void *wp = nullptr; bool back = w.call([&] { r = libOpen(p.o, &wp); }, 400000); w.runFor(100); if (!back) { rec.add("winpty_open does not return"); return rec; }
    rec.add("open: " + callStr(r) + (wp ? "" : " null")); if (!wp) return rec;
    Session s(c, w, p.o); s.wp = wp; s.agent = w.agent(0); auto v = w.agents(); if (!v.empty()) s.agent = v.back(); s.con = s.agent->con; if (!s.con) { rec.add("the agent has no console"); w.call([&] { libFree(wp); }, 400000); s.wp = nullptr; return rec; }
    s.connect(); s.buf = s.con->active; Process *child = nullptr; bool failSpawn = false; w.onSpawn = [&](CreateRec &) -> uint32_t { return failSpawn ? 2 : 0; };
    Console *con = s.con; bool dead = false; int idx = 0;
    auto settle = [&] { s.settle(); if (p.hog) { s.run(500); s.settle(); } };
    for (auto &st : p.steps) {
        if (idx++ == p.killAt && srv) w.killProcess(srv, 1, true);
        if (s.agent->exited) { dead = true; }
        std::string res; Buffer &b = *con->active;
        switch (st.kind) {
        case 0: if (!dead) for (int i = 0; i < st.a; ++i) b.write(u16(st.s + " " + std::to_string(i) + ((i + st.b) % 7 ? "\n" : "\r\n\n"))); break;
        case 1: if (!dead) { for (auto &x : b.cells) x = Cell{' ', (uint16_t)(st.b & 0xff)}; b.cx = b.win.l; b.cy = b.win.t; } break;
        case 2: if (!dead) { b.cx = st.a % b.w; b.cy = b.win.t + st.b % b.win.h(); } break;
        case 3: if (!dead) con->title = u16(st.s); break;
        case 4: if (!dead) con->inMode = (con->inMode & ~0x217u) | (st.a & 0x217); break;
        case 6: { if (!w.call([&] { r = libSetSize(wp, st.a, st.b); }, 400000)) res = "does not return"; else res = callStr(r); break; }
        case 7: { int a[20]; if (!w.call([&] { r = libProcList(wp, a, 20); }, 400000)) res = "does not return"; else { res = callStr(r) + " " + std::to_string(r.n); for (int i = 0; i < r.n && i < 20; ++i) res += " " + std::to_string(a[i]); } break; }
        case 8: case 9: { SpawnArgs a; a.wantErr = true; failSpawn = st.kind == 8; if (!w.call([&] { r = libSpawn(wp, a); }, 400000)) res = "does not return"; else { res = callStr(r); if (r.ok && !w.creates.empty()) { child = w.creates.back().child; if (child && child->con) con = s.con = child->con; } } failSpawn = false; break; }
        case 10: if (s.in.ok()) s.in.write(st.s); break;
        case 11: s.run(st.a); break;
        case 12: if (!dead) for (int i = 0; i < st.a; ++i) b.write(u"x\n"); break;
        case 13: if (!dead) { con->selection(true, st.a & 1); s.run(60); con->selection(false, st.a & 1); } break;
        }
        settle(); dead = s.agent->exited || !s.con;
        rec.add(std::string(kinds[st.kind]) + ": " + res + (dead ? " (agent gone, status " + std::to_string(s.agent->exitCode) + ")" : "\n    " + snap(s)));
        if (dead) break;
    }
    if (!dead && child && !child->exited) { w.killProcess(child, 3, false); settle(); s.run(3000); rec.add(std::string("child gone: agent ") + (s.agent->exited ? "gone" : "there") + (s.out.eof() ? ", output ended" : ", output open")); }
    w.call([&] { libFree(wp); }, 400000); s.wp = nullptr; s.in.close(); s.out.close(); s.err.close(); w.run([&] { return s.agent->exited; }, 60000);
    rec.add(std::string("freed: agent ") + (s.agent->exited ? "gone" : "there") + ", handles " + std::to_string(w.client->table.size()));
    w.runFor(100);
    for (auto &q : w.problems) rec.add("misuse: " + q);
    if (w.agentAsserted) rec.add("assertion " + w.agentAssertText);
    return rec;
}
void c33(pbt::Ctx &c) {
    Plan33 p; p.cfg = genConfig(c); p.o.flags = (c.chance(20) ? F_CONERR : 0) | (c.chance(15) ? F_PLAIN : 0) | (c.chance(40) ? F_DESKTOP : 0); p.o.mouseMode = (int)c.choose(3); p.o.cols = c.range(30, 100); p.o.rows = c.range(5, 40);
    if (c.chance(15)) p.cfg.showConsoleEnv = true;
    if (c.chance(4)) p.cfg.agentExeExists = false;
    int n = c.skewed(1, 14); bool spawned = false;
    for (int i = 0; i < n; ++i) {
        St st; st.kind = (int)c.weighted({5, 1, 1, 2, 2, 0, 3, 2, 2, 3, 6, 1, 1, 1}); st.a = c.range(1, 40); st.b = c.range(0, 120);
        if (st.kind == 9) { if (spawned) st.kind = 0; spawned = true; }
        if (st.kind == 0) { static const char *t[] = {"hello world", "100%s done %n", "a", "[%d]", "wide \xE6\xBC\xA2 text"}; st.s = t[c.choose(5)]; }
        if (st.kind == 3) { static const char *t[] = {"prompt", "%s%s%s%n", "", "C:\\x - y", "\xC3\xA9\xC3\xA9"}; st.s = t[c.choose(5)]; if (c.chance(10)) st.s = std::string(c.range(200, 1500), 'T'); }
        if (st.kind == 4) st.a = (int)c.choose(0x218);
        if (st.kind == 6) { st.a = c.range(20, 120); st.b = c.range(3, 50); }
        if (st.kind == 10) { int k = c.skewed(1, 6); for (int j = 0; j < k; ++j) st.s += keys[c.choose(20)]; if (c.chance(8)) st.s += std::string(c.chance(50) ? c.range(40, 250) : c.range(100, 3000), 'k'); }
        if (st.kind == 12) st.a = c.chance(10) ? 3100 : c.range(30, 600);
        p.steps.push_back(st); c.note("%s %d %d %s", kinds[st.kind], st.a, st.b, esc(st.s.substr(0, 60)).c_str());
    }
    p.server = c.chance(65); if (p.server && c.chance(20)) p.killAt = (int)c.choose(n);
    if (p.server && c.chance(20)) { p.hog = true; int k = c.range(1, 5); for (int i = 0; i < k; ++i) p.hogAt.push_back({c.chance(60) ? c.range(0, 12) : c.range(0, 900), c.chance(50) ? 15 : c.range(1, 300)}); }
    static const char *on[] = {"trace", "1", "trace,input", "input,trace", "x,trace,y", "trace,dump_input_map", "input,1"}; static const char *off[] = {"input", "tracex", "TRACE", "race", "dump_input_map", "11", "trace ", ",,"};
    bool enabled = c.chance(85); std::string flags = enabled ? on[c.choose(7)] : off[c.choose(8)];
    c.note("%s, WINPTY_DEBUG=%s, %s%s", osName(p.cfg.os), flags.c_str(), p.server ? "debug server running" : "no debug server", p.killAt >= 0 ? " until it is killed" : p.hog ? ", sometimes busy" : "");
    Process *srv; World *w; Fault f; bool fault = !p.hog && c.chance(40);
    if (fault) {
        run(c, p, "", nullptr, srv, w, true); std::vector<std::string> names;
        for (auto &x : w->fallibleLog) { size_t k = x.find(':'); std::string pr = x.substr(0, k), api = x.substr(k + 1); static const std::set<std::string> agentApis = {"WriteConsoleInputW", "ReadConsoleOutputW", "GetConsoleScreenBufferInfo", "GetConsoleCursorInfo", "GetConsoleTitleW", "SetConsoleWindowInfo", "SetConsoleScreenBufferSize", "FillConsoleOutputAttribute", "FillConsoleOutputCharacterW", "WriteConsoleOutputW", "SetConsoleCursorPosition", "GetConsoleMode", "SetConsoleMode", "CreateProcessW", "OpenProcess", "DuplicateHandle", "CreateNamedPipeW", "GetConsoleProcessList", "SetConsoleTextAttribute", "SetConsoleTitleW", "SendMessageW", "AllocConsole", "PostMessageW"}, libApis = {"CreateNamedPipeW", "CreateProcessW", "GetNamedPipeClientProcessId", "OpenProcessToken", "GetTokenInformation", "CopySid", "SetEntriesInAclW", "CreateWindowStationW", "CreateDesktopW", "CryptAcquireContextW", "CryptGenRandom"};
            if (pr == "agent" ? !agentApis.count(api) : pr != "client" || !libApis.count(api)) continue;
            names.push_back(x); }
        std::vector<std::string> uniq = names; std::sort(uniq.begin(), uniq.end()); uniq.erase(std::unique(uniq.begin(), uniq.end()), uniq.end());
        if (uniq.empty()) fault = false; else { f.api = uniq[c.choose(uniq.size())]; f.nth = 1 + (int)c.choose((int)std::min<long>(std::count(names.begin(), names.end(), f.api), 40)); static const uint32_t errs[] = {5, 8, 109, 232, 1450, 87}; f.err = errs[c.choose(6)]; c.note("%s call %d fails with %u", f.api.c_str(), f.nth, f.err); }
    }
    Rec a = run(c, p, "", fault ? &f : nullptr, srv, w, false); if (srv && !w->stdio[srv].out.empty()) c.fail("a message is sent although tracing is off: %s", esc(w->stdio[srv].out.substr(0, 100)).c_str());
    bool hitA = !w->faultsHit.empty();
    Rec b = run(c, p, flags, fault ? &f : nullptr, srv, w, false); bool hitB = !w->faultsHit.empty();
    if (fault && hitA) c.label("fault");
    if (!(fault && hitA != hitB)) for (size_t i = 0; i < std::max(a.lines.size(), b.lines.size()); ++i) {
        std::string x = i < a.lines.size() ? a.lines[i] : "(nothing)", y = i < b.lines.size() ? b.lines[i] : "(nothing)";
        // which error a dying agent causes depends on when it dies
        if (fault && x.find("not ok error") != std::string::npos && y.find("not ok error") != std::string::npos && x.substr(0, x.find("error")) == y.substr(0, y.find("error"))) { if (x.find("\n") == std::string::npos || y.find("\n") == std::string::npos || x.substr(x.find("\n")) == y.substr(y.find("\n"))) continue; }
        if (x != y) { size_t d = 0; while (d < x.size() && d < y.size() && x[d] == y[d]) ++d; size_t l = x.rfind('\n', d); l = l == std::string::npos ? 0 : l + 1; c.fail("with WINPTY_DEBUG=%s the session goes differently, from step %d on (%s)\n  without: %s\n  with:    %s", flags.c_str(), (int)i, x.substr(0, x.find('\n')).substr(0, 200).c_str(), esc(x.substr(l, 160)).c_str(), esc(y.substr(std::min(l, y.size()), 160)).c_str()); }
    } else c.label("fault moved");
    // ---- a busy server costs time but no message: what the library sends does not depend on it
    if (p.hog && enabled) {
        auto bodies = [](World &w, Process *srv) { std::vector<std::string> v; for (auto &q : w.allPipes) if (q->rec.ownerPid == srv->pid) for (size_t i = 0; i < q->accepted.size(); ++i) if (q->acceptedPid[i] == w.client->pid) { size_t k = q->accepted[i].find("]: "); std::string m = k == std::string::npos ? q->accepted[i] : q->accepted[i].substr(k + 3); k = m.find("\\\\.\\pipe"); /* the pipe's name is random */ v.push_back(m.substr(0, k)); } return v; };
        std::vector<std::string> busy = bodies(*w, srv); Plan33 p2 = p; p2.hog = false; run(c, p2, flags, nullptr, srv, w, false); std::vector<std::string> idle = bodies(*w, srv);
        if (busy != idle) { size_t i = 0; while (i < busy.size() && i < idle.size() && busy[i] == idle[i]) ++i; c.fail("the library sends %d trace messages while the debug server is sometimes busy, %d otherwise; number %d: %s / %s", (int)busy.size(), (int)idle.size(), (int)i, i < busy.size() ? esc(busy[i].substr(0, 100)).c_str() : "none", i < idle.size() ? esc(idle[i].substr(0, 100)).c_str() : "none"); }
        c.label("server busy"); if (idle.size()) c.nontrivial(); return;
    }
    // ---- what the server shows
    if (!srv) { c.label("no server"); if (a.lines.size() > 3) c.nontrivial(); return; }
    std::shared_ptr<PipeInst> pi; for (auto &q : w->allPipes) if (q->rec.ownerPid == srv->pid) pi = q;
    std::map<int, long> last; bool fromClient = false, fromAgent = false; long base = -1; (void)base; std::set<int> agents; for (auto *q : w->agents()) agents.insert(q->pid);
    if (!enabled && !pi->accepted.empty()) c.fail("WINPTY_DEBUG=%s sends trace messages: %s", flags.c_str(), esc(pi->accepted[0]).c_str());
    for (size_t i = 0; i < pi->accepted.size(); ++i) {
        const std::string &m = pi->accepted[i]; int s1, ms, pid, tid, used = 0; char mod[300];
        if (m.size() > 1023) c.fail("a trace message has %d bytes", (int)m.size());
        if (m.find('\0') != std::string::npos) c.fail("a trace message contains a NUL");
        if (sscanf(m.c_str(), "[%5d.%3d %299[^,],p%d,t%d]: %n", &s1, &ms, mod, &pid, &tid, &used) < 5 || !used) c.fail("a trace message is not in the documented form: %s", esc(m.substr(0, 120)).c_str());
        if (pid != pi->acceptedPid[i]) c.fail("a trace message of process %d says process %d: %s", pi->acceptedPid[i], pid, esc(m.substr(0, 120)).c_str());
        if (strchr(mod, '\\')) c.fail("the module name in a trace message has a path: %s", esc(m.substr(0, 120)).c_str());
        long t = (long)s1 * 1000 + ms; if (last.count(tid) && t < last[tid]) c.fail("the trace messages of a thread go back in time: %s", esc(m.substr(0, 120)).c_str()); last[tid] = t;
        if (agents.count(pid)) fromAgent = true; else if (pid == w->client->pid) fromClient = true; else c.fail("a trace message comes from process %d", pid);
    }
    if (p.killAt < 0 && srv->exited) c.fail("the debug server ended (status %d): %s", srv->exitCode, w->stdio[srv].err.c_str());
    if (enabled && p.killAt < 0 && !fault && p.cfg.agentExeExists && (!fromClient || !fromAgent)) c.fail("WINPTY_DEBUG=%s: no message comes from the %s", flags.c_str(), fromClient ? "agent" : "library");
    // ---- trace,input shows every byte that was typed
    if (!fault && p.killAt < 0 && enabled && ("," + flags + ",").find(",input,") != std::string::npos && a.lines.back().find("freed") != std::string::npos) {
        std::string typed, seen; bool whole = true; for (auto &st : p.steps) if (st.kind == 10) typed += st.s; for (auto &l : a.lines) if (l.find("(agent gone") != std::string::npos) whole = false;
        for (auto &m : pi->accepted) { size_t k = m.find("]: input chars: "); if (k == std::string::npos) continue; if (m.size() >= 1000) { whole = false; break; }
            size_t op = m.rfind(" ("); if (op == std::string::npos || m.back() != ')') { c.fail("a message is cut: %s", esc(m).c_str()); } for (size_t i = op + 2; i + 1 < m.size(); i += 3) seen += (char)strtol(m.substr(i, 2).c_str(), nullptr, 16); }
        if (whole && typed.size() < 900 && seen != typed) { size_t d = 0; while (d < seen.size() && d < typed.size() && seen[d] == typed[d]) ++d; c.fail("the trace shows %d input bytes of %d, the first difference is at byte %d", (int)seen.size(), (int)typed.size(), (int)d); }
        if (whole && typed.size()) c.label("input traced");
    }
    if (p.killAt < 0) { std::string want; for (auto &m : pi->accepted) want += m + "\n"; if (w->stdio[srv].shown != want) c.fail("the server shows %d bytes of the %d it was sent", (int)w->stdio[srv].shown.size(), (int)want.size()); }
    c.label(!enabled ? "tracing not asked for" : p.killAt >= 0 ? "server killed" : p.hog ? "server busy" : "server running"); if (a.lines.size() > 3 && (enabled ? !pi->accepted.empty() : true)) c.nontrivial();
}
}
static pbt::Registrar r33({"C33", "random sessions (output, titles, modes, resizes, input, library calls, failing system calls) run twice, without and with WINPTY_DEBUG tracing, with no debug server, a running one, one that is killed or kept busy; every result, the final screen, scrollback, title and console input must be the same, and every trace message must be whole and in the documented form. Non-trivial: three steps or more were compared and messages arrived where they should.", c33, 5, 1500, 20000, 15, {"no server", "server running", "server killed", "server busy", "tracing not asked for", "fault", "input traced"}});
