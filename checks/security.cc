// C21 private pipes, C26 concurrent calls, C30 hidden desktop.
#include "model/scn.h"
#include "model/wire.h"
#include <windows.h>
#include <set>
#undef min
#undef max
using namespace session;
using namespace scn;
using wire::Enc; using wire::Dec;
namespace {
bool onDesktop(const Config &cfg) { return (cfg.os == OS_VISTA || cfg.os == OS_XP) && !cfg.showConsoleEnv; }
// ---- C21
void checkPipes(pbt::Ctx &c, World &w) {
    std::set<U16> names; std::set<std::string> used;
    for (auto &r : w.pipeRecs) {
        std::string n = u8(r.name), low; for (char k : n) low += (char)tolower(k); const char *q = n.c_str();
        if (low.compare(0, 9, "\\\\.\\pipe\\")) c.fail("the pipe name '%s' is not local", q);
        if (!names.insert(r.name).second) c.fail("the pipe name '%s' is used twice", q);
        if (!w.cfg.randomFails) {
            bool ok = false; for (auto &h : w.randomHex) if (h.size() >= 32 && low.find(h) != std::string::npos && used.insert(h).second) { ok = true; break; }
            if (!ok) c.fail("the pipe name '%s' does not contain 16 random bytes of its own", q);
        }
        if (!(r.openMode & FILE_FLAG_FIRST_PIPE_INSTANCE)) c.fail("the pipe '%s' may be a further instance of somebody else's pipe", q);
        if (r.maxInst != 1) c.fail("the pipe '%s' allows %u instances", q, r.maxInst);
        bool can = w.cfg.os != OS_XP; if (can != !!(r.pipeMode & 8)) c.fail(can ? "the pipe '%s' accepts remote clients" : "the pipe '%s' is created with a flag the system does not know", q);
        if (!r.hasSd || !r.daclPresent) c.fail("the pipe '%s' has no access list", q);
        std::set<std::string> who; static const std::set<std::string> allowed = {"S-1-5-18", "S-1-5-32-544", w.ownerSid()};
        for (auto &a : r.aces) if (a.type == 0) { if (!allowed.count(a.sid)) c.fail("the pipe '%s' grants access (%x) to %s", q, a.mask, a.sid.c_str()); who.insert(a.sid); }
        if (!who.count(w.ownerSid())) c.fail("the pipe '%s' does not grant access to its owner", q);
        if (r.inheritHandle) c.fail("the handle of the pipe '%s' is inherited by child processes", q);
    }
}
void c21(pbt::Ctx &c) {
    Config cfg = genConfig(c); cfg.showConsoleEnv = c.chance(20); cfg.randomFails = c.chance(4); cfg.rtlGenRandom = !c.chance(30);
    World &w = reset(cfg); if (c.chance(40)) w.pol = genPolicy(c, true); w.crashIsDeath = true;
    int mode = c.weighted({4, 3, 3}); int n = 1 + (int)c.choose(3); long at = (long)c.choose(400), cnt = 0; Ext foe; int which = (int)c.choose(4), pipeNo = 0; bool hit = false, sends = c.chance(60), known = false; Opts o; int target = onDesktop(cfg) ? (int)c.choose(2) : 0, ctlNo = 0;
    c.note("%s%s%s", osName(cfg.os), cfg.randomFails ? ", no random numbers" : "", mode == 1 ? ", somebody else connects to the control pipe" : mode == 2 ? ", somebody else owns a pipe of that name" : "");
    std::shared_ptr<PipeInst> foePipe;
    if (mode == 1) w.onApi = [&](const char *) {     // a stranger takes the control pipe between its creation and the agent's connection
        if (hit) return; std::shared_ptr<PipeInst> ctl; int k = 0; for (auto &p : w.allPipes) if (p->rec.ownerPid == w.client->pid) { if (k++ == target) ctl = p; }
        if (!ctl || ctl->everConnected || ctl->serverClosed) return;
        if (cnt++ < at % 40) return;
        if (foe.open(ctl->rec.name, true, true, 4242)) { hit = true; foePipe = ctl; if (sends) { Enc e; e.str(u"\\\\.\\pipe\\evil-in").str(u"\\\\.\\pipe\\evil-out"); if (o.flags & F_CONERR) e.str(u"\\\\.\\pipe\\evil-err"); foe.write(e.done()); } }
    };
    if (mode == 2) w.onCreatePipe = [&](const U16 &) { if (pipeNo++ == which) { hit = true; return true; } return false; };
    std::vector<void *> open; (void)known; (void)ctlNo;
    for (int i = 0; i < n; ++i) {
        o = Opts(); o.flags = (c.chance(50) ? F_CONERR : 0) | (c.chance(40) ? F_DESKTOP : 0); o.timeout = c.chance(50) ? -1 : 3000; void *wp = nullptr; Call r; bool before = hit;
        if (!w.call([&] { r = libOpen(o, &wp); }, 200000)) c.fail("winpty_open did not return");
        bool attacked = hit && !before;
        if (attacked && mode == 1 && cfg.os != OS_XP) { c.label("stranger on the control pipe"); if (wp) c.fail("winpty_open succeeded although the control pipe's client is not the agent"); }
        if (attacked && mode == 2) { c.label("name taken"); if (w.squatted) c.fail("a pipe was opened as a further instance of somebody else's pipe"); if (wp) c.fail("winpty_open succeeded although a pipe name was taken"); }
        if (!wp && !attacked && !cfg.randomFails && !hit) c.fail("winpty_open failed: code %u %s", r.code, u8(r.msg).c_str());
        if (wp) {
            for (int k = 0; k < ((o.flags & F_CONERR) ? 3 : 2); ++k) { U16 nm = libName(wp, k); bool found = false; for (auto &p : w.allPipes) if (p->rec.name == nm && p->rec.ownerPid != w.client->pid) found = true; if (!found && !(hit && mode == 1)) c.fail("the reported pipe '%s' was not created by the agent", u8(nm).c_str()); }
            open.push_back(wp); if (c.chance(30)) { w.call([&] { libFree(wp); }); open.pop_back(); }
            if (c.chance(30)) w.runFor(c.choose(100));
        }
    }
    w.onApi = nullptr; checkPipes(c, w); if (w.squatted) c.fail("a pipe was opened as a further instance of somebody else's pipe");
    if (w.pipeRecs.size() > 4) c.label("several sessions"); if (w.randomHex.empty() == !cfg.randomFails && !cfg.randomFails) c.fail("no random numbers were drawn");
    if (!cfg.rtlGenRandom) c.label("fallback random source"); if (mode == 0 || hit) c.nontrivial();
    for (auto p : open) w.call([&] { libFree(p); }); foe.close();
}
static pbt::Registrar r21({"C21", "one to three sessions on random systems; the creation record of every pipe (name, mode, instances, remote clients, access list, inheritance) is judged; in between a stranger connects to a control pipe before the agent does, or already owns a pipe of the name. Non-trivial: no attack, or the attack took place.", c21, 5, 3000, 40000, 10, {"stranger on the control pipe", "name taken", "several sessions", "fallback random source"}});

// ---- C30
void c30(pbt::Ctx &c) {
    Config cfg = genConfig(c); cfg.showConsoleEnv = c.chance(20); bool direct = c.chance(50); bool want = onDesktop(cfg);
    World &w = reset(cfg); w.crashIsDeath = true; if (c.chance(40)) w.pol = genPolicy(c, true);
    Opts o; o.flags = (direct ? F_DESKTOP : 0) | (c.chance(30) ? F_CONERR : 0) | (c.chance(20) ? F_PLAIN : 0); o.attach = false;
    static const char *fapi[] = {"CreateWindowStationW", "SetProcessWindowStation", "CreateDesktopW", "GetUserObjectInformationW", "GetProcessWindowStation"};
    bool fault = want && c.chance(50); std::string what; if (fault) { Fault f; f.api = std::string(direct ? "client:" : "agent:") + fapi[c.choose(5)]; f.nth = 1; f.err = c.chance(50) ? 5 : 8; w.faults.push_back(f); what = f.api; }
    c.note("%s%s%s%s", osName(cfg.os), cfg.showConsoleEnv ? ", WINPTY_SHOW_CONSOLE" : "", direct ? ", created in the calling process" : "", fault ? (", " + what + " fails").c_str() : "");
    auto ws0 = w.client->winsta; uint64_t h0 = w.client->hWinsta; auto d0 = w.client->desktop; auto base = w.client->table; size_t nd = w.desktops.size(), nw = w.winstas.size(); U16 orig = w.winstas[0]->name + u"\\" + w.desktops[0]->name;
    int sessions = 1 + (int)c.choose(2); std::vector<void *> wps;
    for (int sn = 0; sn < sessions; ++sn) {
        size_t c0 = w.creates.size(), desk0 = w.desktops.size(); void *wp = nullptr; Call r; bool fHere = fault && sn == 0;
        if (!w.call([&] { r = libOpen(o, &wp); }, 100000)) c.fail("winpty_open did not return");
        if (w.client->winsta != ws0 || w.client->hWinsta != h0) c.fail("winpty_open left the caller on another window station");
        if (!wp) c.fail("winpty_open failed%s: code %u %s", fHere ? " instead of falling back to the original desktop" : "", r.code, u8(r.msg).c_str());
        wps.push_back(wp);
        bool hidden = want && !fHere; if (fHere && w.faultsHit.empty()) c.fail("the fault was not reached");
        CreateRec &ag = w.creates.back(); size_t made = w.creates.size() - c0;
        if (made != (want && !direct ? 2u : 1u)) c.fail("%zu processes were started to open the session", made);
        for (size_t i = c0; i < w.creates.size(); ++i) {
            CreateRec &cr = w.creates[i]; bool helper = cr.cmd.find(u"--create-desktop") != U16::npos;
            if (helper != (made == 2 && i == c0)) c.fail("unexpected helper process");
            if (cr.inherit) c.fail("an agent inherits the caller's handles");
            if (helper && cr.hasDesktop) c.fail("the helper was started on another desktop");
            if (!cfg.showConsoleEnv && (!(cr.suiFlags & STARTF_USESHOWWINDOW) || cr.showWindow != 0)) c.fail("the agent's console is not started hidden");
        }
        if (ag.hasDesktop != hidden) c.fail(hidden ? "the agent was not started on a background desktop" : "the agent was started on a desktop of its own");
        Process *agent = ag.child;
        if (hidden) {
            if (agent->desktop == w.desktops[0] || !agent->desktop) c.fail("the agent runs on the original desktop");
            if (agent->desktop->ws == ws0) c.fail("the background desktop is on the caller's window station");
            if (agent->desktop->destroyed) c.fail("the background desktop was destroyed under the agent");
            c.label(direct ? "desktop created in the calling process" : "desktop created by a helper");
        } else { if (agent->desktop != w.desktops[0]) c.fail("the agent does not run on the original desktop"); if (!want && w.desktops.size() != desk0) c.fail("a desktop was created for nothing"); if (fHere) c.label("fell back to the original desktop"); else if (!want) c.label("no desktop needed"); }
        // programs run where the caller is
        w.onSpawn = nullptr; SpawnArgs a; a.flags = 0; Call q; size_t n1 = w.creates.size(); if (c.chance(30)) w.runFor(c.choose(300));
        if (!w.call([&] { q = libSpawn(wp, a); }, 100000) || !q.ok) c.fail("spawn failed: code %u", q.code);
        CreateRec &cr = w.creates[n1]; if (!cr.child || cr.child->desktop != d0) c.fail("the program does not run on the caller's desktop%s", hidden ? "" : " (no background desktop)");
        if (hidden && (!cr.hasDesktop || cr.desktop != orig)) c.fail("the program is started with desktop '%s' instead of '%s'", u8(cr.desktop).c_str(), u8(orig).c_str());
        if (!hidden && cr.hasDesktop && !cr.desktop.empty()) c.fail("the program is started with desktop '%s' although the agent is on the original one", u8(cr.desktop).c_str());
        w.closeHandle(w.client, q.hProc); w.closeHandle(w.client, q.hThread);
        w.runFor(300); int live = 0; for (auto *x : w.agents()) if (!x->exited) ++live; if (live != (int)wps.size()) c.fail("%d agents are running for %zu session(s)", live, wps.size());
        if (hidden && agent->desktop->destroyed) c.fail("the background desktop was destroyed under the agent");
    }
    for (auto wp : wps) w.call([&] { libFree(wp); });
    auto gone = [&] { for (auto *a : w.agents()) if (!a->exited) return false; return true; }; if (!w.run(gone, 20000)) c.fail("an agent is still running");
    if (w.client->table.size() != base.size()) { std::string x; for (auto &kv : w.client->table) if (!base.count(kv.first)) x += std::string(" ") + kv.second.obj->kind(); c.fail("%zu handles are open in the client, %zu before:%s", w.client->table.size(), base.size(), x.c_str()); }
    (void)nd; (void)nw; for (size_t i = 1; i < w.desktops.size(); ++i) { bool held = w.desktops[i]->handles > 0; if (held) c.fail("a background desktop is still held after every session has ended"); }
    if (!fault && w.agentAsserted) c.fail("internal assertion failed in the agent: %s", w.agentAssertText.c_str());
    for (auto &q : w.problems) c.fail("system interface misuse: %s", q.c_str());
    if (want) c.nontrivial();
}
static pbt::Registrar r30({"C30", "sessions on all system versions with and without WINPTY_SHOW_CONSOLE and the in-process flag, under random I/O schedules, with and without a failing step of the desktop creation; the desktop of the agent and of the program, the caller's window station and the fallback are judged. Non-trivial: the system needs a background desktop.", c30, 5, 2500, 30000, 10, {"desktop created in the calling process", "desktop created by a helper", "fell back to the original desktop", "no desktop needed"}});

// ---- C26
struct Op26 { int kind; int a, b; int think; };      // 0 set size, 1 process list, 2 spawn
struct Sess26 {
    void *wp = nullptr; Call r; Process *agent = nullptr; Ext ae; std::string reqs; int no = 0; std::vector<std::string> reqLog, realLog; std::vector<int> listSerials; std::map<int, uint64_t> procOf;
    std::multiset<std::string> expect; bool oneSpawn = false, spawnedOk = false; std::multiset<int> seenSerials; std::set<std::pair<int, int>> sizes, lastOf; std::vector<std::shared_ptr<Process>> helpers; int running = 0;
};
void c26(pbt::Ctx &c) {
    Config cfg = genConfig(c); if (onDesktop(cfg)) cfg.showConsoleEnv = true; bool scripted = c.chance(50); World &w = reset(cfg); Opts o; o.attach = false; o.timeout = 1000000; o.flags = c.chance(20) ? F_CONERR : 0;
    int sessions = 1 + (int)c.weighted({6, 3, 1}); std::vector<std::unique_ptr<Sess26>> ss; for (int i = 0; i < sessions; ++i) ss.emplace_back(new Sess26);
    bool stop = false; std::string badReq; std::vector<int> delays; for (int i = 0; i < 8; ++i) delays.push_back(c.skewed(0, 20)); bool frag = c.chance(50); int started = 0, serial = 0;
    auto answer = [&](Sess26 &S, Process *p, const std::string &pkt, int no) {      // the scripted agent
        Dec d(pkt); int t = d.i32(); Enc e; std::string key;
        if (t == 1) { int x = d.i32(), y = d.i32(); if (!d.end()) { badReq = "malformed resize request"; return; } key = "size " + std::to_string(x) + "x" + std::to_string(y); }
        else if (t == 2) { if (!d.end()) { badReq = "malformed list request"; return; } key = "list"; int ser = serial++, k = 1 + ser % 5; e.i32(k); for (int i = 0; i < k; ++i) e.i32(100000 + ser * 10 + i); S.listSerials.push_back(ser); }
        else if (t == 0) { d.i64(); int wp = d.i32(); d.i32(); d.str(); U16 cmd = d.str(); d.str(); d.str(); d.str(); if (!d.end()) { badReq = "malformed spawn request"; return; } int id = atoi(u8(cmd).c_str() + 4); key = "spawn " + std::to_string(id);
            if (id % 3 == 0) { auto pr = w.newProcess("made" + std::to_string(id), p); e.i32(1).i64(wp ? (int64_t)w.addHandle(p, pr, "made") : 0).i64(0); S.procOf[id] = pr->pid; } else e.i32(0).i32(5000 + id); }
        else { badReq = "unknown request"; return; }
        S.reqLog.push_back(key); Sleep(delays[no % 8]); std::string s = e.done(); if (frag) { size_t h = s.size() / 2; S.ae.write(s.substr(0, h)); Sleep(1); s = s.substr(h); } S.ae.write(s);
    };
    if (scripted) w.agentBody = [&](Process *p) -> int {
        Sess26 &S = *ss[started++ % ss.size()]; S.agent = p;
        U16 cl = p->cmdline; size_t k = cl.find(u"\\\\.\\pipe\\"); U16 name = cl.substr(k, cl.find(u' ', k) - k); if (!S.ae.open(name, true, true, p->pid)) return 1;
        Enc e; e.str(u"\\\\.\\pipe\\i" + u16(std::to_string(p->pid))).str(u"\\\\.\\pipe\\o"); if (o.flags & F_CONERR) e.str(u"\\\\.\\pipe\\e"); S.ae.write(e.done());
        while (!stop) { S.reqs += S.ae.read(); while (S.reqs.size() >= 8) { uint64_t n; memcpy(&n, &S.reqs[0], 8); if (n < 8 || n > (1u << 20)) { badReq = "the request stream is garbled"; return 1; } if (S.reqs.size() < n) break; std::string pkt = S.reqs.substr(0, n); S.reqs.erase(0, n); answer(S, p, pkt, S.no++); if (!badReq.empty()) return 1; } if (S.ae.eof()) { S.ae.close(); return 0; } Sleep(1); }
        S.ae.close(); return 0;
    };
    size_t base0 = w.client->table.size(), perSession = 0; bool together = sessions > 1 && c.chance(50); int opened = 0;
    if (together) { w.pol = genPolicy(c, true); w.pol.yieldPct = c.range(1, 60); c.label("sessions opened at once"); }
    for (auto &S : ss) { Sess26 *q = S.get(); auto f = [&, q] { q->r = libOpen(o, &q->wp); ++opened; }; if (together) w.startThread(w.client, f); else w.call(f, 100000); }
    if (!w.run([&] { return opened == sessions; }, 200000)) c.fail("winpty_open did not return"); w.pol = Policy();
    for (auto &S : ss) if (!S->wp) c.fail("winpty_open failed: %u", S->r.code);
    perSession = (w.client->table.size() - base0) / sessions; if (w.client->table.size() != base0 + perSession * sessions) c.fail("%zu handles for %d sessions", w.client->table.size() - base0, sessions);
    if (scripted) { std::map<uint64_t, Sess26 *> by; for (auto &S : ss) by[S->agent->pid] = S.get(); std::vector<Sess26 *> v; for (auto &S : ss) { std::string nm = u8(libName(S->wp, 0)); int pid = atoi(nm.c_str() + 10); if (!by.count(pid)) c.fail("the reported pipe name belongs to no agent"); v.push_back(by[pid]); }
        // the agents may have started in another order than the sessions: pair them by pipe name
        std::vector<void *> wps; for (auto &S : ss) wps.push_back(S->wp); std::set<Sess26 *> uniq(v.begin(), v.end()); if ((int)uniq.size() != sessions) c.fail("two sessions report the same agent's pipe"); for (int i = 0; i < sessions; ++i) v[i]->wp = wps[i]; }
    else for (auto &S : ss) { U16 nm = libName(S->wp, 0); for (auto &p : w.allPipes) if (p->rec.name == nm) for (auto *a : w.agents()) if (a->pid == p->rec.ownerPid) S->agent = a; if (!S->agent) c.fail("the reported pipe belongs to no agent"); int n = (int)c.choose(70); for (int i = 0; i < n; ++i) { S->helpers.push_back(w.newProcess("helper", S->agent)); w.attach(S->helpers.back().get(), S->agent->con); } }
    int threads = (sessions == 1 ? 2 : sessions) + (int)c.choose(4), id = 1; std::vector<std::vector<Op26>> ops(threads);
    for (auto &S : ss) S->oneSpawn = !scripted && c.chance(50);      // a session starts one program: the real agent gets one spawn, or only failing ones
    for (int t = 0; t < threads; ++t) { Sess26 &S = *ss[t % sessions]; int n = 1 + (int)c.choose(5); for (int i = 0; i < n; ++i) { Op26 op{(int)c.weighted({3, 3, S.spawnedOk ? 0 : 4}), 0, 0, c.chance(50) ? 0 : (int)c.choose(30)}; if (op.kind == 0) { op.a = 20 + id % 100; op.b = 5 + id % 40; ++id; S.expect.insert("size " + std::to_string(op.a) + "x" + std::to_string(op.b)); } else if (op.kind == 1) S.expect.insert("list"); else { op.a = id++; if (!scripted) op.a = op.a * 3 + (S.oneSpawn ? 0 : 1); S.spawnedOk = S.spawnedOk || S.oneSpawn; S.expect.insert("spawn " + std::to_string(op.a)); } ops[t].push_back(op); } }
    for (int t = 0; t < threads; ++t) { std::string x; for (auto &op : ops[t]) x += op.kind == 0 ? " size" : op.kind == 1 ? " list" : op.a % 3 == 0 ? " spawn" : " failing-spawn"; c.note("thread %d on session %d:%s", t, t % sessions, x.c_str()); }
    if (!scripted) w.onSpawn = [&](CreateRec &cr) -> uint32_t { int n = atoi(u8(cr.cmd).c_str() + 4); for (auto &S : ss) if (cr.callerPid == S->agent->pid) S->realLog.push_back("spawn " + std::to_string(n)); return n % 3 == 0 ? 0 : 5000 + n % 60000; };
    int done = 0; size_t base = w.client->table.size(); std::vector<uint64_t> given; std::string why; int overlap = 0, cross = 0, running = 0;
    auto bad = [&](const std::string &s) { if (why.empty()) why = s; };
    w.pol = genPolicy(c, true); w.pol.yieldPct = c.chance(80) ? c.range(1, 60) : 0;
    for (int t = 0; t < threads; ++t) w.startThread(w.client, [&, t] {
        Sess26 &S = *ss[t % sessions]; void *wp = S.wp; std::pair<int, int> lastSize{0, 0};
        for (auto &op : ops[t]) {
            if (op.think) Sleep(op.think);
            if (S.running) ++overlap; if (running > S.running) ++cross; ++S.running; ++running;
            if (op.kind == 0) { Call q = libSetSize(wp, op.a, op.b); if (!q.ok) bad("set_size failed: code " + std::to_string(q.code)); lastSize = {op.a, op.b}; }
            else if (op.kind == 1) {
                std::vector<int> arr(200, -77); Call q = libProcList(wp, arr.data(), 200); if (q.hasErr || !q.ok) { bad("the process list call failed: code " + std::to_string(q.code)); }
                else if (scripted) { int no = (arr[0] - 100000) / 10; if (q.n != 1 + no % 5) bad("a process list of " + std::to_string(q.n) + " entries does not belong together"); for (int i = 0; i < 200; ++i) if (arr[i] != (i < q.n ? 100000 + no * 10 + i : -77)) { bad("a process list mixes several results"); break; } S.seenSerials.insert(no); }
                else { std::set<int> ids(arr.begin(), arr.begin() + std::min(200, q.n)); for (auto &h : S.helpers) if (!ids.count(h->pid)) bad("an attached process is missing in the list"); if (q.n > 1 + (int)S.helpers.size() + (S.spawnedOk ? 1 : 0)) bad("the process list has too many entries"); for (int i = q.n; i < 200; ++i) if (arr[i] != -77) bad("the call wrote beyond its result"); }
            } else {
                SpawnArgs a; a.flags = 0; a.cmd = u"prog" + u16(std::to_string(op.a)); a.wantThread = !scripted; Call q = libSpawn(wp, a); bool ok = op.a % 3 == 0;
                if (q.ok != ok) bad("spawn " + std::to_string(op.a) + (ok ? " failed with code " + std::to_string(q.code) + ", creation error " + std::to_string(q.createErr) : " succeeded"));
                else if (ok) { auto it = w.client->table.find(q.hProc); Process *pr = it == w.client->table.end() ? nullptr : dynamic_cast<Process *>(it->second.obj.get()); if (!pr) bad("spawn returned no process"); else if (scripted ? (uint64_t)pr->pid != S.procOf[op.a] : pr->create.cmd != a.cmd) bad("spawn " + std::to_string(op.a) + " returned another call's process"); given.push_back(q.hProc); if (a.wantThread) given.push_back(q.hThread); }
                else { uint32_t e = scripted ? 5000 + op.a : 5000 + op.a % 60000; if (q.code != E_SPAWN || q.createErr != e) bad("spawn " + std::to_string(op.a) + " reports code " + std::to_string(q.code) + " (" + u8(q.msg) + "), creation error " + std::to_string(q.createErr) + " instead of " + std::to_string(e)); }
            }
            --S.running; --running;
        }
        if (lastSize.first) S.lastOf.insert(lastSize); ++done;
    });
    bool fin = w.run([&] { return done == threads || !badReq.empty(); }, 500000); w.pol.yieldPct = 0;
    if (!badReq.empty()) c.fail("%s", badReq.c_str()); if (!scripted && w.agentAsserted) c.fail("internal assertion failed in the agent: %s", w.agentAssertText.c_str()); if (!why.empty()) c.fail("%s", why.c_str()); if (!fin) c.fail("%d of %d threads are still in a call", threads - done, threads);
    for (auto &SP : ss) {
        Sess26 &S = *SP;
        if (scripted) {
            if (std::multiset<std::string>(S.reqLog.begin(), S.reqLog.end()) != S.expect) c.fail("%zu calls were made, the agent received %zu requests or others", S.expect.size(), S.reqLog.size());
            if (std::multiset<int>(S.listSerials.begin(), S.listSerials.end()) != S.seenSerials) c.fail("a process list was delivered twice or not at all");
        } else {
            std::multiset<std::string> sp; for (auto &x : S.expect) if (x.compare(0, 5, "spawn") == 0) sp.insert(x); if (std::multiset<std::string>(S.realLog.begin(), S.realLog.end()) != sp) c.fail("%zu spawn calls led to %zu process creations or others", sp.size(), S.realLog.size());
            auto b = S.agent->con->active; if (!S.lastOf.empty() && !S.spawnedOk) { bool ok = false; for (auto &z : S.lastOf) if (b->win.w() == std::min(z.first, S.agent->con->largestW()) && b->win.h() == std::min(z.second, S.agent->con->largestH())) ok = true; if (!ok && S.agent->con->minCols() <= 20) c.fail("the window is %dx%d, the size of none of the last calls", b->win.w(), b->win.h()); }
        }
    }
    for (auto &q : w.problems) c.fail("system interface misuse: %s", q.c_str());
    if (w.client->table.size() != base + given.size()) c.fail("%zu handles are open, %zu expected", w.client->table.size(), base + given.size());
    if (overlap) c.label("calls overlapped"); if (cross) c.label("calls on several sessions overlapped"); if (overlap || cross) c.nontrivial(); c.label(scripted ? "scripted agent" : "real agent"); stop = true;
    for (auto &S : ss) w.call([&] { libFree(S->wp); });
}
static pbt::Registrar r26({"C26", "two to six threads make random calls on one to three sessions (opened one by one or at once; each with arguments and an expected result of its own), switching between threads at random system calls, against the real agent and against a scripted one with delayed, fragmented replies. Non-trivial: calls overlapped in time.", c26, 5, 4000, 60000, 10, {"calls overlapped", "calls on several sessions overlapped", "sessions opened at once", "scripted agent", "real agent"}});
}
