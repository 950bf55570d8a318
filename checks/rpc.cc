// Library <-> agent protocol: C16 delivery, C17 spawn arguments and handles, C28 process list.
#include "model/session.h"
#include "model/wire.h"
#include <algorithm>
#include <string.h>
using namespace session;
static U16 genText(pbt::Ctx &c, int maxLen) {
    int n = c.skewed(1, maxLen); U16 s; s.reserve(n); int kind = (int)c.choose(4); uint64_t x = c.choose(1000003) + 1;
    for (int i = 0; i < n; ++i) {
        x = x * 6364136223846793005ull + 1442695040888963407ull; uint32_t r = (uint32_t)(x >> 33);
        char16_t ch = kind == 0 ? 'a' + r % 26 : kind == 1 ? (char16_t)(1 + r % 0xFFFF) : kind == 2 ? u" \"\\%^&=\t\n'"[r % 10] : (r % 7 ? 'A' + r % 26 : (char16_t)(0xD800 + r % 0x800));
        s += ch ? ch : u'x';
    }
    return s;
}
static U16 genEnv(pbt::Ctx &c, int maxLen) {        // with both terminators
    U16 e; int n = c.skewed(0, 12);
    for (int i = 0; i < n; ++i) { e += genText(c, 30); e += u'='; if (c.chance(80)) e += genText(c, maxLen); e += u'\0'; }
    if (!n) e += u'\0';
    return e + u'\0';
}
static SpawnArgs genSpawn(pbt::Ctx &c, int maxLen) {
    SpawnArgs a; a.flags = c.choose(4);
    a.hasApp = c.chance(70); a.hasCmd = !a.hasApp || c.chance(70); a.hasCwd = c.chance(50); a.hasEnv = c.chance(50);
    a.app = c.chance(40) ? u"C:\\prog.exe" : genText(c, maxLen); a.cmd = c.chance(30) ? u"prog a b" : genText(c, maxLen);
    a.cwd = genText(c, maxLen); if (a.hasEnv) a.env = genEnv(c, maxLen);
    auto tail = lower(a.app); if (tail.size() >= 4 && tail.find(u"winpty-agent") != U16::npos) a.app = u"x";
    a.wantProc = c.chance(60); a.wantThread = c.chance(50); a.wantCreateErr = c.chance(70); a.wantErr = c.chance(80);
    return a;
}
static std::string brief(const U16 &s) { return std::to_string(s.size()) + ":" + esc(u8(s.substr(0, 24))); }
static void diffStr(pbt::Ctx &c, const char *what, bool has, const U16 &want, bool gotHas, const U16 &got) {
    if (has && want.empty()) return;                  // an empty string and an absent one may be the same thing
    if (has != gotHas) c.fail("the %s was %s in the call and %s when the process was created", what, has ? "present" : "absent", gotHas ? "present" : "absent");
    if (has && want != got) { size_t i = 0; while (i < want.size() && i < got.size() && want[i] == got[i]) ++i; c.fail("the %s (%zu units) reached process creation as %zu units; they differ at unit %zu", what, want.size(), got.size(), i); }
}
static void checkCreate(pbt::Ctx &c, const SpawnArgs &a, const CreateRec &r) {
    diffStr(c, "program", a.hasApp, a.app, r.hasApp, r.app);
    diffStr(c, "command line", a.hasCmd, a.cmd, r.hasCmd, r.cmd);
    diffStr(c, "working directory", a.hasCwd, a.cwd, r.hasCwd, r.cwd);
    diffStr(c, "environment block", a.hasEnv, a.env, r.hasEnv, r.env);
}
// the result of a spawn call against what was asked for and what happened
static void checkSpawnResult(pbt::Ctx &c, World &w, Session &s, const SpawnArgs &a, const Call &r, size_t creates0, uint32_t wantErr, const std::map<uint64_t, HandleEnt> &clientBefore) {
    if (w.creates.size() != creates0 + 1) c.fail("one spawn call made %zu process creations", w.creates.size() - creates0);
    const CreateRec &rec = w.creates.back();
    if (rec.callerPid != s.agent->pid) c.fail("the process was not created by the agent");
    checkCreate(c, a, rec);
    if (wantErr) {
        if (r.ok) c.fail("process creation failed with error %u but the spawn call succeeded", wantErr);
        if (a.wantErr && (!r.hasErr || r.code != E_SPAWN)) c.fail("process creation failed with error %u: the call's error code is %u, documented is %u", wantErr, r.code, E_SPAWN);
        if (a.wantErr && r.msg.empty()) c.fail("the error object has no message");
        if (a.wantCreateErr && r.createErr != wantErr) c.fail("process creation failed with error %u, the call reports %u", wantErr, r.createErr);
        if (a.wantProc && r.hProc) c.fail("failed spawn left a process handle in the output"); if (a.wantThread && r.hThread) c.fail("failed spawn left a thread handle in the output");
        if (w.client->table.size() != clientBefore.size()) c.fail("failed spawn left a handle open in the client");
        return;
    }
    if (!r.ok) c.fail("spawn failed although the process was created: code %u %s", r.code, u8(r.msg).c_str());
    if (r.hasErr) c.fail("successful spawn set an error object");
    if (a.wantCreateErr && r.createErr) c.fail("successful spawn reports process creation error %u", r.createErr);
    Process *ch = rec.child;
    auto check = [&](bool want, uint64_t h, uint64_t untouched, bool thread) {
        const char *n = thread ? "thread" : "process";
        if (!want) { if (h != untouched) c.fail("%s handle written although it was not asked for", n); return; }
        if (!h) c.fail("no %s handle was returned", n);
        auto it = w.client->table.find(h); if (it == w.client->table.end()) c.fail("the returned %s handle is not valid in the caller", n);
        auto *p = dynamic_cast<Process *>(it->second.obj.get()); auto *t = dynamic_cast<ThreadObj *>(it->second.obj.get());
        if (thread ? !t || t->proc != ch : p != ch) c.fail("the returned %s handle does not refer to the new process's %s", n, n);
    };
    check(a.wantProc, r.hProc, 0x7777, false); check(a.wantThread, r.hThread, 0x7778, true);
    size_t extra = w.client->table.size() - clientBefore.size(), asked = (a.wantProc ? 1 : 0) + (a.wantThread ? 1 : 0);
    if (extra != asked) c.fail("spawn added %zu handles to the caller, %zu were asked for", extra, asked);
    int ph = 0, th = 0; for (auto &kv : s.agent->table) { if (kv.second.obj.get() == ch) ++ph; if (auto *t = dynamic_cast<ThreadObj *>(kv.second.obj.get())) if (t->proc == ch) ++th; }
    if (ph > 1 || th) c.fail("the agent still holds %d process and %d thread handles of the new process", ph, th);
}
static void fillProcs(pbt::Ctx &c, World &w, Session &s, std::vector<std::shared_ptr<Process>> &helpers) {
    int n = c.chance(20) ? c.range(0, 400) : c.skewed(0, 12);
    while ((int)helpers.size() > n) { size_t i = c.choose(helpers.size()); w.killProcess(helpers[i].get(), 0, false); helpers.erase(helpers.begin() + i); }
    while ((int)helpers.size() < n) { auto p = w.newProcess("helper", s.agent); p->pid = p->pid * 7 + (int)c.choose(3); w.attach(p.get(), s.con); helpers.push_back(p); }
}
static void procListCall(pbt::Ctx &c, World &w, Session &s, bool racy) {
    std::vector<int> ids; for (auto *p : s.con->procs) ids.push_back(p->pid);
    int have = (int)ids.size(), n = c.chance(25) ? have : c.chance(30) ? have - 1 - (int)c.choose(have) : c.chance(30) ? c.skewed(0, 500) : have + (int)c.choose(5);
    if (n < 0) n = 0;
    std::vector<int> arr(n + 3, -77);
    c.note("process list, %d attached, room for %d", have, n);
    Call r = libProcList(s.wp, arr.data(), n);
    if (!r.ok) c.fail("winpty_get_console_process_list failed with %d processes and room for %d: code %u %s", have, n, r.code, u8(r.msg).c_str());
    if (r.hasErr) c.fail("the process list call returned %d and an error object", r.n);
    if (racy) {           // processes were only added during the call: a snapshot before or after
        int now = (int)s.con->procs.size();
        if (r.n != have && r.n != now) c.fail("%d processes were attached before the call and %d after it, the call returned %d", have, now, r.n);
        have = r.n; ids.clear(); for (int i = 0; i < have; ++i) ids.push_back(s.con->procs[i]->pid);
    }
    if (r.n != have) c.fail("%d processes are attached, the call returned %d", have, r.n);
    if (have > n) { for (int x : arr) if (x != -77) c.fail("the list (%d) does not fit into %d entries but the array was written", have, n); c.label("list does not fit"); }
    else {
        std::vector<int> got(arr.begin(), arr.begin() + have); std::sort(got.begin(), got.end()); std::sort(ids.begin(), ids.end());
        if (got != ids) c.fail("the array does not hold the ids of the attached processes");
        for (size_t i = have; i < arr.size(); ++i) if (arr[i] != -77) c.fail("the call wrote beyond the %d entries it reported", have);
        c.label("list fits"); if (have > 64) c.label("more than 64 processes");
    }
}
static void c16(pbt::Ctx &c) {
    Config cfg = genConfig(c); World &w = reset(cfg); w.pol = genPolicy(c);
    Opts o; o.attach = c.chance(50); o.timeout = 2000000000; o.flags = (c.chance(20) ? F_CONERR : 0) | (c.chance(20) ? F_DESKTOP : 0); o.cols = c.range(20, 120); o.rows = c.range(2, 50);
    Session s(c, w, o); s.open(); s.con = s.agent->con;
    std::vector<std::shared_ptr<Process>> helpers; bool spawned = false; int steps = 0, calls = 0, fails = 0; size_t longest = 0; bool tiny = w.pol.quotaMode == 2;
    w.onSpawn = [&](CreateRec &) -> uint32_t { return 2; };
    do {
        pbt::Ctx::Span sp(c);
        if (c.chance(30)) s.run(c.skewed(0, 60));
        switch (c.weighted({4, 4, 4, 2, 2})) {
        case 0: {
            int cols = c.range(20, 150), rows = c.range(1, 60); c.note("set size %dx%d", cols, rows); s.setSize(cols, rows); ++calls;
            auto b = s.con->active; if (!spawned && cols <= s.con->largestW() && rows <= s.con->largestH() && cols >= s.con->minCols() && (b->win.w() != cols || b->win.h() != rows))
                c.fail("set_size(%d,%d) succeeded but the console window is %dx%d", cols, rows, b->win.w(), b->win.h());
            break; }
        case 1: fillProcs(c, w, s, helpers); procListCall(c, w, s, false); ++calls; break;
        case 2: {
            if (spawned) break;
            SpawnArgs a = genSpawn(c, tiny ? 300 : c.chance(10) ? 300000 : 3000); size_t n0 = w.creates.size(); auto before = w.client->table; uint32_t err = 1 + c.skewed(0, 100000);
            bool ok = c.chance(15); w.onSpawn = [&](CreateRec &) -> uint32_t { return ok ? 0 : err; };
            longest = std::max(longest, a.app.size() + a.cmd.size() + a.env.size() + a.cwd.size());
            c.note("%s spawn app=%s cmd=%s cwd=%s env=%d", ok ? "working" : "failing", brief(a.app).c_str(), brief(a.cmd).c_str(), brief(a.cwd).c_str(), (int)a.env.size());
            a.flags = 0; Call r = libSpawn(s.wp, a); ++calls; checkSpawnResult(c, w, s, a, r, n0, ok ? 0 : err, before);
            if (ok) spawned = true; else ++fails;
            break; }
        case 3: if (s.buf) { int n = c.skewed(1, 300); c.note("%d lines of output", n); for (int i = 0; i < n; ++i) s.con->active->write(u16("line " + std::to_string(i) + std::string(i % 40, 'x') + "\n")); } break;
        case 4: if (o.attach) { c.note("input"); s.in.write(std::string(c.skewed(1, 3000), 'k')); } break;
        }
        s.checkClean();
    } while (++steps < 50 && c.more(14));
    if (longest > 60000) c.label("message longer than the pipe and read buffers"); if (w.pol.pendPct) c.label("delayed I/O"); if (tiny) c.label("tiny pipe buffers"); if (fails) c.label("failed creation, then more calls");
    if (spawned) c.label("spawned");
    if (calls > 1) c.nontrivial();
}
static pbt::Registrar r16({"C16", "random sequences of every library call with short to very long arguments and lists under random pipe buffer sizes, delays, short reads and unread output; every call's effect and result is compared with the arguments. Non-trivial: at least two calls were made.", c16, 5, 5000, 70000, 10, {"message longer than the pipe and read buffers", "delayed I/O", "tiny pipe buffers", "failed creation, then more calls", "list does not fit", "list fits", "more than 64 processes"}});

static void c17(pbt::Ctx &c) {
    Config cfg = genConfig(c); World &w = reset(cfg); if (c.chance(40)) w.pol = genPolicy(c);
    Opts o; o.attach = c.chance(50); o.timeout = 2000000000; o.flags = c.chance(30) ? F_CONERR : 0; if (c.chance(20)) o.flags |= F_PLAIN; if (c.chance(20)) o.flags |= F_DESKTOP;
    Session s(c, w, o); s.open(); s.con = s.agent->con;
    int failures = c.skewed(0, 4);
    for (int i = 0; i <= failures; ++i) {
        pbt::Ctx::Span sp(c);
        bool ok = i == failures; static const uint32_t errs[] = {2, 3, 5, 8, 87, 193, 206, 267, 740, 1455, 0x7fffffff, 0x80000000, 0xffffffff, 0xc0000135};
        uint32_t err = ok ? 0 : errs[c.choose(14)]; w.onSpawn = [err](CreateRec &) -> uint32_t { return err; };
        SpawnArgs a = genSpawn(c, w.pol.quotaMode == 2 ? 300 : c.chance(10) ? 40000 : 400); size_t n0 = w.creates.size(); auto before = w.client->table; size_t agentBefore = s.agent->table.size();
        c.note("spawn error %u app=%d:%s cmd=%d:%s cwd=%d:%s env=%d:%d want %d%d", err, a.hasApp, brief(a.app).c_str(), a.hasCmd, brief(a.cmd).c_str(), a.hasCwd, brief(a.cwd).c_str(), a.hasEnv, (int)a.env.size(), a.wantProc, a.wantThread);
        Call r = libSpawn(s.wp, a); checkSpawnResult(c, w, s, a, r, n0, err, before);
        if (!ok && s.agent->table.size() != agentBefore) c.fail("a failed spawn changed the number of agent handles from %zu to %zu", agentBefore, s.agent->table.size());
        if (a.hasEnv) c.label("environment"); if (a.hasEnv && a.env.size() == 2) c.label("empty environment"); if (!ok) c.label("failed creation"); if (ok && failures) c.label("success after a failure");
        const CreateRec &rec = w.creates.back();
        if (ok) {
            bool bg = cfg.os >= OS_VISTA;
            if (rec.child->con != s.agent->con) c.fail("the program is not attached to the session's console");
            if (!bg && rec.hasDesktop && !rec.desktop.empty()) { auto d = u8(rec.desktop); if (d != "WinSta0\\Default") c.fail("the program was started on desktop %s", d.c_str()); }
            if ((o.flags & F_CONERR) && !rec.child->stdErr) c.fail("the program has no usable standard error"); 
            // handles really usable: the process handle becomes signaled by the exit
            if (a.wantProc && c.chance(50)) { w.killProcess(rec.child, 33, false); if (!w.client->table[r.hProc].obj->signaled()) c.fail("the process handle is not signaled by the exit"); }
            if (a.wantProc) w.closeHandle(w.client, r.hProc); if (a.wantThread) w.closeHandle(w.client, r.hThread);
        }
        s.checkClean();
        if (c.chance(40)) { s.run(c.skewed(1, 80)); }
        if (c.chance(40) && !(ok && (a.flags & 2))) { s.con = s.agent->con; if (s.con && !s.agent->exited) procListCall(c, w, s, true); }
    }
    if (o.flags & F_CONERR) c.label("standard error stream");
    c.nontrivial();
}
static pbt::Registrar r17({"C17", "random spawn requests (absent, empty and long strings with unpaired surrogates and control characters, environment blocks, every handle request) after 0-4 failing ones with arbitrary error codes; the recorded process creation and the handle tables are compared with the request. Every case is non-trivial.", c17, 5, 5000, 70000, 10, {"environment", "empty environment", "failed creation", "success after a failure", "standard error stream"}});

static void c28(pbt::Ctx &c) {
    Config cfg = genConfig(c); World &w = reset(cfg); if (c.chance(40)) w.pol = genPolicy(c);
    Opts o; o.timeout = 2000000000; o.attach = c.chance(50);
    Session s(c, w, o); s.open(); s.con = s.agent->con; if (c.chance(60)) s.spawn(0);
    std::vector<std::shared_ptr<Process>> helpers; int n = 0;
    do {
        pbt::Ctx::Span sp(c);
        if (c.chance(70)) fillProcs(c, w, s, helpers);
        bool racy = false; int k = (int)c.choose(4), big = c.range(1, 200);
        if (c.chance(15)) {      // processes come and go while the list is being read
            racy = true;
            w.onApi = [&](const char *api) { if (w.cur->proc == s.agent && !strcmp(api, "GetConsoleProcessList") && k-- == 0) for (int i = 0; i < big; ++i) { auto p = w.newProcess("helper", s.agent); w.attach(p.get(), s.con); helpers.push_back(p); } };
            c.label("list changes meanwhile");
        }
        procListCall(c, w, s, racy); ++n; w.onApi = nullptr;
        s.checkClean();
        if (c.chance(20)) s.setSize(c.range(30, 100), c.range(5, 40));
        if (c.chance(20)) s.run(c.skewed(1, 60));
    } while (n < 12 && c.more(4));
    c.nontrivial();
}
static pbt::Registrar r28({"C28", "random sets of 1-600 attached processes that change between (and during) calls, arrays of every size from 0 up, followed by further calls; result, array contents and everything beyond are compared with the set. Every case is non-trivial.", c28, 5, 5000, 60000, 10, {"list does not fit", "list fits", "more than 64 processes", "list changes meanwhile"}});
