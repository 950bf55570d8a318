// Random sessions with a planned fault: one library call after the other, each judged by the documented contract.
#pragma once
#include "model/session.h"
#include <algorithm>
#include <functional>
#include <map>
#include <string.h>
// ---- scenarios with faults (C19), for resources (C29) and for the agent's life (C27)
namespace scn {
using namespace session;
struct Step { int kind; int a, b; bool flag; };           // 0 time, 1 set size, 2 process list, 3 failing spawn, 4 spawn, 5 output, 6 input, 7 connect
struct Plan { Config cfg; Opts o; Policy pol; std::vector<Step> steps; bool wantErr = true; };
inline Plan genPlan(pbt::Ctx &c, int len) {
    Plan p; p.cfg = genConfig(c); if (c.chance(15)) p.cfg.showConsoleEnv = true;
    p.o.flags = (c.chance(25) ? F_CONERR : 0) | (c.chance(30) ? F_DESKTOP : 0) | (c.chance(20) ? F_PLAIN : 0); p.o.mouseMode = (int)c.choose(3);
    p.o.attach = false; static const int tos[] = {-1, 30000, 5000, 60000}; p.o.timeout = tos[c.choose(4)]; p.o.setSize = c.chance(70);
    p.pol = genPolicy(c, true); int n = c.skewed(1, len); bool spawned = false, conn = false;
    for (int i = 0; i < n; ++i) {
        Step s{(int)c.weighted({3, 4, 3, 3, 3, 2, 2, 3}), c.range(1, 160), c.range(1, 60), c.chance(50)};
        if (s.kind == 0) s.a = c.skewed(0, 100);
        if (s.kind == 4 || s.kind == 3) { if (spawned) s.kind = 2; else if (s.kind == 4) spawned = true; s.a = (int)c.choose(2); }
        if (s.kind == 7) { if (conn) s.kind = 0, s.a = 30; conn = true; }
        if (s.kind == 6 && !conn) s.kind = 2;
        p.steps.push_back(s);
    }
    return p;
}
inline const char *stepName(int k) { static const char *n[] = {"wait", "set_size", "process list", "failing spawn", "spawn", "output", "input", "connect"}; return n[k]; }
struct Scn {
    pbt::Ctx &c; World &w; const Plan &p; void *wp = nullptr; Call openRes; Process *agent = nullptr; Console *con = nullptr; Process *child = nullptr; Ext out, in, err; std::vector<uint64_t> given; std::map<uint64_t, HandleEnt> base; int baseModules = 0;
    bool failed = false, oomSeen = false; std::string failedBy;     /* after OOM the session may be usable or refuse */ bool judged = true; uint64_t bound = 0; int okCalls = 0, badCalls = 0; bool childFailExpected = false; size_t maxAgent = 0;
    std::function<bool(const char *, const Call &, bool)> onFail;      // judges a failed call
    Scn(pbt::Ctx &c_, const Plan &p_) : Scn(c_, p_, reset(p_.cfg)) {}
    Scn(pbt::Ctx &c_, const Plan &p_, World &w_) : c(c_), w(w_), p(p_) {
        w.pol = p.pol; base = w.client->table; uint64_t t = p.o.timeout < 0 ? 30000 : p.o.timeout; bound = 10 * t + 10000;
    }
    bool timed(const char *nm, Call &r, const std::function<Call()> &f) {
        uint64_t t0 = w.now; Process *cl = w.client;
        bool back = w.call([&] { oom.counting = true; r = f(); oom.counting = false; }, bound);
        oom.counting = false;
        if (cl->exited) return false;
        if (!back) c.fail("%s has not returned after %d ms (timeout %ld)", nm, (int)(w.now - t0), p.o.timeout < 0 ? 30000 : p.o.timeout);
        return true;
    }
    void contract(const char *nm, const Call &r, bool ok, bool rpc) {
        if (ok) { if (r.hasErr) c.fail("%s succeeded and set an error object (code %u)", nm, r.code); ++okCalls; return; }
        ++badCalls;
        if (!r.hasErr) c.fail("%s failed without an error object", nm);
        if (r.code == 0 || r.code > 8) c.fail("%s failed with the undocumented code %u", nm, r.code);
        if (r.msg.empty()) c.fail("%s failed with an empty message (code %u)", nm, r.code);
        c.note("%s fails: code %u %s", nm, r.code, u8(r.msg).substr(0, 100).c_str());
        if (onFail) onFail(nm, r, rpc);
    }
    bool open() {
        if (!timed("winpty_open", openRes, [&] { return libOpen(p.o, &wp); })) return false;
        contract("winpty_open", openRes, wp != nullptr, false);
        if (!wp) { if (!shared) noLeak("after winpty_open failed"); return false; }
        auto v = w.agents(); agent = v.empty() ? nullptr : v.back(); con = agent ? agent->con : nullptr;
        if (libName(wp, 0).empty() || libName(wp, 1).empty()) c.fail("winpty_open succeeded without pipe names");
        if (!!(p.o.flags & F_CONERR) == libNameNull(wp, 2)) c.fail("the CONERR pipe name does not match the flags");
        return true;
    }
    void step(const Step &s) {
        if (agent && !agent->exited) { if (agent->table.size() > maxAgent) maxAgent = agent->table.size(); con = agent->con; }
        drain();
        Call r; auto before = w.client->table; w.onSpawn = [this](CreateRec &) -> uint32_t { return childFailExpected ? 2 : 0; }; const char *nm = stepName(s.kind);
        auto after = [&](bool ok, bool refusedBefore) {
            contract(nm, r, ok, true);
            if (ok && refusedBefore) c.fail("%s succeeded although %s had failed on this session", nm, failedBy.c_str());
        };
        switch (s.kind) {
        case 0: for (int i = 0; i < s.a; ++i) { w.runFor(1); drain(); } break;
        case 1: { c.note("set_size %dx%d", s.a, s.b); bool was = failed; if (!timed(nm, r, [&] { return libSetSize(wp, s.a, s.b); })) return; after(r.ok, was); if (!r.ok) fail(nm, &r); break; }
        case 2: {
            std::vector<int> arr(12, -77); int procs = con ? (int)con->procs.size() : 0; bool was = failed; c.note("process list");
            if (!timed(nm, r, [&] { return libProcList(wp, arr.data(), 10); })) return;
            bool ok = !r.hasErr; after(ok, was);
            if (ok && r.n != 0 && con && agent && !agent->exited && r.n != procs && r.n != (int)con->procs.size()) c.fail("the process list call returned %d, %d processes are attached", r.n, procs);
            if (!ok) { if (r.n) c.fail("the process list call failed but returned %d", r.n); for (int x : arr) if (x != -77 && x <= 0) c.fail("a failed process list call wrote garbage"); fail(nm, &r); }
            break; }
        case 3: case 4: {
            SpawnArgs a; a.flags = s.a ? (s.flag ? 3 : 1) : 0; a.wantProc = s.b & 1; a.wantThread = s.b & 2; a.wantErr = true; size_t n0 = w.creates.size(); size_t hits0 = w.faultsHit.size(); bool was = failed; childFailExpected = s.kind == 3; c.note("%s", nm);
            if (!timed(nm, r, [&] { return libSpawn(wp, a); })) return;
            if (!r.ok && r.hasErr && r.code == E_OOM && !r.createErr) { }
            bool created = w.creates.size() == n0 + 1 && w.creates.back().ok, tried = w.creates.size() > n0 || w.faultsHit.size() > hits0;
            if (w.creates.size() > n0 + 1) c.fail("one spawn call made %zu process creations", w.creates.size() - n0);
            if (s.kind == 3 && r.ok) c.fail("spawn succeeded although the process could not be created");
            after(r.ok, was);
            if (r.ok) {
                if (!created) c.fail("spawn succeeded but no process was created");
                child = w.creates.back().child;
                if (a.wantProc && (!r.hProc || !w.client->table.count(r.hProc))) c.fail("spawn succeeded without a valid process handle"); if (a.wantThread && (!r.hThread || !w.client->table.count(r.hThread))) c.fail("spawn succeeded without a valid thread handle");
                if (a.wantProc && r.hProc) given.push_back(r.hProc); if (a.wantThread && r.hThread) given.push_back(r.hThread);
                if (r.createErr) c.fail("successful spawn reports creation error %u", r.createErr);
            } else {
                bool early = r.createErr == 0xdeadbeef;       // the configuration object could not be made: winpty_spawn was not reached
                if (!early && ((a.wantProc && r.hProc) || (a.wantThread && r.hThread))) c.fail("failed spawn left handles in the outputs");
                if (r.code == E_SPAWN) { if (!tried) c.fail("the error says that process creation failed, but it was not attempted"); if (!r.createErr) c.fail("creation failed, the reported error code is 0"); }
                else if (!early && r.createErr && !(r.code == E_OOM && tried && !created)) c.fail("a spawn that failed with code %u reports process creation error %u", r.code, r.createErr);
                if (r.code != E_SPAWN && !early) fail(nm, &r);
                size_t now = w.client->table.size(); if (now > before.size()) c.fail("failed spawn left %zu handle(s) open in the client", now - before.size());
            }
            childFailExpected = false;
            break; }
        case 5: if (con && agent && !agent->exited && !con->frozen) for (int i = 0; i < s.a * 3; ++i) con->active->write(u16("some output " + std::to_string(i) + "\n")); break;
        case 6: if (in.ok()) in.write(std::string(s.a * 7, 'q')); break;
        case 7: connect(s.flag); break;
        }
    }
    void fail(const char *nm, const Call *r = nullptr) { if (r && r->code == E_OOM) oomSeen = true; else if (!failed) { failed = true; failedBy = nm; } }
    void connect(bool all) { if (!agent || agent->exited) return; out.open(libName(wp, 1), true, false, dataPid ? dataPid : w.client->pid); in.open(libName(wp, 0), false, true, dataPid ? dataPid : w.client->pid); if (all && (p.o.flags & F_CONERR)) err.open(libName(wp, 2), true, false, dataPid ? dataPid : w.client->pid); }
    bool reading = true, shared = false; int dataPid = 0;      // shared: other sessions in the same process
    void drain() { if (reading) { if (out.ok()) out.read(); if (err.ok()) err.read(); } }
    void free() {
        Call r; if (wp) { timed("winpty_free", r, [&] { libFree(wp); return Call(); }); wp = nullptr; }
        for (auto h : given) w.closeHandle(w.client, h); given.clear();
    }
    void noLeak(const char *when) {
        if (w.client->table.size() != base.size()) { std::string x; for (auto &kv : w.client->table) if (!base.count(kv.first)) x += std::string(" ") + kv.second.obj->kind() + " (" + kv.second.origin + ")"; for (auto &kv : base) if (!w.client->table.count(kv.first)) x += std::string(" MISSING ") + kv.second.obj->kind(); c.fail("%s the client holds %zu handles, %zu at the start:%s", when, w.client->table.size(), base.size(), x.c_str()); }
        if (!w.client->local.empty()) c.fail("%s %zu block(s) of system memory are not freed (%s)", when, w.client->local.size(), w.client->local.begin()->second.second.c_str());
        if (w.client->cryptCtx) c.fail("%s a cryptographic context is still open", when);
        if (w.client->hWinsta != 0 && w.client->winsta != w.winstas[0]) c.fail("%s the client is on another window station", when);
    }
    void misuse(int pidFilter = 0) {
        if (w.closedWithIo) c.fail("a pipe was closed with I/O in flight: %s", w.problems.empty() ? "" : w.problems[0].c_str());
        for (auto &q : w.problems) if (!pidFilter || q.compare(0, 6, "client") == 0) c.fail("system interface misuse: %s", q.c_str());
    }
};
}
