// The real adapter on a simulated terminal with a scripted agent.
#pragma once
#include <signal.h>
#include <errno.h>
#include <limits.h>
#undef LOCK_WRITE
#include "model/session.h"
#include "model/wire.h"
#include "sim/unix.h"
#include <windows.h>
#include <string.h>
#undef min
#undef max
using namespace session;
using wire::Enc; using wire::Dec;
namespace {
// ---- a session of the adapter with a scripted agent
struct Rig {
    pbt::Ctx &c; World &w; Unix &u; bool conerr = false; Process *agent = nullptr; std::shared_ptr<Process> child; Ext ctl; std::string reqs; bool up = false, spawned = false, stop = false, closeOut = false, closeErr = false, closeIn = false; std::string badReq;
    int flags = -1, mouse = -1, cols = -1, rows = -1; U16 cmd; bool hasCmd = false, hasApp = false, hasCwd = false, hasEnv = false; U16 app, cwd, envb; int64_t spawnFlags = 0; std::vector<std::pair<int, int>> sizes; uint32_t spawnErr = 0; int spawnMode = 0;
    std::string got, sent[2]; std::vector<std::pair<int, std::string>> plan[2]; int readDelay = 0, readMax = 4096; bool outDone[2] = {false, false}, inBroken = false; int replyDelay = 0;
    int rc = -1; bool ended = false; uint64_t endTime = 0; std::map<std::string, std::string> envAtOpen; bool sawOpen = false; std::shared_ptr<PipeInst> inst[3];
    Rig(pbt::Ctx &c_, World &w_, Unix &u_) : c(c_), w(w_), u(u_) {
        w.agentBody = [this](Process *p) { return body(p); };
        w.onApi = [this](const char *n) { if (!sawOpen && w.cur->proc == w.client && !strcmp(n, "CreateProcessW")) { sawOpen = true; envAtOpen = u.winEnv; } };
    }
    HANDLE mk(const char *n, uint32_t mode, int k) { U16 nm = u"\\\\.\\pipe\\" + u16(n) + u"-" + u16(std::to_string(agent->pid)); HANDLE h = CreateNamedPipeW((LPCWSTR)nm.c_str(), mode, 0, 1, 65536, 65536, 0, nullptr); inst[k] = w.allPipes.back(); return h; }
    U16 nm(const char *n) { return u"\\\\.\\pipe\\" + u16(n) + u"-" + u16(std::to_string(agent->pid)); }
    int body(Process *p) {
        agent = p; U16 cl = p->cmdline; size_t k = cl.find(u"\\\\.\\pipe\\"), e = cl.find(u' ', k); U16 name = cl.substr(k, e - k);
        sscanf(u8(cl.substr(e)).c_str(), "%d %d %d %d", &flags, &mouse, &cols, &rows); conerr = flags & F_CONERR;
        HANDLE hi = mk("in", PIPE_ACCESS_INBOUND, 0), ho = mk("out", PIPE_ACCESS_OUTBOUND, 1), he = conerr ? mk("err", PIPE_ACCESS_OUTBOUND, 2) : nullptr;
        if (!ctl.open(name, true, true, p->pid)) return 1;
        Enc a; a.str(nm("in")).str(nm("out")); if (conerr) a.str(nm("err")); ctl.write(a.done()); up = true;
        w.startThread(p, [this, hi] { ConnectNamedPipe(hi, nullptr); std::vector<char> b(65536); while (!closeIn) { if (readDelay) Sleep(readDelay); DWORD n = 0; if (!ReadFile(hi, b.data(), readMax, &n, nullptr)) { inBroken = true; break; } got.append(b.data(), n); } CloseHandle(hi); });
        auto writer = [this](HANDLE h, int k) { ConnectNamedPipe(h, nullptr); for (size_t i = 0; i < plan[k].size(); ++i) { auto pr = plan[k][i]; if (pr.first) Sleep(pr.first); DWORD n = 0; if (!WriteFile(h, pr.second.data(), (DWORD)pr.second.size(), &n, nullptr)) break; sent[k] += pr.second; } outDone[k] = true; bool &cl = k ? closeErr : closeOut; while (!cl) Sleep(5); CloseHandle(h); };
        w.startThread(p, [writer, ho] { writer(ho, 0); }); if (conerr) w.startThread(p, [writer, he] { writer(he, 1); });
        while (!stop) {
            reqs += ctl.read();
            while (reqs.size() >= 8) { uint64_t n; memcpy(&n, &reqs[0], 8); if (n < 8 || n > (1u << 24)) { badReq = "the request stream is garbled"; return 1; } if (reqs.size() < n) break; std::string pk = reqs.substr(0, n); reqs.erase(0, n); answer(p, pk); if (!badReq.empty()) return 1; }
            if (ctl.eof()) { ctl.close(); return 0; } Sleep(1);
        }
        ctl.close(); return 0;
    }
    void answer(Process *p, const std::string &pk) {
        Dec d(pk); int t = d.i32(); Enc e; if (replyDelay) Sleep(replyDelay);
        if (t == 1) { int x = d.i32(), y = d.i32(); if (!d.end()) { badReq = "malformed resize request"; return; } sizes.push_back({x, y}); }
        else if (t == 0) { spawnFlags = d.i64(); int wp = d.i32(); d.i32(); app = d.str(); cmd = d.str(); cwd = d.str(); envb = d.str(); d.str(); if (!d.end()) { badReq = "malformed spawn request"; return; } spawned = true;
            if (spawnMode == 1) e.i32(0).i32(spawnErr); else if (spawnMode == 2) { e.i32(77); } else { child = w.newProcess("child", p); e.i32(1).i64(wp ? (int64_t)w.addHandle(p, child, "child") : 0).i64(0); } }
        else { badReq = "unknown request"; return; }
        ctl.write(e.done());
    }
    void start(const std::vector<std::string> &argv) { w.startThread(w.client, [this, argv] { rc = runAdapter(argv); }); }
    bool finished() { if (w.client->exited && !ended) { ended = true; endTime = w.now; rc = w.client->exitCode; } return w.client->exited; }
    void check() { if (!badReq.empty()) c.fail("%s", badReq.c_str()); for (auto &q : w.problems) c.fail("system interface misuse: %s", q.c_str()); }
};
}
