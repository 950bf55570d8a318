// C27 agent lifetime, C29 resources.
#include "model/scn.h"
#include <windows.h>
#include <set>
#undef min
#undef max
using namespace session;
using namespace scn;
namespace {
// ---- C27
// The agent whose client died before it could connect has nothing better to do than to give up.
bool startAssert(const std::string &t) { return t.find("Could not connect") != std::string::npos; }
void c27(pbt::Ctx &c) {
    Plan p = genPlan(c, 8); c.note("%s, flags %d%s", osName(p.cfg.os), (int)p.o.flags, p.cfg.showConsoleEnv ? ", WINPTY_SHOW_CONSOLE" : "");
    if (p.o.timeout >= 0) p.o.timeout = std::max(p.o.timeout, 30000l);
    int mode = c.weighted({4, 4, 4, 2, 2}); bool blocked = c.chance(40), busyApp = c.chance(50), others = c.chance(40);
    uint64_t nc = 0, na = 0; long at = -1;
    auto plain = [&](Scn &s) { s.onFail = [&](const char *nm, const Call &r, bool) { if (strcmp(nm, "failing spawn") || r.code != E_SPAWN) c.fail("%s failed without a fault: code %u %s", nm, r.code, u8(r.msg).c_str()); return true; }; };
    if (mode == 1 || mode == 2) {
        Scn d(c, p); d.w.onApi = [&](const char *) { auto *q = d.w.cur->proc; if (q->isAgent) ++na; else if (q == d.w.client) ++nc; };
        if (d.open()) for (auto &st : p.steps) d.step(st);
        at = (long)c.choose((mode == 1 ? nc : na) + 1); d.w.onApi = nullptr;
    }
    static const char *ml[] = {"freed", "client dies at one of its calls", "client dies at an agent call", "client hangs, then dies", "long idle, then freed"};
    c.label(ml[mode]); c.note("%s%s%s%s", ml[mode], at >= 0 ? (" " + std::to_string(at)).c_str() : "", blocked ? ", output not read" : "", others ? ", data pipes held by another process" : "");
    Scn s(c, p); World &w = s.w; plain(s); s.reading = !blocked; uint64_t count = 0, died = ~0ull, agentApis = 0; s.dataPid = others ? 9999 : 0;
    w.onApi = [&](const char *) {
        auto *q = w.cur->proc; if (q->isAgent) ++agentApis;
        if ((mode == 1 && q == w.client) || (mode == 2 && q->isAgent)) if ((long)count++ == at) { died = w.now; w.timers.insert({w.now, [&] { w.killProcess(w.client, 9, true); if (!others) { s.out.close(); s.in.close(); s.err.close(); } }}); }
    };
    bool opened = s.open();
    auto alive = [&](const char *when) { if (s.agent && s.agent->exited && !w.client->exited) c.fail("the agent ended while its client was connected (%s)%s", when, w.agentAsserted ? (" " + w.agentAssertText).c_str() : ""); };
    int k = 0;
    if (opened) for (auto &st : p.steps) {
        if (w.client->exited) break;
        s.step(st); if (w.client->exited) break;
        if (busyApp && s.con && s.agent && !s.agent->exited && !s.con->frozen) { for (int i = 0; i < 40; ++i) s.con->active->write(u16("busy " + std::to_string(k * 40 + i) + "\n")); ++k; }
        alive("in use");
    }
    if (opened && !w.client->exited && mode == 4) {
        w.runFor(300); uint64_t a0 = agentApis, t0 = w.now; w.runFor(2000 + (c.chance(20) ? 300000 : 0)); double rate = double(agentApis - a0) / (w.now - t0);
        alive("idle"); if (!busyApp && rate > 8) c.fail("the idle agent makes %.1f system calls per millisecond: it is busy-waiting", rate);
        Call r; if (!s.timed("set_size", r, [&] { return libSetSize(s.wp, 33, 21); })) return; s.contract("set_size", r, r.ok, true);
    }
    if (opened && !w.client->exited && mode == 3) {
        w.client->suspended = true; w.runFor(c.chance(30) ? 100000 : 700); alive("client hung");
        if (s.con && !s.con->frozen && s.agent && !s.agent->exited && s.out.ok()) { s.reading = true; for (int i = 0; i < 400; ++i) { w.runFor(1); s.drain(); } s.con->active->write(u"ZqZ"); std::string got; for (int i = 0; i < 400; ++i) { w.runFor(1); got += s.out.read(); } if (got.find('Z') == std::string::npos) c.fail("no output is delivered while the client process hangs"); s.reading = !blocked; c.label("serves while the client hangs"); }
    }
    if (!w.client->exited) { died = w.now; if (mode == 0 || mode == 4 || mode == 3 || !opened) { if (mode == 3) { w.killProcess(w.client, 9, true); if (!others) { s.out.close(); s.in.close(); s.err.close(); } } else s.free(); } else { c.label("died after the calls"); w.killProcess(w.client, 9, true); if (!others) { s.out.close(); s.in.close(); s.err.close(); } } }
    else if (!s.wp) c.label("died during start-up");
    // from here on nobody is connected
    auto gone = [&] { for (auto *a : w.agents()) if (!a->exited) return false; return true; };
    auto ags = w.agents(); if (ags.empty()) return;
    w.run(gone, 60000);
    for (auto *a : ags) {
        if (!a->exited) c.fail("an agent is still running a minute after its client was gone");
        if (a->exitTime > died + 5000) c.fail("the agent ended only %d ms after its client was gone", (int)(a->exitTime - died));
    }
    if (w.agentAsserted && opened) c.fail("the agent failed an assertion: %s", w.agentAssertText.c_str());
    if (w.agentAsserted && !startAssert(w.agentAssertText)) c.fail("the agent failed an assertion at start-up: %s", w.agentAssertText.c_str());
    w.runFor(50);
    for (auto &q : w.procs) if (!q->exited && q.get() != w.client && q->con && !q->isAgent) c.fail("a program is still running on the console of a closed session");
    if (!w.agentAsserted) s.misuse();
    if (blocked) c.label("output not read"); if (busyApp) c.label("output produced"); if (s.child) c.label("program running");
    if (opened && (p.steps.size() > 1 || mode == 1 || mode == 2)) c.nontrivial();
    if (at >= 0) c.nontrivial();
}
static pbt::Registrar r27({"C27", "random sessions ended by winpty_free, by the death of the client at any system call of the library or the agent (start-up included), or after the client hung or idled; outputs read or blocked. Non-trivial: more than one operation, or a death at a chosen call.", c27, 5, 5000, 100000, 10, {"freed", "client dies at one of its calls", "client dies at an agent call", "client hangs, then dies", "long idle, then freed", "died during start-up", "output not read", "program running", "serves while the client hangs"}});

// ---- C29
void c29(pbt::Ctx &c) {
    int n = 1 + (int)c.choose(3); std::vector<Plan> plans; std::vector<std::pair<int, int>> order;      // (session, step): step -1 opens, -2 frees
    for (int i = 0; i < n; ++i) plans.push_back(genPlan(c, 6));
    for (auto &p : plans) { p.cfg = plans[0].cfg; p.pol = plans[0].pol; for (auto &st : p.steps) if (st.kind == 4 && c.chance(60)) st.b |= 3; }
    { std::vector<int> next(n, -1); std::vector<int> live; for (int i = 0; i < n; ++i) live.push_back(i); bool seq = c.chance(40);
      while (!live.empty()) { size_t k = seq ? 0 : c.choose(live.size()); int s = live[k]; if (next[s] < (int)plans[s].steps.size()) { order.push_back({s, next[s]}); ++next[s]; } else { order.push_back({s, -2}); live.erase(live.begin() + k); } if (next[s] > 0 && c.chance(10) && next[s] < (int)plans[s].steps.size()) { next[s] = (int)plans[s].steps.size(); } } }
    c.note("%s, %d session(s)", osName(plans[0].cfg.os), n);
    int mode = c.weighted({4, 4, 2, 2, 2}); std::vector<std::string> log; uint64_t apis = 0; long allocs = 0; Fault f; long at = -1; uint64_t cnt = 0; bool hit = false;
    std::vector<std::pair<size_t, size_t>> inStep;
    for (int round = 0; round < 2; ++round) {
        keepStatics = round == 1; World &w = reset(plans[0].cfg); keepStatics = false; w.crashIsDeath = true; oom.track = true; oom.live = 0; auto base = w.client->table; std::vector<std::unique_ptr<Scn>> ss; w.countFallible = round == 0; uint64_t api = 0; cnt = 0;
        if (round == 0) w.onApi = [&](const char *) { if (w.cur->proc->isAgent) ++api; };
        else if (mode == 1 || mode == 2) {
            const char *pre = mode == 1 ? "client:" : "agent:"; std::vector<std::string> all; for (auto &x : log) if (x.compare(0, strlen(pre), pre) == 0 && x != "client:GetModuleHandleExW" && x != "client:LoadLibraryW" && x != "client:SetProcessWindowStation" && x != "client:CloseWindowStation" && x != "client:CloseDesktop") all.push_back(x);
            if (!all.empty()) { std::vector<std::string> sel = all; if (c.chance(50)) { sel.clear(); for (auto &r : inStep) for (size_t i = r.first; i < r.second; ++i) if (std::find(all.begin(), all.end(), log[i]) != all.end()) sel.push_back(log[i]); if (sel.empty()) sel = all; } std::vector<std::string> names = sel; std::sort(names.begin(), names.end()); names.erase(std::unique(names.begin(), names.end()), names.end()); f.api = names[c.choose(names.size())]; { int total = (int)std::count(all.begin(), all.end(), f.api), part = (int)std::count(sel.begin(), sel.end(), f.api); f.nth = total - (int)c.choose(part); } static const uint32_t errs[] = {5, 8, 109, 232, 1450}; f.err = errs[c.choose(5)]; w.faults.push_back(f); c.note("fault: %s call %d fails with %u", f.api.c_str(), f.nth, f.err); }
        } else if (mode == 3) { at = (long)c.choose(apis + 1); c.note("fault: an agent dies at its system call %ld", at); w.onApi = [&](const char *) { Process *q = w.cur->proc; if (!q->isAgent || (long)cnt++ != at) return; hit = true; w.timers.insert({w.now, [&w, q] { w.killProcess(q, 5, true); }}); }; }
        else if (mode == 4 && allocs) { oom.nth = 1 + (long)c.choose(allocs); c.note("fault: memory allocation %ld fails", oom.nth); }
        for (int i = 0; i < n; ++i) { ss.emplace_back(new Scn(c, plans[i], w)); ss.back()->base = base; ss.back()->shared = true; }
        std::vector<long> held(n, 0); std::vector<size_t> given(n, 0); std::vector<size_t> first(n, 0);
        for (auto &o : order) {
            Scn &s = *ss[o.first]; size_t t0 = w.client->table.size(); std::set<int> kinds;
            if (o.second == -1) { if (s.open()) held[o.first] = (long)w.client->table.size() - (long)t0; else if (w.client->table.size() != t0) c.fail("winpty_open failed and left %ld handle(s) open", (long)w.client->table.size() - (long)t0); }
            else if (!s.wp) continue;
            else if (o.second == -2) {
                std::vector<uint64_t> g = s.given; s.given.clear(); bool before = c.chance(50);
                if (before) for (auto h : g) w.closeHandle(w.client, h);
                s.free();
                if (!before) for (auto h : g) { if (!w.client->table.count(h)) c.fail("a process handle given to the caller is closed by winpty_free"); w.closeHandle(w.client, h); }
                held[o.first] = 0; given[o.first] = 0;
            } else { size_t l0 = w.fallibleLog.size(); s.step(plans[o.first].steps[o.second]); given[o.first] = s.given.size(); if (round == 0) inStep.push_back({l0, w.fallibleLog.size()}); }
            long want = (long)base.size(); bool any = false; for (int i = 0; i < n; ++i) { want += held[i] + (long)given[i]; any |= ss[i]->failed || ss[i]->oomSeen; }
            long have = (long)w.client->table.size();
            if (have > want || (!any && have < want)) { std::string x; for (auto &kv : w.client->table) if (!base.count(kv.first)) x += std::string(" ") + kv.second.obj->kind() + " (" + kv.second.origin + ")"; c.fail("the client holds %ld handles, %ld expected:%s", have, want, x.c_str()); }
        }
        for (auto &s : ss) { s->out.close(); s->in.close(); s->err.close(); }
        for (auto &s : ss) { s->noLeak("after all sessions were freed"); if (s->openRes.hasErr && n > 1) c.label("failed open among others"); }
        if (round == 1 && oom.live != 0 && mode != 4) c.fail("%ld block(s) of memory allocated by the library are still in use after every session was freed", oom.live);
        oom.track = false;
        if (round == 0) { log = w.fallibleLog; apis = api; allocs = oom.count; }
        else { hit |= !w.faultsHit.empty() || oom.hit; if (hit) { c.label("fault reached"); c.nontrivial(); } bool bad = false; for (auto &s : ss) bad |= s->badCalls > 0; if (bad) c.label("failed call"); if (n > 1) { c.label("several sessions"); c.nontrivial(); } w.onApi = nullptr;
            auto gone = [&] { for (auto *a : w.agents()) if (!a->exited) return false; return true; }; w.run(gone, 60000); }
    }
    // agent side: repeated use does not cost handles
    if (!c.chance(50)) return;
    Plan p = genPlan(c, 8); Scn s(c, p); World &w = s.w; if (!s.open()) c.fail("winpty_open failed without a fault");
    s.connect(true); for (int kd : {1, 2, 3, 0}) s.step({kd, 30, 20, false});
    w.runFor(100); s.drain(); size_t h1 = s.agent->table.size(), l1 = s.agent->local.size();
    int reps = 1 + (int)c.choose(12); for (int i = 0; i < reps; ++i) { int kd = (int)c.choose(6); if (kd == 4) kd = 3; s.step({kd, kd == 0 ? (int)c.choose(30) : c.range(1, 120), c.range(1, 50), c.chance(50)}); }
    for (int i = 0; i < 300; ++i) { w.runFor(1); s.drain(); }
    if (s.agent->table.size() > h1) { std::map<std::string, int> cntk; for (auto &kv : s.agent->table) cntk[std::string(kv.second.obj->kind()) + " " + kv.second.origin]++; std::string x; for (auto &kv : cntk) x += " " + kv.first + "*" + std::to_string(kv.second); c.fail("the agent holds %zu handles after %d more operations, %zu before:%s", s.agent->table.size(), reps, h1, x.c_str()); }
    if (s.agent->local.size() > l1) c.fail("the agent holds %zu system memory blocks after %d more operations, %zu before", s.agent->local.size(), reps, l1);
    if (s.con && s.con->buffers.size() > 64) c.fail("screen buffers pile up");
    c.label("agent in repeated use"); s.free(); s.out.close(); s.in.close(); s.err.close(); s.noLeak("at the end");
}
static pbt::Registrar r29({"C29", "one to three interleaved sessions in one client process with random calls, random order of freeing and (mostly) one injected fault; after every call the client's handle table is compared with what each open session may hold, at the end system memory, heap blocks and handles must be back; then one session under repeated use with the agent's handle table compared. Non-trivial: several sessions or a fault that was reached.", c29, 5, 3000, 60000, 10, {"several sessions", "fault reached", "failed call", "failed open among others", "agent in repeated use"}});
}
