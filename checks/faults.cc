// C18 malformed protocol data, C19 error contract under faults, C27 agent lifetime, C29 resources.
#include "model/scn.h"
#include "model/session.h"
#include "model/wire.h"
#include <windows.h>
#include <algorithm>
#include <string.h>
#undef min
#undef max
using namespace session;
using namespace scn;
using wire::Enc; using wire::Dec;
namespace {
std::string mutate(pbt::Ctx &c, std::string p, bool &mutated) {
    static const uint64_t sizes[] = {0, 1, 7, 8, 9, 16, 100, 4096, 1u << 20, 1ull << 40, 1ull << 62, 1ull << 63, ~0ull, ~0ull - 7, 0x7fffffffffffffffull};
    auto fix = [&](bool f) { if (f && p.size() >= 8) { uint64_t n = p.size(); memcpy(&p[0], &n, 8); } };
    mutated = true;
    int times = 1 + (c.chance(20) ? (int)c.choose(3) : 0);
    for (int i = 0; i < times; ++i) switch (c.weighted({3, 3, 3, 3, 2, 3, 1, 2})) {
    case 0: p.resize(c.choose(p.size() + 1)); fix(c.chance(70)); break;                                   // cut
    case 1: p += std::string(1 + c.choose(20), (char)c.choose(256)); fix(c.chance(70)); break;            // trailing bytes
    case 2: if (p.size() > 8) { size_t k = 8 + c.choose(p.size() - 8); p[k] = (char)c.choose(256); } break;      // any byte
    case 3: { std::vector<size_t> tags; for (size_t k = 8; k < p.size(); ++k) if ((uint8_t)p[k] <= 2) tags.push_back(k); if (!tags.empty()) p[tags[c.choose(tags.size())]] = (char)(c.choose(2) ? c.choose(3) : c.choose(256)); break; }   // field type
    case 4: { uint64_t n = c.chance(70) ? sizes[c.choose(15)] : p.size() + c.choose(9) - 4; if (p.size() >= 8) memcpy(&p[0], &n, 8); break; }      // packet size
    case 5: { std::vector<size_t> t; for (size_t k = 8; k + 9 <= p.size(); ++k) if (p[k] == 2) t.push_back(k); if (t.empty()) break; size_t k = t[c.choose(t.size())]; uint64_t n = c.chance(60) ? sizes[c.choose(15)] : 0; if (c.chance(40)) { memcpy(&n, &p[k + 1], 8); n += c.choose(5) - 2; } memcpy(&p[k + 1], &n, 8); break; }   // string length
    case 6: { size_t n = c.choose(60); std::string q(n, 0); for (auto &x : q) x = (char)c.choose(256); p = std::string(8, 0) + q; fix(true); break; }    // garbage
    case 7: { if (p.size() < 18) break; size_t a = 8 + c.choose(p.size() - 8), b = 8 + c.choose(p.size() - 8); if (a > b) std::swap(a, b); p.erase(a, b - a); fix(c.chance(70)); break; }
    }
    return p;
}
U16 smallText(pbt::Ctx &c) { U16 s; int n = c.skewed(0, 40); for (int i = 0; i < n; ++i) s += (char16_t)(1 + c.choose(0x300)); return s; }
}
// ---- the library against a malicious agent
struct Fake {
    pbt::Ctx &c; World &w; Ext e; std::string sent, reqs; size_t used = 0; bool closed = false; Process *p = nullptr;
    enum End { Stay, Close, Exit };
    std::function<void()> onRequest; bool exitNow = false; int exits = 0;
    void send(const std::string &s) { sent += s; e.write(s); }
};
static bool nextPacket(Fake &f, std::string &pkt, bool &complete) {     // what the library will read next
    complete = false;
    if (f.sent.size() - f.used < 8) return false;
    uint64_t n; memcpy(&n, &f.sent[f.used], 8);
    if (n < 8) { complete = true; pkt.clear(); return true; }
    if (n > f.sent.size() - f.used) return false;
    pkt = f.sent.substr(f.used, n); f.used += n; complete = true; return true;
}
static void expectErr(pbt::Ctx &c, const char *call, const Call &r, const char *why) {
    if (r.ok) c.fail("%s succeeded although %s", call, why);
    if (!r.hasErr) c.fail("%s failed (%s) without an error object", call, why);
    if (r.code == 0 || r.code > 8) c.fail("%s failed (%s) with undocumented code %u", call, why, r.code);
    if (r.msg.empty()) c.fail("%s failed (%s) with an empty message", call, why);
}
static void c18lib(pbt::Ctx &c) {
    Config cfg = genConfig(c); if (cfg.os >= OS_VISTA) cfg.showConsoleEnv = true; World &w = reset(cfg); w.pol = genPolicy(c, true);
    Opts o; o.flags = c.chance(40) ? F_CONERR : 0; o.timeout = 2000;
    Fake f{c, w}; bool mut = false; int badSetup = c.chance(40);
    Enc se; se.str(u"\\\\.\\pipe\\a").str(smallText(c)); if (o.flags) se.str(smallText(c)); 
    std::string setup = se.done(); if (badSetup) setup = mutate(c, setup, mut);
    bool dieAfterSetup = c.chance(15); std::string toSend; bool wantClose = false, wantExit = false;
    w.agentBody = [&](Process *p) -> int {
        f.p = p; U16 cl = p->cmdline; size_t k = cl.find(u"\\\\.\\pipe\\"); U16 name = cl.substr(k, cl.find(u' ', k) - k);
        if (!f.e.open(name, true, true, p->pid)) return 1;
        f.send(setup);
        for (;;) {
            if (wantClose) { f.e.close(); f.closed = true; wantClose = false; }
            if (wantExit) { f.e.close(); f.closed = true; return 0; }
            if (!f.closed) f.reqs += f.e.read();
            if (f.onRequest && f.reqs.size() >= 8) { uint64_t n; memcpy(&n, &f.reqs[0], 8); if (f.reqs.size() >= n) { auto g = f.onRequest; f.onRequest = nullptr; f.reqs.clear(); g(); continue; } }
            Sleep(1);
        }
    };
    if (dieAfterSetup) { if (c.chance(50)) wantClose = true; else wantExit = true; }
    auto base = w.client->table;
    void *wp = nullptr; Call r; uint64_t t0 = w.now;
    c.note("setup packet of %zu bytes%s%s: %s", setup.size(), badSetup ? " (mutated)" : "", dieAfterSetup ? ", then the agent leaves" : "", esc(setup.substr(0, 60)).c_str());
    if (!w.call([&] { r = libOpen(o, &wp); }, 100000)) c.fail("winpty_open did not return");
    std::string pkt; bool complete; bool got = nextPacket(f, pkt, complete);
    bool valid = false; U16 n0, n1, n2;
    if (got && !pkt.empty()) { Dec d(pkt); n0 = d.str(); n1 = d.str(); if (o.flags) n2 = d.str(); valid = d.end(); }
    if (dieAfterSetup && valid && !r.ok) valid = false;        // it may be gone before it could be asked
    if (!valid) { expectErr(c, "winpty_open", r, "the setup packet is not valid"); c.label("open rejected"); }
    else {
        if (!r.ok) c.fail("winpty_open failed on a valid setup packet: %u %s", r.code, u8(r.msg).c_str());
        auto cstr = [](const U16 &s) { return s.substr(0, s.find(u'\0')); };
        if (libName(wp, 0) != cstr(n0) || libName(wp, 1) != cstr(n1)) c.fail("the pipe names differ from the setup packet");
    }
    if (w.now - t0 > 4 * 2000 + 1000) c.fail("winpty_open took %d ms with a timeout of 2000", (int)(w.now - t0));
    bool dead = dieAfterSetup, refused = false; int calls = 0, rejected = 0; std::vector<uint64_t> given;
    while (r.ok && wp && ++calls <= 6 && (calls == 1 || c.more(4))) {
        pbt::Ctx::Span sp(c);
        int kind = (int)c.choose(3); Enc e; uint64_t hp = 0, ht = 0; int cap = c.skewed(0, 20);
        auto child = w.newProcess("child", f.p);
        if (kind == 0) { int res = c.chance(60) ? 1 : c.chance(60) ? 0 : (int)c.choose(10) - 3; e.i32(res);
            if (res == 0) e.i32((int)c.choose(20)); else { if (c.chance(70) && !dead) hp = w.addHandle(f.p, child, "child"); if (c.chance(50) && !dead) { auto th = std::make_shared<ThreadObj>(); th->proc = child.get(); ht = w.addHandle(f.p, th, "thread"); } if (c.chance(10)) { ht = 0x99990; } e.i64(hp).i64(ht); } }
        else if (kind == 2) { int n = c.skewed(0, 30); e.i32(n); for (int i = 0; i < n; ++i) e.i32((int)c.choose(100000)); }
        std::string reply = e.done(); bool m = c.chance(60); if (m) reply = mutate(c, reply, mut); if (c.chance(6)) reply += reply, m = true;
        int leave = c.chance(12) ? 1 + (int)c.choose(2) : 0;
        f.onRequest = [&, reply, leave] { f.send(reply); if (leave == 1) wantClose = true; if (leave == 2) wantExit = true; };
        c.note("call %d (%s): reply %zu bytes%s%s: %s", calls, kind == 0 ? "spawn" : kind == 1 ? "set_size" : "process list", reply.size(), m ? " (mutated)" : "", leave ? ", then the agent leaves" : "", esc(reply.substr(0, 60)).c_str());
        Call q; std::vector<int> arr(cap + 2, -77); SpawnArgs a; t0 = w.now; size_t probs = w.problems.size(); f.reqs.clear(); size_t written0 = f.e.inst ? f.e.inst->toClient.delivered + f.e.unread() : 0;
        auto tableBefore = w.client->table, agentTable = f.p->table;
        bool back = w.call([&] { q = kind == 0 ? libSpawn(wp, a) : kind == 1 ? libSetSize(wp, 80, 25) : libProcList(wp, arr.data(), cap); }, 100000);
        const char *nm = kind == 0 ? "winpty_spawn" : kind == 1 ? "winpty_set_size" : "winpty_get_console_process_list";
        if (!back) c.fail("%s did not return", nm);
        if (kind == 2 && q.returned && !q.hasErr) q.ok = true;        // an empty list is a result
        if (w.now - t0 > 4 * 2000 + 1000) c.fail("%s took %d ms with a timeout of 2000", nm, (int)(w.now - t0));
        if (refused) {
            expectErr(c, nm, q, "an earlier call had failed"); if (w.now != t0) c.fail("%s waited although the session had already failed", nm);
            if (f.e.inst->toClient.delivered + f.e.unread() != written0) c.fail("%s sent a request although the session had already failed", nm);
            f.onRequest = nullptr; continue;
        }
        got = nextPacket(f, pkt, complete); bool ok = false, either = false; int count = 0; uint32_t cerr = 0; int64_t gp = 0, gt = 0; bool crFail = false; std::vector<int> ids;
        if (got && !pkt.empty()) {
            Dec d(pkt);
            if (kind == 0) { int res = d.i32(); if (res == 0) { cerr = d.i32(); crFail = d.end(); } else if (res == 1) { gp = d.i64(); gt = d.i64(); ok = d.end(); } }
            else if (kind == 1) ok = d.end();
            else { count = d.i32(); for (int i = 0; i < count && !d.bad; ++i) ids.push_back(d.i32()); ok = d.end(); if (count < 0) either = ok; }
        }
        if (kind == 0 && ok) {      // the handles must exist in the agent
            auto known = [&](int64_t h) { return h == 0 || agentTable.count((uint64_t)h); };
            bool unknown = !known(gp) || !known(gt) || (gp && gp == gt); if (unknown) ok = false; either = unknown && gp == gt;
            if (unknown) w.problems.resize(probs);
        }
        if (!f.onRequest && dead) ok = ok && q.ok;
        if (f.onRequest) { ok = ok && q.ok; f.onRequest = nullptr; }        // the request never arrived: the agent had left
        if (leave && ok && !q.ok) ok = false;
        if (leave) dead = true;
        if (crFail && !q.ok && q.hasErr && q.code == E_SPAWN) { if (q.createErr != cerr) c.fail("the create error is %u, the agent said %u", q.createErr, cerr); if (q.hProc || q.hThread) c.fail("a failed spawn left handles in the outputs"); continue; }
        if (crFail && !leave && !dead) c.fail("a valid 'process creation failed' reply gave code %u", q.code);
        if (either) { if (!q.ok) refused = q.hasErr; continue; }
        if (ok) {
            bool good = q.ok || (kind == 2 && count == 0 && !q.hasErr);
            if (!good) c.fail("%s failed on a valid reply: %u %s", nm, q.code, u8(q.msg).c_str());
            if (kind == 2) { if (q.n != count) c.fail("the agent reported %d processes, the call %d", count, q.n); if (count <= cap) for (int i = 0; i < count; ++i) if (arr[i] != ids[i]) c.fail("process %d of the list differs", i); for (int i = count <= cap ? count : 0; i < (int)arr.size(); ++i) if (arr[i] != -77) c.fail("the array was written beyond the list"); }
            if (kind == 0) { if (!!gp != !!q.hProc || !!gt != !!q.hThread) c.fail("handles do not match the reply"); if (q.hProc) given.push_back(q.hProc); if (q.hThread) given.push_back(q.hThread); }
        } else {
            expectErr(c, nm, q, "the reply is not valid"); refused = true; ++rejected;
            if (kind == 0 && (q.hProc || q.hThread)) c.fail("a failed spawn left handles in the outputs");
            if (kind == 0 && q.createErr) c.fail("a spawn that failed on a bad reply reports process creation error %u", q.createErr);
            if (w.client->table.size() + 1 != tableBefore.size() ) c.fail("a failed call changed the number of open handles of the client from %zu to %zu (only the control pipe should have gone)", tableBefore.size(), w.client->table.size());
            c.label("reply rejected");
        }
    }
    if (wp && !w.call([&] { libFree(wp); }, 100000)) c.fail("winpty_free did not return");
    for (auto h : given) w.closeHandle(w.client, h);
    if (w.client->table.size() != base.size()) c.fail("%zu handles were open before, %zu afterwards", base.size(), w.client->table.size());
    if (w.closedWithIo) c.fail("a pipe was closed with I/O in flight");
    if (!w.problems.empty()) c.fail("system interface misuse: %s", w.problems[0].c_str());
    w.agentBody = nullptr;
    if (mut) c.nontrivial();
}
// ---- the agent against malformed requests
static void c18agent(pbt::Ctx &c) {
    Config cfg = genConfig(c); World &w = reset(cfg); w.pol = genPolicy(c, true);
    Opts o; o.attach = c.chance(50);
    Session s(c, w, o); s.open(); s.con = s.agent->con;
    std::shared_ptr<PipeInst> ctl; for (auto &p : w.allPipes) if (p->rec.ownerPid == w.client->pid && p->clientPid == s.agent->pid) ctl = p;
    if (!ctl) c.fail("no control pipe found");
    std::string stream; int n = 1 + (int)c.choose(4); bool mut = false, any = false;
    for (int i = 0; i < n; ++i) {
        pbt::Ctx::Span sp(c);
        Enc e; int kind = (int)c.choose(4);
        if (kind == 0) e.i32(0).i64(c.choose(4)).i32((int)c.choose(2)).i32((int)c.choose(2)).str(smallText(c)).str(smallText(c)).str(smallText(c)).str(c.chance(50) ? U16() : U16(u"A=B\0\0", 5)).str(U16());
        else if (kind == 1) e.i32(1).i32(c.range(1, 200)).i32(c.range(1, 100));
        else if (kind == 2) e.i32(2);
        else { e.i32(c.chance(50) ? (int)c.choose(100) : (int)c.choose(1 << 30)); if (c.chance(50)) e.i32(5); }
        std::string p = e.done(); bool m = c.chance(50); if (m) { p = mutate(c, p, mut); any = true; }
        c.note("request kind %d%s: %s", kind, m ? " (mutated)" : "", esc(p.substr(0, 70)).c_str());
        stream += p;
    }
    // what a correct receiver does with the stream
    int creates = 0, sizes = 0, lists = 0; bool bad = false, open = false, unsure = false, unknownType = false; size_t at = 0; std::string why; int lastCols = 0, lastRows = 0; bool argless = false;
    while (at < stream.size() && !bad && !unsure) {
        if (stream.size() - at < 8) { open = true; break; }
        uint64_t len; memcpy(&len, &stream[at], 8);
        if (len < 8) { bad = true; why = "packet size below 8"; break; }
        if (len > stream.size() - at) { open = true; break; }
        Dec d(stream.substr(at, len)); at += len; int t = d.i32();
        if (d.bad) { bad = true; why = "no message type"; break; }
        if (t == 0) { d.i64(); d.i32(); d.i32(); U16 app = d.str(), cmd = d.str(); d.str(); U16 env = d.str(), desk = d.str(); if (!d.end()) { bad = true; why = "bad spawn request"; break; } if (!env.empty() && (env.size() < 2 || env[env.size() - 1] || env[env.size() - 2])) { c.label("environment block without end (not judged)"); return; } if (creates) { unsure = true; break; } if (!desk.empty() || app.find(u'\0') != U16::npos || cmd.find(u'\0') != U16::npos) argless = true; ++creates; if (app.empty() && cmd.empty()) { argless = true; } if (argless) { unsure = true; break; } }
        else if (t == 1) { int nc = d.i32(), nr = d.i32(); if (!d.end()) { bad = true; why = "bad resize request"; break; } if (nc < 1 || nr < 1) { unsure = true; break; } lastCols = nc; lastRows = nr; ++sizes; }
        else if (t == 2) { if (!d.end()) { bad = true; why = "bad process list request"; break; } ++lists; }
        else { unknownType = true; }
    }
    if (unknownType) { unsure = true; }
    if (unsure) {      // what follows may be acted on: nothing the library never sends may reach process creation
        for (size_t a = at; a + 8 <= stream.size();) { uint64_t len; memcpy(&len, &stream[a], 8); if (len < 8 || len > stream.size() - a) break; Dec d(stream.substr(a, len)); a += len; if (d.i32() != 0) continue; d.i64(); d.i32(); d.i32(); d.str(); d.str(); d.str(); U16 env = d.str(); d.str(); if (d.end() && !env.empty() && (env.size() < 2 || env[env.size() - 1] || env[env.size() - 2])) return; }
    }
    if (argless) w.onSpawn = [](CreateRec &) -> uint32_t { return 87; };
    auto b = s.con->active; int w0 = b->win.w(), h0 = b->win.h(); size_t cr0 = w.creates.size(), rep0 = ctl->toServer.avail();
    bool split = c.chance(50);
    for (size_t i = 0; i < stream.size();) { size_t k = split ? 1 + c.choose(stream.size() - i) : stream.size() - i; ctl->toClient.ext += stream.substr(i, k); w.pump(); i += k; if (split) s.run(c.choose(5)); }
    size_t probs = w.problems.size(); bool ended = false;
    for (int i = 0; i < 400 && !ended; ++i) { s.run(5); ended = s.agent->exited; }
    size_t made = w.creates.size() - cr0;
    if (argless || unsure) w.problems.resize(std::min(probs, w.problems.size()));
    if (bad && !unsure && !ended && !w.agentAsserted) c.fail("the agent goes on after a malformed request (%s)", why.c_str());
    if (!unsure && !sizes && (b->win.w() != w0 || b->win.h() != h0)) c.fail("the agent acted on a malformed resize request (%s): the window went from %dx%d to %dx%d", bad ? why.c_str() : "incomplete", w0, h0, b->win.w(), b->win.h());
    if (!unsure && sizes && (!bad || !w.agentAsserted) && lastCols >= 28 && lastCols <= 200 && lastRows <= 60 && (b->w != lastCols || b->win.h() != lastRows)) c.fail("the last valid resize request says %dx%d, the buffer has %d columns and the window %d rows (%s)", lastCols, lastRows, b->w, b->win.h(), bad ? why.c_str() : "no malformed request");
    if (!unsure && made > (size_t)creates) c.fail("the agent acted on a malformed spawn request (%s)", bad ? why.c_str() : "incomplete");
    if (!unsure && !bad && made != (size_t)creates) c.fail("%d valid spawn requests, %zu processes were created", creates, made);
    if (!unsure && !ended) {
        // replies: count complete packets the library would read
        std::string rep = ctl->toServer.data.substr(ctl->toServer.off); size_t k = rep0, cnt = 0; while (k + 8 <= rep.size()) { uint64_t len; memcpy(&len, &rep[k], 8); if (len < 8 || len > rep.size() - k) break; k += len; ++cnt; }
        size_t want = creates + sizes + lists;
        if (cnt > want) c.fail("%zu replies for %zu valid requests", cnt, want);
        if (cnt < want && !bad && k == rep.size() && ctl->toServer.writes.empty()) c.fail("%zu replies for %zu valid requests (%zu bytes, %d open)", cnt, want, rep.size(), open);
    }
    if (!unsure && !bad && ended && !w.agentAsserted && !(creates)) c.fail("the agent ended although every request was valid");
    if (!w.problems.empty()) c.fail("system interface misuse: %s", w.problems[0].c_str());
    if (bad) c.label("request rejected"); if (open) c.label("incomplete request"); if (any) c.nontrivial();
    // whatever happened, freeing the session still works
    if (!w.call([&] { libFree(s.wp); }, 100000)) c.fail("winpty_free did not return");
    w.run([&] { return s.agent->exited; }, 40000); if (!s.agent->exited) c.fail("the agent is still alive after the session was freed");
}
static void c18(pbt::Ctx &c) { if (c.chance(50)) { c.label("library side"); c18lib(c); } else { c.label("agent side"); c18agent(c); } }
static pbt::Registrar r18({"C18", "the library against a scripted agent whose replies are mutated (cut, extended, field types, lengths, sizes, garbage, early close) and the agent against mutated request streams; an independent decoder decides which messages are valid. Non-trivial: a message was mutated.", c18, 5, 8000, 120000, 10, {"library side", "agent side", "open rejected", "reply rejected", "request rejected", "incomplete request"}});
// Not injected: calls that cannot fail for a reason outside the process, on whose failure the library asserts by design.
static bool excluded(const std::string &x) { static const char *n[] = {"client:GetModuleHandleExW", "client:LoadLibraryW"}; for (auto q : n) if (x == q) return true; return false; }
static void c19(pbt::Ctx &c) {
    Plan p = genPlan(c, 8); c.note("%s, flags %d", osName(p.cfg.os), (int)p.o.flags);
    int mode = c.weighted({5, 4, 3, 3, 4, 2}); Fault f; std::string what; long at = 0; bool persist = false; std::vector<std::string> log; uint64_t apis = 0, apis0 = 0; long allocs = 0, allocs0 = 0; size_t log0 = 0;      // ..0: at the end of winpty_open
    static const uint32_t errs[] = {5, 8, 87, 109, 232, 233, 1450, 14, 31};
    if (mode == 5) { Plan q = p; if (c.chance(50)) q.cfg.agentExeExists = false; else q.cfg.randomFails = true; p = q; what = q.cfg.agentExeExists ? "no random numbers" : "the agent program is missing"; }
    else {      // dry run: what happens without the fault
        Plan d = p; d.pol = Policy(); Scn s(c, d); s.w.countFallible = true; uint64_t n = 0; s.w.onApi = [&](const char *) { if (s.w.cur->proc->isAgent) ++n; };
        if (s.open()) { log0 = s.w.fallibleLog.size(); apis0 = n; allocs0 = oom.count; for (auto &st : p.steps) s.step(st); s.free(); }
        log = s.w.fallibleLog; apis = n; allocs = oom.count;
        if (s.badCalls > (int)std::count_if(p.steps.begin(), p.steps.end(), [](const Step &t) { return t.kind == 3; })) { c.note("fails without a fault"); }
    }
    Scn s(c, p); World &w = s.w; bool agentFault = false; uint64_t count = 0; w.crashIsDeath = mode == 1; bool late = c.chance(60);
    if (mode == 0 || mode == 1) {
        const char *pre = mode == 0 ? "client:" : "agent:"; auto pick = [&](size_t from) { std::vector<std::string> v; for (size_t i = from; i < log.size(); ++i) if (log[i].compare(0, strlen(pre), pre) == 0 && !excluded(log[i])) v.push_back(log[i]); return v; };
        std::vector<std::string> all = pick(0), sel = late ? pick(log0) : all; if (sel.empty()) sel = all;
        if (sel.empty()) return;
        // first pick the function, then the occurrence, so that rare calls get their share
        std::vector<std::string> names = sel; std::sort(names.begin(), names.end()); names.erase(std::unique(names.begin(), names.end()), names.end());
        f.api = names[c.choose(names.size())]; int total = (int)std::count(sel.begin(), sel.end(), f.api); f.nth = (int)std::count(all.begin(), all.end(), f.api) - (int)c.choose(total); f.err = errs[c.choose(9)]; if (f.api == "client:SetProcessWindowStation" && f.nth % 2 == 0) return;      /* the way back: nothing could be done about it */ w.faults.push_back(f);
        what = f.api + " call " + std::to_string(f.nth) + " fails with " + std::to_string(f.err); agentFault = mode == 1;
    } else if (mode == 2 || mode == 3) {
        at = late ? (long)(apis0 + c.choose(apis - apis0 + 1)) : (long)c.choose(apis + 1); bool client = false; (void)client; what = std::string("the agent ") + (mode == 2 ? "dies" : "hangs") + " at its system call " + std::to_string(at); agentFault = true;
        int how = (int)c.choose(2);
        w.onApi = [&, how](const char *) { Process *q = w.cur->proc; if (!q->isAgent || (long)count++ != at) return; c.label(how ? "agent fault inside the call" : "agent fault at a poll"); if (mode == 3) q->suspended = true; else w.timers.insert({w.now, [&w, q] { w.killProcess(q, 5, true); }}); };
    } else if (mode == 4) { if (!allocs) return; oom.nth = late && allocs > allocs0 ? 1 + allocs0 + (long)c.choose(allocs - allocs0) : 1 + (long)c.choose(allocs); oom.persist = persist = c.chance(40); what = "memory allocation " + std::to_string(oom.nth) + (persist ? " and all later ones fail" : " fails"); }
    c.note("fault: %s", what.c_str());
    bool tmo = false;
    s.onFail = [&](const char *nm, const Call &r, bool rpc) -> bool {
        bool expectedSpawn = !strcmp(nm, "failing spawn") && r.code == E_SPAWN; if (expectedSpawn) return true;
        auto in = [&](std::initializer_list<uint32_t> l) { for (auto x : l) if (r.code == x) return true; return false; };
        bool refused = s.failed || s.oomSeen;        // an earlier call failed: refusal, any failure code
        if (refused) return true;
        bool ok = true;
        if (mode == 5) ok = in({p.cfg.agentExeExists ? (uint32_t)E_UNSPEC : (uint32_t)E_EXE_MISSING, p.cfg.agentExeExists ? (uint32_t)E_AGENT_DIED : (uint32_t)E_EXE_MISSING, p.cfg.agentExeExists ? (uint32_t)E_LOST : (uint32_t)E_EXE_MISSING, p.cfg.agentExeExists ? (uint32_t)E_AGENT_TIMEOUT : (uint32_t)E_EXE_MISSING});
        else if (mode == 4) ok = in({E_OOM});
        else if (mode == 3) { ok = in({E_AGENT_TIMEOUT}); tmo = true; }
        else if (mode == 2) ok = in({E_AGENT_DIED, E_LOST, E_UNSPEC});
        else if (mode == 1) ok = in({E_AGENT_DIED, E_LOST, E_UNSPEC, E_AGENT_TIMEOUT, E_SPAWN});
        else {
            const std::string api = f.api.substr(7); bool broken = f.err == 109 || f.err == 232 || f.err == 233;
            if (api == "CreateProcessW") ok = in({E_AGENT_CREATE});
            else if (api == "GetFileAttributesW") ok = in({E_EXE_MISSING});
            else if (api == "ReadFile" || api == "WriteFile") ok = broken ? in({E_LOST}) : in({E_UNSPEC});
            else if (api == "GetOverlappedResult") ok = broken ? in({E_LOST, E_UNSPEC}) : in({E_UNSPEC});
            else ok = in({E_UNSPEC});
        }
        if (!ok) c.fail("%s: %s failed with code %u (%s)", what.c_str(), nm, r.code, u8(r.msg).substr(0, 200).c_str());
        return true;
    };
    if (s.open()) { for (auto &st : p.steps) s.step(st); s.free(); }
    bool hit = mode == 5 || !w.faultsHit.empty() || oom.hit || ((mode == 2 || mode == 3) && (long)count > at);
    w.onApi = nullptr;
    if (mode == 0 || mode == 2 || mode == 3 || mode == 4) s.misuse(1);
    if (w.closedWithIo && mode != 1) c.fail("a pipe was closed with I/O in flight");
    s.noLeak("at the end");
    if (hit) { c.nontrivial(); static const char *ml[] = {"client call failed", "agent call failed", "agent died", "agent hung", "memory ran out", "no agent or no random numbers"}; c.label(ml[mode]); if (s.badCalls) c.label("a call failed"); if (s.openRes.hasErr) c.label("open failed"); }
}
static pbt::Registrar r19({"C19", "random call sequences with one injected fault: the nth call of any system function in the library or the agent fails, the nth allocation in the library (and optionally all later ones) fails, the agent dies or hangs at any of its system calls, or it is missing; every call is judged by the documented contract. Non-trivial: the fault was reached.", c19, 5, 8000, 120000, 10, {"client call failed", "agent call failed", "agent died", "agent hung", "memory ran out", "no agent or no random numbers", "a call failed", "open failed"}});
