// C34 the debug server: the real program, with any number of honest, careless and dying clients.
#include <windows.h>
#include "model/session.h"
#include <algorithm>
using namespace sim;
namespace {
typedef std::basic_string<char16_t> U;
const wchar_t *kName = (const wchar_t *)u"\\\\.\\pipe\\DebugServer";
HANDLE connectTo(bool retry) {
    for (;;) {
        HANDLE h = CreateFileW(kName, GENERIC_READ | GENERIC_WRITE, 0, NULL, OPEN_EXISTING, SECURITY_SQOS_PRESENT | SECURITY_IDENTIFICATION, NULL);
        if (h != INVALID_HANDLE_VALUE || !retry || GetLastError() != ERROR_PIPE_BUSY) return h;
        if (!WaitNamedPipeW(kName, NMPWAIT_WAIT_FOREVER)) return INVALID_HANDLE_VALUE;
    }
}
std::string genMsg(pbt::Ctx &c, int k, int i) {
    size_t n; switch (c.weighted({6, 1, 1, 1, 1})) { case 0: n = c.skewed(0, 120); break; case 1: n = 0; break; case 2: n = 4096 - c.choose(3); break; case 3: n = 4097 + c.choose(40); break; default: n = c.range(200, 4000); }
    std::string m = "[" + std::to_string(k) + "." + std::to_string(i) + "]"; if (n < m.size()) m.resize(n);
    while (m.size() < n) m += c.chance(3) ? (char)c.choose(256) : (char)c.range(' ', '~');
    return m;
}
void c34(pbt::Ctx &c) {
    Config cfg = session::genConfig(c); World &w = reset(cfg); w.pol.yieldPct = c.chance(60) ? c.range(1, 60) : 0;
    // ---- start
    std::vector<std::string> args{"winpty-debugserver.exe"}; bool everyone = false, bad = false, help = false;
    if (c.chance(45)) { args.push_back("--everyone"); everyone = true; }
    if (c.chance(6)) { static const char *x[] = {"-h", "--help", "--Everyone", "everyone", "", "-x", "--everyone "}; int k = (int)c.choose(7); args.insert(args.begin() + 1 + c.choose(args.size()), x[k]); (k < 2 ? help : bad) = true; }
    bool taken = !bad && !help && c.chance(8); std::string fault;
    std::shared_ptr<PipeInst> foreign; Process *first = nullptr;
    if (taken) { if (c.chance(50)) w.onCreatePipe = [](const U16 &) { return true; }; else { first = startDebugServer({"winpty-debugserver.exe"}); w.runFor(10); } }
    if (everyone && c.chance(25)) {
        static const char *fapi[] = {"OpenProcessToken", "GetTokenInformation", "AllocateAndInitializeSid", "CreateWellKnownSid", "SetEntriesInAclW", "InitializeSecurityDescriptor", "SetSecurityDescriptorDacl", "LocalAlloc", "CopySid"};
        Fault f; f.api = std::string("winpty-debugserver.exe:") + fapi[c.choose(9)]; f.nth = 1; f.err = c.chance(50) ? 5 : 8; w.faults.push_back(f); fault = f.api;
    }
    std::string cl; for (auto &a : args) cl += " " + a; c.note("%s,%s%s%s", session::osName(cfg.os), cl.c_str(), taken ? ", the name is taken" : "", fault.empty() ? "" : (", " + fault + " fails").c_str());
    size_t rec0 = w.pipeRecs.size(); Process *srv = startDebugServer(args);
    if (bad || help) {
        w.runFor(50); if (!srv->exited || srv->exitCode != (bad && !(help && !bad) ? 1 : 0)) c.fail("%s: the server %s", cl.c_str(), srv->exited ? ("exits with status " + std::to_string(srv->exitCode)).c_str() : "keeps running");
        if (w.pipeRecs.size() != rec0) c.fail("the server creates its pipe although the arguments are not right"); if (w.stdio[srv].out.find("Usage:") == std::string::npos) c.fail("no usage message"); c.label("usage"); c.nontrivial(); return;
    }
    if (taken) {
        w.runFor(50); if (!srv->exited || srv->exitCode == 0) c.fail("the server %s although another process owns the pipe's name", srv->exited ? "ends as if nothing was wrong" : "keeps running");
        if (w.stdio[srv].err.empty()) c.fail("no error message although the pipe's name is taken"); if (w.squatted) c.fail("the pipe was opened as a further instance of somebody else's pipe");
        if (first && first->exited) c.fail("a second server ends the first one"); c.label("name taken"); c.nontrivial(); return;
    }
    // ---- clients
    struct Client { Process *p; int k; bool done = false, killed = false; int ok = 0; };
    int n = c.range(1, 5); std::vector<std::unique_ptr<Client>> cs; bool early = c.chance(40), oversize = false, silent = false; if (!early) w.runFor(5);
    struct Sent { std::string m; int pid; }; int okCount = 0;
    for (int k = 0; k < n; ++k) {
        cs.emplace_back(new Client); Client *x = cs.back().get(); auto p = w.newProcess("tracer", w.client); x->p = p.get(); x->k = k;
        struct Act { int kind; std::string m; int wait; }; std::vector<Act> acts; int na = c.skewed(1, 8);
        for (int i = 0; i < na; ++i) { Act a; a.kind = (int)c.weighted({10, 2, 2, 1}); a.m = genMsg(c, k, i); a.wait = c.chance(30) ? c.skewed(0, 60) : 0; oversize |= a.m.size() > 4096 && a.kind != 1; silent |= a.kind == 1; c.note("client %d: %s %d bytes, after %d ms", k, a.kind == 0 ? "sends" : a.kind == 1 ? "connects and leaves" : a.kind == 2 ? "writes and leaves" : "writes, waits", (int)a.m.size(), a.wait); acts.push_back(a); }
        if (c.chance(12)) { int at = c.range(0, 100); c.note("client %d dies at %d ms", k, at); w.timers.insert({w.now + at, [&w, x] { if (!x->done) { x->killed = true; w.killProcess(x->p, 9, true); } }}); }
        w.startThread(x->p, [&w, x, acts, &c, srv, &okCount] {
            for (auto &a : acts) {
                if (a.wait) Sleep(a.wait);
                HANDLE h = connectTo(true); if (h == INVALID_HANDLE_VALUE) { if (GetLastError() == ERROR_FILE_NOT_FOUND) { Sleep(3); h = connectTo(true); } if (h == INVALID_HANDLE_VALUE) continue; }
                if (a.kind == 1) { CloseHandle(h); continue; }
                DWORD mode = PIPE_READMODE_MESSAGE; SetNamedPipeHandleState(h, &mode, NULL, NULL); char rep[16]; DWORD got = 0;
                if (a.kind == 0) {
                    if (TransactNamedPipe(h, const_cast<char *>(a.m.data()), (DWORD)a.m.size(), rep, sizeof rep, &got, NULL)) {
                        ++okCount; ++x->ok; if (std::string(rep, got) != "OK") c.fail("the server answers '%s'", std::string(rep, got).c_str());
                        if (a.m.size() > 4096) c.fail("the server acknowledges a message of %d bytes", (int)a.m.size());
                        if (w.stdio[srv].shown.find(a.m + "\n") == std::string::npos) c.fail("the server acknowledges a message before it is shown");
                    }
                } else { WriteFile(h, a.m.data(), (DWORD)a.m.size(), &got, NULL); if (a.kind == 3) Sleep(5); }
                CloseHandle(h);
            }
            x->done = true; w.killProcess(x->p, 0, false);
        });
    }
    bool all = w.run([&] { for (auto &x : cs) if (!x->p->exited) return false; return true; }, 30000);
    if (fault.empty() || w.faultsHit.empty()) {
        if (srv->exited) c.fail("the server ended (status %d): %s", srv->exitCode, w.stdio[srv].err.c_str());
        if (!all) c.fail("a client waits for the server for ever");
    } else { // could not restrict the access: it must not run with any other
        c.label("no security descriptor"); if (!srv->exited || srv->exitCode == 0 || w.stdio[srv].err.empty()) c.fail("%s failed and the server %s", fault.c_str(), srv->exited ? "does not report it" : "runs"); if (w.pipeRecs.size() != rec0) c.fail("%s failed and the pipe was created all the same", fault.c_str()); c.nontrivial(); return;
    }
    w.runFor(200);
    // ---- what it printed
    std::shared_ptr<PipeInst> pi; for (auto &p : w.allPipes) if (p->rec.ownerPid == srv->pid) { if (pi) c.fail("the server creates more than one pipe"); pi = p; }
    if (!pi) c.fail("the server has no pipe");
    std::string want; int msgs = 0; for (auto &m : pi->accepted) if (m.size() <= 4096) { want += m + "\n"; ++msgs; }
    const std::string &got = w.stdio[srv].shown;
    if (got != want) { size_t d = 0; while (d < got.size() && d < want.size() && got[d] == want[d]) ++d; c.fail("the server shows %d bytes, the %d messages it was sent make %d; the first difference is at byte %d\n  sent:  ...%s\n  shown: ...%s", (int)got.size(), msgs, (int)want.size(), (int)d, esc(want.substr(d > 10 ? d - 10 : 0, 60)).c_str(), esc(got.substr(d > 10 ? d - 10 : 0, 60)).c_str()); }
    // ---- who may send
    const PipeRec &r = pi->rec;
    if (u8(r.name) != "\\\\.\\pipe\\DebugServer") c.fail("the server's pipe is '%s'", u8(r.name).c_str());
    if (!(r.openMode & FILE_FLAG_FIRST_PIPE_INSTANCE)) c.fail("the pipe may be a further instance of somebody else's pipe");
    if (r.maxInst != 1) c.fail("other processes may serve the pipe too");
    if (cfg.os != OS_XP && !(r.pipeMode & PIPE_REJECT_REMOTE_CLIENTS)) c.fail("the pipe is open to remote clients");
    if (r.inheritHandle) c.fail("the pipe handle is inheritable");
    if (!everyone && r.hasSd && !(r.daclPresent)) c.fail("everybody may use the pipe although --everyone was not given");
    bool others = false; for (auto &a : r.aces) if (a.sid.find("everyone") != std::string::npos || a.sid == "S-1-1-0") { others = true; if (a.mask & ~(uint32_t)(GENERIC_WRITE | GENERIC_READ | FILE_GENERIC_WRITE | FILE_GENERIC_READ)) c.fail("everybody gets access 0x%x to the pipe", a.mask); }
    if (!everyone && others) c.fail("everybody may send although --everyone was not given");
    if (everyone && (!r.hasSd || !r.daclPresent || !others)) c.fail("--everyone does not let everybody send (%s)", !r.hasSd ? "default access" : !r.daclPresent ? "no access list" : "no entry");
    if (w.stdio[srv].err.size() && !oversize && !silent) { bool died = false; for (auto &x : cs) died |= x->killed; if (!died) c.fail("the server complains about well-behaved clients: %s", w.stdio[srv].err.c_str()); }
    for (auto &q : w.problems) c.fail("system interface misuse: %s", q.c_str());
    if (early) c.label("clients first"); if (oversize) c.label("oversized message"); if (silent) c.label("client without a message"); if (everyone) c.label("--everyone"); for (auto &x : cs) if (x->killed) { c.label("dying client"); break; }
    if (msgs >= 2) c.nontrivial();
}
}
static pbt::Registrar r34({"C34", "the real debug server with one to five clients that send, connect and leave, write without waiting for the answer, send too much or die, under random scheduling at every system call; what it has shown must be the accepted messages, whole and in order, and every acknowledged message must already be shown; arguments, a taken name, a failing access list and the access of the pipe are judged. Non-trivial: two messages or more were shown, or a start that has to fail.", c34, 5, 4000, 60000, 20, {"usage", "name taken", "clients first", "oversized message", "client without a message", "--everyone", "dying client", "no security descriptor"}});
