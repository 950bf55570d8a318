// C24 command-line quoting, C25 relaying, C31 program/exit code/environment, C32 terminal size and modes of the console adapter.
#include "model/rig.h"

#include <windows.h>
namespace {
// ---- Windows' rules for splitting a command line, written from their documentation
std::vector<U16> splitFirst(const U16 &s, size_t &i) {      // the program name: up to the closing quote or the first blank, no escapes
    U16 a; bool q = false; while (i < s.size() && (q || (s[i] != ' ' && s[i] != '\t'))) { if (s[i] == '"') q = !q; else a += s[i]; ++i; } return {a};
}
std::vector<U16> splitCrt(const U16 &s) {                   // C runtime, "" inside quotes is one quote (2008 and later)
    size_t i = 0; std::vector<U16> v = splitFirst(s, i);
    for (;;) {
        while (i < s.size() && (s[i] == ' ' || s[i] == '\t')) ++i; if (i >= s.size()) return v;
        U16 a; bool q = false;
        while (i < s.size()) { size_t b = 0; while (i < s.size() && s[i] == '\\') { ++b; ++i; } if (i < s.size() && s[i] == '"') { a.append(b / 2, u'\\'); if (b & 1) { a += u'"'; ++i; } else if (q && i + 1 < s.size() && s[i + 1] == '"') { a += u'"'; i += 2; } else { q = !q; ++i; } } else { a.append(b, u'\\'); if (i >= s.size() || (!q && (s[i] == ' ' || s[i] == '\t'))) break; a += s[i++]; } }
        v.push_back(a);
    }
}
std::vector<U16> splitShell(const U16 &s) {                 // CommandLineToArgvW: three quotes in a row make one, quote state as documented by its behaviour
    size_t i = 0; std::vector<U16> v; U16 a; if (!s.empty() && s[0] == '"') { ++i; while (i < s.size() && s[i] != '"') a += s[i++]; ++i; } else while (i < s.size() && s[i] != ' ' && s[i] != '\t') a += s[i++]; v.push_back(a);
    for (;;) {
        while (i < s.size() && (s[i] == ' ' || s[i] == '\t')) ++i; if (i >= s.size()) return v;
        a.clear(); int qc = 0;
        while (i < s.size() && (qc || (s[i] != ' ' && s[i] != '\t'))) {
            if (s[i] == '\\') { size_t b = 0; while (i < s.size() && s[i] == '\\') { ++b; ++i; } if (i < s.size() && s[i] == '"') { a.append(b / 2, u'\\'); if (b & 1) { a += u'"'; ++i; continue; } } else { a.append(b, u'\\'); continue; } }
            if (s[i] == '"') { ++qc; ++i; while (i < s.size() && s[i] == '"') { if (++qc == 3) { a += u'"'; qc = 0; } ++i; } if (qc == 2) qc = 0; continue; }
            a += s[i++];
        }
        v.push_back(a);
    }
}
U16 wide(const std::string &s) { U16 r; for (size_t i = 0; i < s.size();) { unsigned char k = s[i]; int n = k < 0x80 ? 1 : k < 0xE0 ? 2 : k < 0xF0 ? 3 : 4; uint32_t x = n == 1 ? k : k & (0xFF >> (n + 1)); for (int j = 1; j < n; ++j) x = x << 6 | (s[i + j] & 0x3F); i += n; if (x >= 0x10000) { r += (char16_t)(0xD800 + ((x - 0x10000) >> 10)); r += (char16_t)(0xDC00 + ((x - 0x10000) & 0x3FF)); } else r += (char16_t)x; } return r; }
U16 winPath(const std::string &p) { std::string r = p.compare(0, 10, "/cygdrive/") == 0 ? std::string(1, (char)toupper(p[10])) + ":" + p.substr(11) : "C:\\cygwin64" + p; for (auto &k : r) if (k == '/') k = '\\'; return wide(r); }
std::string genArg(pbt::Ctx &c) {
    static const char *pieces[] = {"\\", "\"", " ", "\t", "a", "bc", "\\\\", "\\\"", "'", "\n", "*", "%PATH%", "^", "&", "\xC3\xA9", "\xE4\xB8\xAD", "\xF0\x9F\x98\x80", "-x", "/", "=", ",", "\v", "\r", "\x01", "$", "`"};
    std::string s; int n = c.weighted({1, 2, 6}) == 0 ? 0 : c.skewed(0, 12); for (int i = 0; i < n; ++i) { const char *p = pieces[c.weighted({14, 12, 8, 3, 10, 4, 5, 5, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1})]; int k = c.chance(10) ? 1 + (int)c.choose(5) : 1; while (k--) s += p; }
    if (c.chance(2)) s += std::string(1 + c.choose(3000), "\\\"a "[c.choose(4)]);
    return s;
}
void c24(pbt::Ctx &c) {
    Config cfg = genConfig(c); World &w = reset(cfg); Unix &u = resetUnix(); Rig r(c, w, u);
    static const char *dirs[] = {"/usr/bin", "/cygdrive/c/Program Files/x y", "/home/u/\xC3\xA9t\xC3\xA9", "/cygdrive/d/t", "/a\\b"}; static const char *progs[] = {"prog.exe", "my prog.exe", "a.b.exe", "run.cmd", "\xE4\xB8\xAD.exe", "run me.BAT"};
    std::string dir = dirs[c.choose(4)], prog = progs[c.choose(6)], full = dir + "/" + prog; u.files[full] = "x"; u.env["PATH"] = "/bin:" + dir;
    std::vector<std::string> argv = {"winpty"}; if (c.chance(30)) argv.push_back("--mouse"); bool dd = c.chance(40); if (dd) argv.push_back("--"); argv.push_back(c.chance(50) ? prog : full); size_t first = argv.size() - 1;
    int n = c.skewed(0, 8); bool hard = false; for (int i = 0; i < n; ++i) { argv.push_back(genArg(c)); for (char k : argv.back()) if (k == '"' || k == '\\' || k == ' ' || k == '\t') hard = true; if (argv.back().empty()) hard = true; }
    for (size_t i = first; i < argv.size(); ++i) c.note("argument [%s]", sim::esc(argv[i]).c_str());
    r.start(argv); if (!w.run([&] { return r.spawned || r.finished(); }, 60000) || !r.spawned) c.fail("no program was started: %s%s", u.stderrText.c_str(), u.stdoutText.c_str());
    std::vector<U16> want; want.push_back(winPath(full)); for (size_t i = first + 1; i < argv.size(); ++i) want.push_back(wide(argv[i]));
    auto judge = [&](const char *nm, const std::vector<U16> &v) {
        for (size_t i = 0; i < std::min(v.size(), want.size()); ++i) if (v[i] != want[i]) c.fail("%s: argument %zu is [%s] instead of [%s], command line: %s", nm, i, sim::esc(u8(v[i])).c_str(), sim::esc(u8(want[i])).c_str(), sim::esc(u8(r.cmd)).c_str());
        if (v.size() != want.size()) c.fail("%s: %zu arguments instead of %zu, command line: %s", nm, v.size(), want.size(), sim::esc(u8(r.cmd)).c_str());
    };
    judge("C runtime", splitCrt(r.cmd)); judge("CommandLineToArgvW", splitShell(r.cmd)); if (!r.app.empty()) c.fail("an application name was given besides the command line");
    if (hard) c.nontrivial(); if (n > 1) c.label("several arguments"); for (size_t i = first + 1; i < argv.size(); ++i) { if (argv[i].empty()) c.label("empty argument"); if (argv[i].size() > 1 && argv[i].back() == '\\' && argv[i].find(' ') != std::string::npos) c.label("blank and trailing backslash"); if (argv[i].find("\\\"") != std::string::npos) c.label("backslash before quote"); }
    if (prog.find(' ') != std::string::npos || dir.find(' ') != std::string::npos) c.label("blank in the program name");
    r.check(); r.closeOut = r.closeErr = true; w.killProcess(w.client, 0, true); r.stop = true; w.runFor(50);
}
static pbt::Registrar r24({"C24", "the real adapter is started with random argument lists (blanks, tabs, quotes, runs of backslashes, empty, long and non-ASCII arguments); the command line that arrives in the spawn request is split by two independent implementations of Windows' documented rules. Non-trivial: an argument needs quoting or escaping.", c24, 5, 6000, 200000, 10, {"several arguments", "empty argument", "blank and trailing backslash", "backslash before quote", "blank in the program name"}});

// ---- C25
std::string genBytes(pbt::Ctx &c, size_t n) { std::string s; int m = (int)c.choose(3); uint64_t x = c.choose(1u << 30); for (size_t i = 0; i < n; ++i) { x = x * 6364136223846793005ull + 1442695040888963407ull; unsigned char b = x >> 33; s += m == 0 ? (char)b : m == 1 ? (char)('a' + i % 26) : (char)("\0\r\n\x1b\xff\x1a\x03 "[b & 7]); } return s; }
size_t genLen(pbt::Ctx &c) { switch (c.weighted({6, 3, 2, 1})) { case 0: return 1 + c.choose(40); case 1: return 1 + c.choose(3000); case 2: return 4090 + c.choose(12); default: return 1 + c.choose(60000); } }
std::string firstDiff(const std::string &a, const std::string &b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i; return "at byte " + std::to_string(i) + " of " + std::to_string(a.size()) + "/" + std::to_string(b.size()); }
void c25(pbt::Ctx &c) {
    Config cfg = genConfig(c); World &w = reset(cfg); Unix &u = resetUnix(); w.tapPipes = true; Rig r(c, w, u); bool conerr = c.chance(30);
    u.files["/bin/p.exe"] = "x"; u.env["PATH"] = "/bin"; u.tty[0] = true; u.eintrPct = c.chance(50) ? c.range(1, 40) : 0; u.shortPct = c.chance(60) ? c.range(1, 80) : 0;
    w.pol = genPolicy(c, true); w.pol.yieldPct = c.chance(60) ? c.range(1, 50) : 0; if (c.chance(25)) w.pol.quotaMode = 2;
    r.readDelay = c.chance(50) ? c.skewed(0, 20) : 0; r.readMax = c.chance(50) ? 1 + (int)c.choose(5000) : 65536;
    for (int k = 0; k < (conerr ? 2 : 1); ++k) { int n = c.skewed(0, 8); for (int i = 0; i < n; ++i) r.plan[k].push_back({c.chance(50) ? 0 : c.skewed(0, 30), genBytes(c, genLen(c))}); }
    enum { OutEnds, StdinEof, StdinErr, TtyErr, AgentDies, InBreaks, ErrEnds }; static const char *nm[] = {"the output pipe ends", "the terminal input ends", "reading the terminal fails", "writing the terminal fails", "the agent dies", "the input pipe breaks", "the error pipe ends"};
    int mode = (int)c.weighted({5, 3, 2, 2, 3, 2, conerr ? 3 : 0}); uint64_t when = c.choose(200); bool wait = c.chance(50);
    c.note("%s%s, input chunks of %d every %d ms, EINTR %d%%, short %d%%, quota %d", nm[mode], conerr ? ", separate error stream" : "", r.readMax, r.readDelay, u.eintrPct, u.shortPct, w.pol.quotaMode);
    std::vector<std::string> argv = {"winpty"}; if (conerr) argv.push_back("-Xconerr"); argv.push_back("p.exe"); r.start(argv);
    bool slowTerm = c.chance(40); if (slowTerm) { u.out[1].room = c.choose(50); u.out[2].room = c.choose(50); }
    // the terminal reads at its own pace
    int step = 1 + (int)c.choose(10), amount = c.skewed(1, 5000); bool paced = slowTerm; std::function<void()> tick = [&] { if (!paced) return; for (int k = 1; k <= 2; ++k) u.out[k].room += amount; w.timers.insert({w.now + step, tick}); }; if (slowTerm) w.timers.insert({w.now + step, tick});
    int sigs = c.chance(30) ? 1 + (int)c.choose(8) : 0; for (int i = 0; i < sigs; ++i) { bool resize = c.chance(50); w.timers.insert({w.now + c.choose(300), [&u, resize] { if (resize) { ++u.cols; u.signal(); } else u.interrupt(); }}); }
    if (!w.run([&] { return r.spawned || r.finished(); }, 60000) || !r.spawned) c.fail("no program was started: %s", u.stderrText.c_str());
    std::string typed; int n = c.skewed(0, 10); std::vector<std::pair<uint64_t, std::string>> keys; uint64_t t = 0; for (int i = 0; i < n; ++i) { t += c.chance(50) ? 0 : c.choose(40); keys.push_back({t, genBytes(c, genLen(c))}); }
    auto type = [&](const std::string &s) { typed += s; u.feed(s); };
    for (auto &k : keys) w.timers.insert({w.now + k.first, [&, k] { if (!u.inEof && !u.inErr) type(k.second); }});
    if (wait) { uint64_t lim = 3600000; w.run([&] { return r.finished() || (r.outDone[0] && (!conerr || r.outDone[1]) && r.got.size() == typed.size() && w.now > t + 400); }, lim); if (!r.finished() && r.got != typed) c.fail("typed bytes do not all arrive: %s", firstDiff(r.got, typed).c_str()); if (r.finished()) c.fail("the adapter ended although both sides are open"); c.label("everything typed arrived before the end"); }
    else { w.runFor(when); if (r.finished()) c.fail("the adapter ended although both sides are open"); }
    // the end of one side
    uint64_t t0 = w.now; size_t inAtEnd = u.inOff; bool inFails = false; (void)inAtEnd;
    switch (mode) {
    case OutEnds: if (!w.run([&] { return r.outDone[0]; }, 36000000)) c.fail("the output is not relayed (%zu bytes left)", (size_t)0); r.closeOut = true; break;
    case ErrEnds: if (!w.run([&] { return r.outDone[1]; }, 36000000)) c.fail("the error output is not relayed"); r.closeErr = true; break;
    case StdinEof: u.inEof = true; break;
    case StdinErr: u.inErr = c.chance(50) ? EIO : EBADF; break;
    case TtyErr: u.out[1].err = c.chance(50) ? EIO : EPIPE; r.plan[0].push_back({0, "more"}); if (r.outDone[0]) { r.closeOut = true; } break;
    case AgentDies: w.killProcess(r.agent, 3, true); inFails = true; break;
    case InBreaks: r.closeIn = true; type("x"); w.run([&] { return r.inBroken || r.finished() || r.inst[0]->serverClosed; }, 3600000); type("y"); type("z"); inFails = true; break;
    }
    t0 = w.now; paced = false; u.out[1].room = u.out[2].room = (size_t)-1;
    if (mode == TtyErr && !r.outDone[0]) w.run([&] { return r.outDone[0] || r.finished(); }, 3600000), r.closeOut = true;
    if (mode == TtyErr || mode == StdinEof) t0 = w.now;
    uint64_t bound = 2000 + (mode == StdinEof || mode == StdinErr || mode == InBreaks ? 1ull * (u.in.size() - u.inOff + 65536) * (r.readDelay + 3) : 0);
    if (mode == AgentDies) bound = 2000;
    if (!w.run([&] { return r.finished(); }, bound)) c.fail("the adapter still runs %d ms after %s", (int)(w.now - t0), nm[mode]);
    r.check();
    // what was relayed
    const std::string &inTap = *r.inst[0]->toServer.tap; std::string consumed = typed.substr(0, u.inOff);
    if (consumed.compare(0, inTap.size(), inTap) != 0) c.fail("the input pipe got other bytes than were typed, %s", firstDiff(inTap, consumed).c_str());
    if (!inFails && mode != OutEnds && mode != ErrEnds && mode != TtyErr && inTap.size() != consumed.size()) c.fail("%zu bytes were read from the terminal, %zu reached the input pipe", consumed.size(), inTap.size());
    if ((mode == StdinEof || mode == StdinErr) && consumed.size() != typed.size()) c.fail("%zu bytes were typed before the end, %zu were read", typed.size(), consumed.size());
    for (int k = 1; k <= (conerr ? 2 : 1); ++k) {
        const std::string &tap = *r.inst[k]->toClient.tap; const std::string &o = u.out[k].data; std::string rd = tap.substr(0, r.inst[k]->toClient.delivered);
        if (rd.compare(0, o.size(), o) != 0) c.fail("the terminal (%d) got other bytes than the pipe carried, %s", k, firstDiff(o, rd).c_str());
        if (o.size() != rd.size() && !(mode == TtyErr && k == 1)) c.fail("%zu bytes were read from the output pipe, %zu reached the terminal (%d)", rd.size(), o.size(), k);
        if (((mode == OutEnds && k == 1) || (mode == ErrEnds && k == 2)) && o.size() != tap.size()) c.fail("the pipe carried %zu bytes before it ended, the terminal (%d) got %zu", tap.size(), k, o.size());
        if (o.size() > 4096) c.label("more than one buffer of output");
    }
    if (u.interruptions) c.label("interruptions"); if (u.shortPct) c.label("short transfers"); if (r.got.size() > 4096) c.label("more than one buffer of input"); static const char *lab[] = {"output ended", "input ended", "input failed", "terminal failed", "agent died", "input pipe broke", "error stream ended"}; c.label(lab[mode]);
    if (r.got.size() || u.out[1].data.size()) c.nontrivial();
}
static pbt::Registrar r25({"C25", "the real adapter between a simulated terminal and a scripted agent: arbitrary bytes in both directions with random paces, short transfers, interruptions, resize signals and pipe quotas; one of seven ends at a random moment. Non-trivial: bytes were relayed.", c25, 5, 3000, 40000, 10, {"everything typed arrived before the end", "interruptions", "short transfers", "more than one buffer of output", "more than one buffer of input", "output ended", "input ended", "input failed", "terminal failed", "agent died", "input pipe broke", "error stream ended"}});

// ---- C31
struct Prog { std::string arg; std::vector<std::string> path; };
std::string low(std::string s) { for (auto &k : s) k = (char)tolower(k); return s; }
bool execExt(const std::string &s) { std::string l = low(s); for (const char *e : {".bat", ".cmd", ".com", ".exe"}) { size_t n = strlen(e); if (l.size() >= n && l.compare(l.size() - n, n, e) == 0) return true; } return false; }
void c31(pbt::Ctx &c) {
    Config cfg = genConfig(c); cfg.agentExeExists = !c.chance(6); World &w = reset(cfg); Unix &u = resetUnix(); Rig r(c, w, u); if (c.chance(40)) w.pol = genPolicy(c, true);
    u.exeInNames = c.chance(50); u.noSync = c.chance(30);
    static const char *dirs[] = {"/usr/bin", "/bin/", "/home/u/b in", "/cygdrive/c/Tools", "/none", ""}; static const char *names[] = {"prog", "prog.exe", "a.b", "run.bat", "run.CMD", "tool.com", "x y", "tool", "Prog.Exe"};
    static const char *kinds[] = {"x", "r", "", "x"}; int nf = 1 + (int)c.choose(8);
    for (int i = 0; i < nf; ++i) { std::string d = dirs[c.choose(4)]; if (d.back() != '/') d += '/'; std::string n = names[c.choose(9)], f = d + n; if (c.chance(40) && !execExt(n)) f += ".exe"; if (c.chance(20)) { std::string real = "/opt/real/" + std::to_string(i) + (c.chance(50) ? ".exe" : ""); u.links[f] = real; u.files[real] = kinds[c.choose(4)]; } else u.files[f] = kinds[c.choose(4)]; }
    std::vector<std::string> path; std::string pv; int np = c.range(0, 5); for (int i = 0; i < np; ++i) { path.push_back(dirs[c.choose(6)]); pv += (i ? ":" : "") + path.back(); } bool hasPath = !c.chance(4); if (hasPath) u.env["PATH"] = pv; if (!np || !hasPath) path.assign(1, "");
    std::string prog = names[c.choose(9)]; bool explicitPath = c.chance(30); if (explicitPath) { std::string d = dirs[c.choose(4)]; if (d.back() != '/') d += '/'; prog = d + prog; }
    if (c.chance(75)) { // a file that may be the wanted one, so that most searches end somewhere
        std::string d = explicitPath ? "" : path[c.choose(path.size())]; if (!d.empty() && d.back() != '/') d += '/'; std::string f = d + prog; if (!execExt(f) && c.chance(70)) f += ".exe"; f = u.abs(f);
        if (!u.files.count(f) && !u.links.count(f)) { if (c.chance(20)) { std::string real = std::string("/opt/real/w") + (c.chance(50) ? ".exe" : ""); u.links[f] = real; u.files[real] = "x"; } else u.files[f] = c.chance(85) ? "x" : kinds[c.choose(4)]; }
    }
    // what has to be started
    auto real = [&](const std::string &p0) -> std::string { std::string p = u.abs(p0); auto l = u.links.find(p); std::string q = l == u.links.end() ? p : l->second; if (u.files.count(q)) return q; auto l2 = u.links.find(p + ".exe"); std::string q2 = l2 == u.links.end() ? p + ".exe" : l2->second; if (u.files.count(q2)) return u.exeInNames || q2.size() < 4 || l2 != u.links.end() ? q2 : p; return ""; };
    auto stat = [&](const std::string &p0) -> std::string { std::string p = u.abs(p0); for (const std::string &n : {p, p + ".exe"}) { auto l = u.links.find(n); auto f = u.files.find(l == u.links.end() ? n : l->second); if (f != u.files.end()) return f->second; } return ""; };
    std::string want; bool found = false;
    if (explicitPath) { want = real(prog); found = !want.empty(); }
    else for (auto d : path) { if (!d.empty() && d.back() != '/') d += '/'; std::string q = real(d + prog); if (q.empty()) continue; if (!execExt(q)) q += ".exe"; if (stat(q) == "x") { want = q; found = true; break; } }
    // environment
    static const char *vars[] = {"TERM", "WINPTY_DEBUG", "WINPTY_SHOW_CONSOLE", "HOME", "LANG"}; for (auto v : vars) if (c.chance(70)) u.env[v] = c.chance(15) ? "" : std::string("v\xC3\xA9") + std::to_string(c.choose(1000)); u.winEnv["TERM"] = "xterm"; u.winEnv["KEEP"] = "1";
    auto env0 = u.env; bool mouse = c.chance(40); std::vector<std::string> argv = {"winpty"}; if (mouse) argv.push_back("--mouse"); if (c.chance(30)) argv.push_back("--"); argv.push_back(prog); int extra = (int)c.choose(3); for (int i = 0; i < extra; ++i) argv.push_back(c.chance(50) ? "--mouse" : "-h");
    r.spawnMode = (int)c.weighted({7, 2, 1}); r.spawnErr = 1 + (uint32_t)c.choose(20000); uint32_t code = (uint32_t)c.weighted({3, 3, 2, 1}); code = code == 0 ? 0 : code == 1 ? 1 + (uint32_t)c.choose(255) : code == 2 ? (uint32_t)c.choose(1u << 31) : 0xC0000005u; std::string text = genBytes(c, c.choose(2000)); if (!text.empty()) r.plan[0].push_back({c.skewed(0, 20), text});
    c.note("PATH [%s] program [%s] -> %s", hasPath ? pv.c_str() : "(unset)", prog.c_str(), found ? want.c_str() : "(not found)"); for (auto &f : u.files) c.note("file %s [%s]", f.first.c_str(), f.second.c_str()); for (auto &l : u.links) c.note("link %s -> %s", l.first.c_str(), l.second.c_str());
    r.start(argv); w.run([&] { return r.finished() || (r.spawned && r.spawnMode == 0); }, 60000);
    bool ends = !cfg.agentExeExists || !found || r.spawnMode; auto tail = [&] { return sim::esc(u.stderrText).c_str(); }; (void)tail;
    if (ends) {
        if (!w.run([&] { return r.finished(); }, 5000)) c.fail("the adapter still runs although the program cannot be started"); r.check();
        const char *why = !cfg.agentExeExists ? "there is no agent" : !found ? "there is no such program" : "the program could not be started";
        if (r.rc != 1) c.fail("exit code %d although %s", r.rc, why); if (u.stderrText.empty()) c.fail("no error message although %s", why);
        if (!found && r.spawned) c.fail("something was started although there is no such program: %s", u8(r.cmd).c_str());
        if (cfg.agentExeExists && !found && u.stderrText.find(prog) == std::string::npos) c.fail("the error message does not name the program: %s", sim::esc(u.stderrText).c_str());
        if (cfg.agentExeExists && found && r.spawnMode == 1) { char hex[20]; snprintf(hex, sizeof hex, "error %#x", r.spawnErr); if (u.stderrText.find(hex) == std::string::npos) c.fail("the error message does not tell the error code %#x: %s", r.spawnErr, sim::esc(u.stderrText).c_str()); }
        if (!u.tioLog.empty()) c.fail("the terminal modes were changed although %s", why); c.label(!cfg.agentExeExists ? "no agent" : !found ? "not found" : "start failed"); if (!cfg.agentExeExists) c.nontrivial();
    } else {
        if (!r.spawned) c.fail("no program was started: %s", sim::esc(u.stderrText).c_str());
        U16 exe = splitCrt(r.cmd)[0]; if (exe != winPath(want)) c.fail("'%s' was started instead of '%s'", u8(exe).c_str(), u8(winPath(want)).c_str());
        if (r.mouse != (mouse ? 2 : 1)) c.fail("mouse mode %d", r.mouse); if (splitCrt(r.cmd).size() != 1u + extra) c.fail("the program got %zu arguments instead of %d", splitCrt(r.cmd).size() - 1, extra);
        if (!(r.spawnFlags & 1)) c.fail("the session is not shut down with the program"); if (!r.cwd.empty() || !r.envb.empty()) c.fail("a working directory or environment was given");
        w.runFor(c.choose(100)); if (r.finished()) c.fail("the adapter ended although the program is running"); int stdoutLeft = c.chance(50); w.killProcess(r.child.get(), (int)code, false); if (stdoutLeft) w.runFor(c.choose(50));
        w.run([&] { return r.outDone[0]; }, 60000); r.closeOut = true; if (!w.run([&] { return r.finished(); }, 5000)) c.fail("the adapter still runs after the program and the output ended"); r.check();
        if ((uint32_t)r.rc != code) c.fail("exit code %#x instead of %#x", r.rc, code); if (u.out[1].data != text) c.fail("output is missing"); if (!u.stderrText.empty()) c.fail("error message: %s", sim::esc(u.stderrText).c_str());
        c.label(explicitPath ? "explicit path" : "found on PATH"); if (!u.links.empty()) c.label("links"); c.nontrivial();
    }
    if (r.sawOpen) {
        auto &e = r.envAtOpen; if (e.count("TERM")) c.fail("TERM is passed to the program (%s)", e["TERM"].c_str());
        for (const char *v : {"WINPTY_DEBUG", "WINPTY_SHOW_CONSOLE"}) if (env0.count(v) && !env0[v].empty() && (!e.count(v) || e[v] != env0[v])) c.fail("%s is not passed on", v);
        if (!e.count("KEEP")) c.fail("an environment variable was removed"); if (!u.noSync) for (auto &kv : env0) if (kv.first != "TERM" && e[kv.first] != kv.second) c.fail("%s is not passed on", kv.first.c_str());
    }
}
static pbt::Registrar r31({"C31", "the real adapter with random PATHs, program names and file systems (links, missing or unreadable files, scripts beside programs), environments and exit codes, with failing starts; the started program is compared with an independent lookup. Non-trivial: a program was started, or the agent is missing.", c31, 5, 6000, 100000, 10, {"explicit path", "found on PATH", "links", "not found", "start failed", "no agent"}});

// ---- C32
void c32(pbt::Ctx &c) {
    Config cfg = genConfig(c); World &w = reset(cfg); Unix &u = resetUnix(); Rig r(c, w, u); u.files["/bin/p.exe"] = "x"; u.env["PATH"] = "/bin"; u.eintrPct = c.chance(40) ? c.range(1, 30) : 0;
    if (c.chance(60)) { w.pol = genPolicy(c, true); w.pol.yieldPct = c.chance(60) ? c.range(1, 50) : 0; } r.replyDelay = c.chance(50) ? c.skewed(0, 60) : 0; bool slowStart = c.chance(50); (void)slowStart;
    for (int i = 0; i < 3; ++i) { u.tty[i] = !c.chance(12); auto &t = u.tio[i]; t.c_lflag ^= (c.chance(30) ? ECHO : 0) | (c.chance(30) ? ICANON : 0) | (c.chance(30) ? NOFLSH : 0); t.c_oflag ^= c.chance(30) ? OPOST : 0; t.c_iflag ^= (c.chance(30) ? ICRNL : 0) | (c.chance(30) ? IUTF8 : 0); t.c_cc[VINTR] = (cc_t)c.choose(30); t.c_cc[VMIN] = (cc_t)c.choose(5); t.c_cc[VTIME] = (cc_t)c.choose(3); }
    struct termios t0[3]; memcpy(t0, u.tio, sizeof t0); bool allow = c.chance(50), conerr = c.chance(30); u.cols = c.range(1, 300); u.rows = c.range(1, 100);
    std::vector<std::string> argv = {"winpty"}; if (allow) argv.push_back("-Xallow-non-tty"); if (conerr) argv.push_back("-Xconerr"); argv.push_back("p"); bool bad = !allow && (!u.tty[0] || !u.tty[1] || (conerr && !u.tty[2]));
    c.note("terminals %d%d%d, %dx%d%s%s", u.tty[0], u.tty[1], u.tty[2], u.cols, u.rows, allow ? ", non-terminals allowed" : "", conerr ? ", separate error stream" : "");
    std::set<std::pair<int, int>> had; had.insert({u.cols, u.rows}); int changes = 0; bool early = false;
    int n = c.skewed(0, 6); uint64_t t = 0; for (int i = 0; i < n; ++i) { t += c.chance(40) ? 0 : c.chance(50) ? c.choose(30) : c.choose(400); int x = c.range(1, 300), y = c.range(1, 100); bool big = c.chance(10); if (big) x = 1000 + (int)c.choose(64000); c.note("at %d ms: resized to %dx%d", (int)t, x, y); w.timers.insert({w.now + t, [&, x, y] { u.cols = x; u.rows = y; had.insert({x, y}); ++changes; if (!r.spawned) early = true; u.signal(); }}); }
    auto same = [](const struct termios &a, const struct termios &b) { return a.c_lflag == b.c_lflag && a.c_iflag == b.c_iflag && a.c_oflag == b.c_oflag && a.c_cflag == b.c_cflag && !memcmp(a.c_cc, b.c_cc, sizeof a.c_cc); };
    int ic = u.tty[0] ? u.cols : 80, ir = u.tty[0] ? u.rows : 25; int d0 = c.chance(50) ? 0 : (int)c.choose(40); if (d0) w.runFor(0); r.start(argv);
    w.run([&] { return r.finished() || (r.spawned && u.winch && !u.tioLog.empty()); }, 60000);
    if (bad) {
        if (!w.run([&] { return r.finished(); }, 5000)) c.fail("the adapter runs without a terminal"); r.check(); if (r.rc != 1) c.fail("exit code %d without a terminal", r.rc); if (u.stderrText.find("not a tty") == std::string::npos) c.fail("no error message without a terminal");
        for (int i = 0; i < 3; ++i) if (!same(u.tio[i], t0[i])) c.fail("the modes of terminal %d are changed after a failed start", i); c.label("refused without a terminal"); return;
    }
    w.runFor(t + 400); if (r.finished()) c.fail("the adapter ended: %s", sim::esc(u.stderrText).c_str()); r.check();
    if (!(r.cols == ic && r.rows == ir) && !had.count({r.cols, r.rows})) c.fail("the console starts with %dx%d, the terminal has %dx%d", r.cols, r.rows, ic, ir);
    auto sizesOk = [&] {
        std::pair<int, int> last = r.sizes.empty() ? std::make_pair(r.cols, r.rows) : r.sizes.back(), now = u.tty[0] ? std::make_pair(u.cols, u.rows) : std::make_pair(80, 25);
        for (auto &z : r.sizes) if (u.tty[0] ? !had.count(z) : z != now) c.fail("a resize to %dx%d was requested, a size that the terminal never had", z.first, z.second);
        if (last != now) c.fail("the console has the size %dx%d, the terminal %dx%d", last.first, last.second, now.first, now.second);
    };
    sizesOk(); if (changes > 1) c.label("several size changes"); if (early) c.label("size change before the program starts"); if (!u.tty[0]) c.label("input is not a terminal");
    for (int i = 0; i < 3; ++i) {
        bool used = i < 2 || conerr; if (!u.tty[i]) continue; auto &x = u.tio[i]; if (!used) { if (!same(x, t0[i])) c.fail("the modes of a terminal that is not used were changed"); continue; }
        if (i == 0 && ((x.c_lflag & (ECHO | ICANON | ISIG | IEXTEN)) || (x.c_iflag & (ICRNL | IXON | ISTRIP | BRKINT)) || x.c_cc[VMIN] != 1 || x.c_cc[VTIME] != 0)) c.fail("the terminal input is not raw");
        if (i && (x.c_oflag & OPOST)) c.fail("the terminal output %d is post-processed", i); if ((x.c_cflag & CSIZE) != CS8 || (x.c_cflag & PARENB)) c.fail("terminal %d does not pass 8 bits", i);
    }
    int how = (int)c.choose(4); uint32_t code = (uint32_t)c.choose(100); static const char *hn[] = {"the program ends", "the terminal input ends", "the agent dies", "the terminal fails"}; c.note("%s", hn[how]);
    if (how == 0) { w.killProcess(r.child.get(), (int)code, false); r.closeOut = true; } else if (how == 1) u.inEof = true; else if (how == 2) w.killProcess(r.agent, 1, true); else { u.inErr = EIO; }
    if (!w.run([&] { return r.finished(); }, 10000)) c.fail("the adapter still runs after %s", hn[how]); r.check(); if (how == 0 && (uint32_t)r.rc != code) c.fail("exit code %d instead of %u", r.rc, code);
    for (int i = 0; i < 3; ++i) if (!same(u.tio[i], t0[i])) c.fail("the modes of terminal %d are not restored after %s", i, hn[how]); if (how == 0) sizesOk();
    static const char *lab[] = {"program ended", "input ended", "agent died", "terminal failed"}; c.label(lab[how]); if (changes || !u.tty[0]) c.nontrivial();
}
static pbt::Registrar r32({"C32", "the real adapter on terminals with random modes and sizes, some of them no terminals, with size changes at any time from the start on and interrupted calls; sizes requested, modes while running and after every kind of end are judged. Non-trivial: the size changed, or the input is no terminal.", c32, 5, 6000, 100000, 10, {"several size changes", "size change before the program starts", "input is not a terminal", "refused without a terminal", "program ended", "input ended", "agent died", "terminal failed"}});
}
