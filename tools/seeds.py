# The planted bugs: patches and demonstrations (see mkseed.py).
S = {}
def seed(id, property, edits, needs, breaks, demo, cases=1): S[id] = dict(property=property, edits=edits, needs=needs, breaks=breaks, demo=PRE + demo + POST, cases=cases)
PRE = '#include "model/draw.h"\n#include "model/scn.h"\n#include "model/wire.h"\nusing namespace session;\nstatic std::string show(Session &s, int y) { return s.term.rowText(s.term.top + y); }\n'
RIG = '#include "model/rig.h"\n'
POST = '\nstatic pbt::Registrar r({"D", "demonstration", demo, 1, 1, 1, 20, {}});\n'
A = 'src/agent/'; L = 'src/libwinpty/'; H = 'src/shared/'; U = 'src/unix-adapter/'

seed('scroll-between-read-and-check', 'C02', [(A+'Scraper.cc', '''        if (m_syncRow != -1 && m_syncRow != findSyncMarker()) {
            return false;
        }
''', '')], 'the buffer is full (window at the end), the program prints lines between the marker search and the read of the same unfrozen scrape', 'Lines that scroll by during a tentative scrape are attributed to the wrong row: a terminal line is repeated or lost.', '''
// A full 3000-line buffer; the program prints a line exactly while the agent reads the console.
static void demo(pbt::Ctx &c) {
    Config f; World &w = reset(f); Opts o; o.cols = 40; o.rows = 20; o.paper = true; Session s(c, w, o); s.open(); s.spawn(); int n = 0;
    auto line = [&] { s.buf->write(u16("line " + std::to_string(n++) + "\\n")); };
    while (n < 3200) { for (int i = 0; i < 200; ++i) line(); s.run(60); }
    s.settle(); int where = (int)c.choose(20), at = -1;
    for (int k = 0; k < 40; ++k) {
        bool done = false; at = where;
        w.onApi = [&](const char *api) { if (done || s.con->frozen || w.cur->proc != s.agent || !strstr(api, "Console")) return; if (at-- > 0) return; done = true; for (int i = 0; i < 3; ++i) line(); };
        line(); s.run(30); w.onApi = nullptr;
    }
    s.settle(); for (int i = 0; i < n; ++i) if (s.term.rowText(i) != "line " + std::to_string(i)) c.fail("terminal line %d is [%s]", i, s.term.rowText(i).c_str());
}''', 20)

seed('reverse-underline-color', 'C03', [(A+'Terminal.cc', '    if (color & WINPTY_COMMON_LVB_REVERSE_VIDEO) {', '    if ((color & WINPTY_COMMON_LVB_REVERSE_VIDEO) && !(color & WINPTY_COMMON_LVB_UNDERSCORE)) {')], 'a cell with both reverse video and underline', 'Cells that are reversed and underlined at once lose the reversal.', '''
static void demo(pbt::Ctx &c) {
    Config f; f.outCp = 932; World &w = reset(f); Opts o; Session s(c, w, o); s.open(); s.spawn(); s.run(60);
    for (int i = 0; i < 3; ++i) { s.buf->attr = i == 0 ? 0x4002 : i == 1 ? 0x8002 : 0xC002; s.buf->write(u"x"); }
    s.settle(); auto &l = s.term.line(s.term.top);
    for (int i = 0; i < 3; ++i) { auto want = vt::rendOf(i == 0 ? 0x4002 : i == 1 ? 0x8002 : 0xC002, true, true); if (l[i].r != want) c.fail("cell %d has %s instead of %s", i, l[i].r.str().c_str(), want.str().c_str()); }
}''')

seed('surrogate-at-line-end', 'C05', [(A+'Terminal.cc', '                width <= w1 ||\n', '                width < w1 ||\n')], 'a high surrogate in the last column', 'The agent pairs a surrogate in the last column with whatever lies behind the line.', '''
static void demo(pbt::Ctx &c) {
    Config f; World &w = reset(f); Opts o; o.cols = 30; Session s(c, w, o); s.open(); s.spawn(); s.run(60);
    s.buf->set(29, 0, sim::Cell{0xD83D, 7}); s.buf->set(0, 1, sim::Cell{0xDE00, 7}); s.settle(); s.checkClean();
    if (show(s, 0).substr(29) != "?") c.fail("row 0 reads [%s]", show(s, 0).c_str()); if (show(s, 1) != "?") c.fail("row 1 reads [%s]", show(s, 1).c_str());
}''')

seed('mouse-mode-left-on', 'C08', [(A+'Agent.cc', '''    m_primaryScraper->terminal().enableMouseMode(
        enableMouseMode && !m_closingOutputPipes);
''', '''    if (!m_closingOutputPipes) {
        m_primaryScraper->terminal().enableMouseMode(enableMouseMode);
    }
''')], 'the program exits while mouse reporting is enabled', 'The stream ends with mouse reporting still enabled on the terminal.', '''
static void demo(pbt::Ctx &c) {
    Config f; World &w = reset(f); Opts o; o.mouseMode = MOUSE_FORCE; Session s(c, w, o); s.open(); s.spawn(); s.run(100);
    if (!s.term.mouse1000) c.fail("mouse reporting is off although forced"); w.killProcess(s.child, 0, false); s.run(500);
    if (!s.out.eof()) c.fail("the stream has not ended"); if (s.term.mouse1000) c.fail("the stream ended with mouse reporting on");
}''')

seed('surrogate-release', 'C10', [(A+'ConsoleInput.cc', '''        appendInputRecord(records, keyDown, virtualKey, ws[0], keyState);
        appendInputRecord(records, keyDown, virtualKey, ws[1], keyState);
''', '''        appendInputRecord(records, keyDown, virtualKey, ws[0], keyState);
        appendInputRecord(records, TRUE, virtualKey, ws[1], keyState);
''')], 'a typed character outside the basic plane', 'The second half of the character is pressed twice and never released.', '''
static void demo(pbt::Ctx &c) {
    Config f; World &w = reset(f); Opts o; Session s(c, w, o); s.open(); s.spawn(); s.run(60); s.in.write("a\\xF0\\x9F\\x98\\x80z"); s.run(100);
    std::map<int, int> bal; U16 t; for (auto &e : s.con->log) if (e.type == InEv::Key) { bal[e.ch] += e.down ? 1 : -1; if (e.down && e.ch) t += (char16_t)e.ch; }
    if (t != u"a\\xD83D\\xDE00z") c.fail("typed text arrived as %s", u8(t).c_str()); for (auto &b : bal) if (b.second) c.fail("unit %x: presses - releases = %d", b.first, b.second);
}''')

seed('ctrl-c-overtakes', 'C15', [(A+'ConsoleInput.cc', '''    if (input[0] == '\\x03' && (inputConsoleMode() & ENABLE_PROCESSED_INPUT)) {
        flushInputRecords(records);
''', '''    if (input[0] == '\\x03' && (inputConsoleMode() & ENABLE_PROCESSED_INPUT)) {
''')], 'text and Ctrl-C in one write', 'The interrupt overtakes the keys typed before it.', '''
static void demo(pbt::Ctx &c) {
    Config f; World &w = reset(f); Opts o; Session s(c, w, o); s.open(); s.spawn(); s.run(60); s.in.write("ab\\x03z"); s.run(100);
    std::string t; for (auto &e : s.con->log) { if (e.type == InEv::Key && e.down && e.ch) t += (char)e.ch; if (e.type == InEv::Ctrl) t += '!'; } if (t != "ab!z") c.fail("order of arrival: %s", t.c_str());
}''')

seed('double-click-other-button', 'C13', [(A+'ConsoleInput.cc', '''                } else {
                    // End double-click detection.
                    m_doubleClick = DoubleClickDetection();
                }
            } else if''', '''                }
            } else if''')], 'press left, release right (pressed before), release left, press left again at the same place in time', 'A click of another button in between does not end the detection of a double click.', '''
static void demo(pbt::Ctx &c) {
    Config f; World &w = reset(f); Opts o; o.mouseMode = MOUSE_FORCE; Session s(c, w, o); s.open(); s.spawn(); s.con->inMode = 0x1F7 & ~0x40; s.run(100);
    // press right, press left, release right, release left, press left
    s.in.write("\\x1b[<2;5;5M\\x1b[<0;5;5M\\x1b[<2;5;5m\\x1b[<0;5;5m\\x1b[<0;5;5M"); s.run(100);
    int n = 0; for (auto &e : s.con->log) if (e.type == InEv::Mouse) { ++n; if (e.flags & 2) c.fail("event %d is a double click", n); } if (n != 5) c.fail("%d mouse events", n);
}''')

seed('escape-timeout-tick-wrap', 'C14', [(A+'ConsoleInput.cc', '(GetTickCount() - m_lastWriteTick) > kIncompleteEscapeTimeoutMs', 'GetTickCount() > m_lastWriteTick + kIncompleteEscapeTimeoutMs')], 'an Escape key press within the last second before the tick counter wraps around (49.7 days of uptime)', 'The incomplete sequence is flushed at once instead of after the timeout.', '''
static void demo(pbt::Ctx &c) {
    Config f; f.startTick = 0xFFFFFFFFu - 700; World &w = reset(f); Opts o; Session s(c, w, o); s.open(); s.spawn(); s.run(60);
    for (int i = 0; i < 40; ++i) { uint64_t before = s.con->log.size(); s.in.write("\\x1b"); s.run(100); for (size_t k = before; k < s.con->log.size(); ++k) if (s.con->log[k].type == InEv::Key) c.fail("the pending ESC was delivered within 100 ms (round %d)", i); s.in.write("[A"); s.run(20); }
}''')

seed('large-packet-hangs', 'C16', [(A+'Agent.cc', 'if (m_controlPipe->readBufferSize() < packetSize) {', 'if (m_controlPipe->readBufferSize() < packetSize / 2) {')], 'a request of 64 to 128 KiB (for example a large environment)', 'The agent waits forever for the rest of a request that it does not read.', '''
static void demo(pbt::Ctx &c) {
    Config f; World &w = reset(f); Opts o; Session s(c, w, o); s.open(); SpawnArgs a; a.hasEnv = true; a.env = u"A=" + U16(30000, u'x') + U16(1, 0) + u"B=" + U16(20000, u'y') + U16(2, 0);
    Call r; if (!w.call([&] { r = libSpawn(s.wp, a); }, 60000) || !r.ok) c.fail("spawn with an environment of 100 KB: code %u", r.code); if (w.creates.back().env != a.env) c.fail("the environment is damaged");
}''')

seed('empty-environment', 'C17', [(L+'winpty.cc', '            envStr.push_back(L\'\\0\');\n', '            envStr.clear();\n')], 'a spawn with an empty environment block', 'The program inherits the environment of the agent instead of getting an empty one.', '''
static void demo(pbt::Ctx &c) {
    Config f; World &w = reset(f); Opts o; Session s(c, w, o); s.open(); SpawnArgs a; a.hasEnv = true; a.env = U16(2, 0); Call r = libSpawn(s.wp, a); if (!r.ok) c.fail("spawn failed");
    if (!w.creates.back().hasEnv) c.fail("the empty environment block was dropped");
}''')

seed('cancel-without-wait', 'C19', [(L+'winpty.cc', '''            CancelIo(m_file);
            waitForCompletion();
''', '''            CancelIo(m_file);
            DWORD actual = 0;
            GetOverlappedResult(m_file, &m_over, &actual, FALSE);
''')], 'a call times out and the cancelled read completes later', 'The call returns while the system may still write into its stack frame.', '''
static void demo(pbt::Ctx &c) {
    Config f; World &w = reset(f); w.pol.cancelRacePct = 100; w.pol.maxDelay = 10; Opts o; o.timeout = 500; Session s(c, w, o); s.open(); s.agent->suspended = true;
    Call r; w.call([&] { r = libSetSize(s.wp, 50, 20); }, 20000); if (r.ok || r.code != E_AGENT_TIMEOUT) c.fail("code %u", r.code);
    for (auto &x : w.ioOps) if (!x.second->finished && x.second->proc == w.client) c.fail("I/O is still in flight after the call returned"); if (w.closedWithIo) c.fail("a handle was closed with I/O in flight"); s.checkClean();
}''')

seed('conerr-closed-early', 'C23', [(A+'Agent.cc', '''        if (m_conerrPipe != nullptr &&
                m_conerrPipe->isConnected() &&
                m_conerrPipe->bytesToSend() == 0) {''', '''        if (m_conerrPipe != nullptr &&
                m_conoutPipe->isClosed() &&
                m_conerrPipe->bytesToSend() == 0) {''')], 'a short-lived program; the client connects to the error pipe only after the main output has ended', 'The error pipe disappears before the client could connect, or loses what was written to it.', '''
static void demo(pbt::Ctx &c) {
    Config f; World &w = reset(f); Opts o; o.flags = F_CONERR | F_PLAIN; o.attach = false; Session s(c, w, o); s.open(); s.spawn(); w.runFor(5); w.killProcess(s.child, 0, false);
    s.out.open(libName(s.wp, 1), true, false, w.client->pid); s.run(300); if (!s.out.eof()) c.fail("CONOUT has not ended");
    if (!s.err.open(libName(s.wp, 2), true, false, w.client->pid)) c.fail("the CONERR pipe is gone (error %u)", s.err.err);
}''')

seed('second-instance-allowed', 'C21', [(A+'NamedPipe.cc', '            | FILE_FLAG_FIRST_PIPE_INSTANCE\n', '')], 'somebody else owns a pipe of the same name', 'The agent opens a further instance of a foreign pipe.', '''
static void demo(pbt::Ctx &c) {
    Config f; World &w = reset(f); w.onCreatePipe = [](const U16 &n) { return n.find(u"conout") != U16::npos; }; Opts o; Session s(c, w, o); o.timeout = 2000; void *wp = nullptr; Call r; w.call([&] { r = libOpen(o, &wp); }, 100000);
    if (w.squatted) c.fail("a pipe was opened as a further instance of somebody else's pipe"); if (r.ok) c.fail("the open succeeded");
}''')

seed('pending-write-not-counted', 'C20', [(A+'NamedPipe.cc', '    return m_pending ? m_currentIoSize : 0;\n', '    return m_pending && m_namedPipe.m_outQueue.size() > 0 ? m_currentIoSize : 0;\n')], 'the program exits while the last write is still waiting for a slow reader', 'The pipe is closed with the last piece of output unsent.', '''
static void demo(pbt::Ctx &c) {
    Config f; World &w = reset(f); w.pol.quotaMode = 2; Opts o; Session s(c, w, o); s.open(); s.spawn(); s.run(100);
    s.buf->write(u"the very last words of the program"); w.killProcess(s.child, 0, false); w.runFor(500); s.run(500);
    if (!s.out.eof()) c.fail("the stream has not ended"); if (show(s, 0) != "the very last words of the program") c.fail("the terminal shows [%s]", show(s, 0).c_str());
}''')

seed('narrow-lock', 'C26', [(L+'winpty.cc', '''        ASSERT(wp != nullptr && cols > 0 && rows > 0);
        LockGuard<Mutex> lock(wp->mutex);
        RpcOperation rpc(*wp);
        auto packet = newPacket();
        packet.putInt32(AgentMsg::SetSize);
        packet.putInt32(cols);
        packet.putInt32(rows);
        writePacket(*wp, packet);
''', '''        ASSERT(wp != nullptr && cols > 0 && rows > 0);
        RpcOperation rpc(*wp);
        auto packet = newPacket();
        packet.putInt32(AgentMsg::SetSize);
        packet.putInt32(cols);
        packet.putInt32(rows);
        {
            LockGuard<Mutex> lock(wp->mutex);
            writePacket(*wp, packet);
        }
''')], 'two calls on one session at the same time', 'A reply can be taken by the wrong call.', '''
static void demo(pbt::Ctx &c) {
    Config f; World &w = reset(f); w.pol.yieldPct = 30; Opts o; Session s(c, w, o); s.open(); s.spawn(); int open = 2; std::string bad;
    auto th = [&](std::function<void()> fn) { w.startThread(w.client, [&, fn] { fn(); --open; }); };
    th([&] { for (int i = 0; i < 20 && bad.empty(); ++i) { Call r = libSetSize(s.wp, 40 + i, 20); if (!r.ok) bad = "set_size failed"; } });
    th([&] { for (int i = 0; i < 20 && bad.empty(); ++i) { int a[10]; Call r = libProcList(s.wp, a, 10); if (r.n != (int)s.con->procs.size()) bad = "the process list has " + std::to_string(r.n) + " entries"; } });
    bool ok = w.run([&] { s.drain(); return !open; }, 60000); if (!bad.empty() || !ok) c.fail("%s", bad.empty() ? "a call does not return" : bad.c_str());
}''')

seed('process-list-grows', 'C28', [(A+'Agent.cc', '    while (processList.size() < processCount) {', '    if (processList.size() < processCount) {')], 'more processes attach between two queries of a list of more than 64 processes', 'The agent reads beyond its list and reports garbage.', '''
static void demo(pbt::Ctx &c) {
    Config f; World &w = reset(f); Opts o; Session s(c, w, o); s.open(); s.spawn(); auto add = [&](int n) { for (int i = 0; i < n; ++i) w.attach(w.newProcess("p", nullptr).get(), s.con); };
    add(70); int calls = 0; w.onApi = [&](const char *a) { if (!strcmp(a, "GetConsoleProcessList") && ++calls == 2) add(300); };
    std::vector<int> v(1000); Call r; if (!w.call([&] { r = libProcList(s.wp, v.data(), 1000); }, 60000)) c.fail("no answer"); w.onApi = nullptr; s.checkClean();
    if (r.n != (int)s.con->procs.size()) c.fail("%d processes reported, %zu are attached", r.n, s.con->procs.size()); std::set<int> got(v.begin(), v.begin() + r.n); for (auto *p : s.con->procs) if (!got.count(p->pid)) c.fail("process %d is missing", p->pid);
}''')

seed('teardown-waits-for-reader', 'C27', [(A+'Agent.cc', '''        trace("Agent exiting (control pipe is closed)");
        shutdown();
        return;''', '''        trace("Agent exiting (control pipe is closed)");
        m_closingOutputPipes = true;
        m_exitAfterShutdown = true;
        autoClosePipesForShutdown();
        return;''')], 'the session is freed while the terminal still holds the output pipe open and does not read it', 'The agent tries to deliver its output first and outlives its session.', '''
static void demo(pbt::Ctx &c) {
    Config f; World &w = reset(f); w.pol.quotaMode = 2; Opts o; Session s(c, w, o); s.open(); s.spawn(); s.run(100); s.buf->write(u"the very last words of the program"); w.runFor(200);
    Process *a = s.agent; w.call([&] { libFree(s.wp); }); s.wp = nullptr; if (!w.run([&] { return a->exited; }, 60000)) c.fail("the agent still runs a minute after the session was freed");
}''')

seed('station-not-restored', 'C30', [(H+'BackgroundDesktop.cc', '''    } catch (...) {
        dispose();
        throw;''', '''    } catch (...) {
        if (m_newDesktop != nullptr) {
            dispose();
        }
        throw;''')], 'an old Windows, desktop creation inside the calling process, and CreateDesktop fails', 'The caller stays on the background window station.', '''
static void demo(pbt::Ctx &c) {
    Config f; f.os = OS_XP; World &w = reset(f); auto ws = w.client->winsta; w.faults.push_back({"CreateDesktopW", 1, 8, w.client->pid}); Opts o; o.flags = F_DESKTOP; void *wp = nullptr; Call r; w.call([&] { r = libOpen(o, &wp); }, 100000);
    if (!r.ok) c.fail("the open failed with code %u", r.code); if (w.client->winsta != ws) c.fail("the caller is on another window station");
}''')

seed('direct-cursor-outside', 'C06', [(A+'Scraper.cc', '        consoleCursorVisible && scrapeRect.contains(cursor);', '        consoleCursorVisible && windowRect.contains(cursor);')], 'a full-screen program with a window larger than the terminal, cursor in the part that is not shown', 'The cursor is placed outside the terminal and following lines go astray.', '''
static void demo(pbt::Ctx &c) {
    Config f; World &w = reset(f); Opts o; o.cols = 40; o.rows = 20; Session s(c, w, o); s.open(); s.spawn(); s.run(60); auto b = s.buf;
    b->resize(60, 30); b->win = Rect{0, 0, 59, 29}; for (int y = 0; y < 30; ++y) { b->cx = 0; b->cy = y; b->write(u16("row " + std::to_string(y))); } b->cx = 5; b->cy = 27; s.settle(); s.checkClean();
    for (int y = 0; y < 20; ++y) if (show(s, y) != "row " + std::to_string(y)) c.fail("terminal row %d shows [%s]", y, show(s, y).c_str()); if (s.term.cursorVisible) c.fail("the terminal cursor is visible");
}''')

seed('dsr-in-plain-mode', 'C04', [(A+'Agent.cc', '    if (!m_plainMode && !m_conoutPipe->isClosed()) {\n        m_conoutPipe->write("\\x1B[6n");', '    if (!m_conoutPipe->isClosed()) {\n        m_conoutPipe->write("\\x1B[6n");')], 'an incomplete escape sequence is typed in plain mode', 'A query escape sequence is written to the plain output stream.', '''
static void demo(pbt::Ctx &c) {
    Config f; World &w = reset(f); Opts o; o.flags = F_PLAIN; Session s(c, w, o); s.keepRaw = true; s.open(); s.spawn(); s.run(100); s.in.write("\\x1b"); s.run(2000); s.in.write("x"); s.run(200);
    if (s.raw.find('\\x1b') != std::string::npos) c.fail("the plain output stream contains %s", sim::esc(s.raw).c_str());
}''')

seed('empty-path-element', 'C31', [(U+'main.cc', "            if (!candidate.empty() && *(candidate.end() - 1) != '/') {", "            if (candidate.empty() || *(candidate.end() - 1) != '/') {")], 'an empty element in PATH (the current directory)', 'The root directory is searched instead of the current one.', '''
static void demo(pbt::Ctx &c) {
    Config f; World &w = reset(f); Unix &u = resetUnix(); Rig g(c, w, u); u.env["PATH"] = "/bin::/usr/bin"; u.files["/home/u/cur/tool.exe"] = "x"; u.files["/tool.exe"] = "x";
    g.start({"winpty", "tool"}); w.run([&] { return g.finished() || g.spawned; }, 60000); std::string cmd = u8(g.cmd); if (cmd.find("home") == std::string::npos) c.fail("started: [%s]", cmd.c_str());
}''')
S['empty-path-element']['demo'] = RIG + S['empty-path-element']['demo']

seed('resize-wakeup-lost', 'C32', [(U+'main.cc', '''        mainWakeup().reset();

        // Check for terminal resize.
''', '''        // Check for terminal resize.
'''), (U+'main.cc', '''                winpty_set_size(wp, sz.ws_col, sz.ws_row, NULL);
            }
        }
''', '''                winpty_set_size(wp, sz.ws_col, sz.ws_row, NULL);
            }
        }
        mainWakeup().reset();
''')], 'the terminal is resized again while the previous resize is being carried out', 'The second size change is not noticed.', '''
static void demo(pbt::Ctx &c) {
    Config f; World &w = reset(f); Unix &u = resetUnix(); Rig g(c, w, u); u.files["/bin/p.exe"] = "x"; u.env["PATH"] = "/bin"; g.replyDelay = 20;
    g.start({"winpty", "p"}); w.run([&] { return g.finished() || (g.spawned && u.winch && !u.tioLog.empty()); }, 60000); w.runFor(200);
    u.cols = 100; u.rows = 40; u.signal(); w.runFor(10); u.cols = 50; u.rows = 30; u.signal(); w.runFor(500);
    if (g.sizes.empty() || g.sizes.back() != std::make_pair(50, 30)) c.fail("the last requested size is %dx%d, the terminal has 50x30", g.sizes.empty() ? 0 : g.sizes.back().first, g.sizes.empty() ? 0 : g.sizes.back().second);
}''')
S['resize-wakeup-lost']['demo'] = RIG + S['resize-wakeup-lost']['demo']

seed('partial-write-repeats', 'C25', [(U+'Util.cc', '''        if (ret == -1 && errno == EINTR) {
            continue;
        }
''', '''        if (ret == -1 && errno == EINTR) {
            written = 0;
            continue;
        }
''')], 'a write to the terminal is interrupted by a signal after a partial write of the same block', 'Output bytes are written twice.', '''
static void demo(pbt::Ctx &c) {
    Config f; World &w = reset(f); Unix &u = resetUnix(); Rig g(c, w, u); u.files["/bin/p.exe"] = "x"; u.env["PATH"] = "/bin"; u.shortPct = 80; u.eintrPct = 40; std::string t; for (int i = 0; i < 5000; ++i) t += (char)('a' + i % 26);
    g.plan[0].push_back({50, t}); g.start({"winpty", "p"}); w.run([&] { return g.finished() || g.outDone[0]; }, 60000); w.runFor(300); if (u.out[1].data != t) c.fail("%zu bytes reached the terminal, %zu were sent", u.out[1].data.size(), t.size());
}''', 20)
S['partial-write-repeats']['demo'] = RIG + S['partial-write-repeats']['demo']

seed('colour-change-in-blanks', 'C01', [(A+'Terminal.cc', '''
                // All the cells just up to this color change will be output.
                trimmedCellCount = i;
''', '')], 'a colour change inside the blanks at the end of a line, followed by a cursor move or more text on the same line', 'The agent believes that the terminal cursor is further left than it is.', '''
static void demo(pbt::Ctx &c) {
    Config f; World &w = reset(f); Opts o; Session s(c, w, o); s.open(); s.spawn(); s.run(60);
    s.buf->cy = 24; s.buf->write(u"ab"); for (int x = 6; x < 80; ++x) s.buf->set(x, 24, sim::Cell{' ', 0x17}); s.settle();
    if (s.term.cx != 2) c.fail("the terminal cursor is in column %d instead of 2", s.term.cx);
}''')

seed('setline-forgets-obscured', 'C07', [(A+'ConsoleLine.cc', '''    if (static_cast<int>(m_prevData.size()) < newLength) {
        m_prevData.resize(newLength);
    }
''', '''    m_prevData.resize(newLength);
''')], 'a window that is made narrower and then wider again while the hidden part of a line was erased', 'Text that the terminal still holds beyond the narrow window reappears.', '''
static void demo(pbt::Ctx &c) {
    Config f; f.os = OS_W7; World &w = reset(f); Opts o; o.paper = true; Session s(c, w, o); s.term.obscure = true; s.open(); s.spawn(); s.run(60); s.buf->write(u"0123456789012345678901234567890123456789X"); s.buf->cx = 0; s.buf->cy = 1; s.settle();
    s.term.resize(30, 25); s.setSize(30, 25); s.settle(); s.term.resize(80, 25); s.setSize(80, 25); s.settle();
    std::string want; for (int x = 0; x < s.buf->w; ++x) want += (char)s.buf->at(x, s.buf->win.t).ch; while (!want.empty() && want.back() == ' ') want.pop_back();
    if (s.term.rowText(0) != want) c.fail("the terminal shows [%s], the console [%s]", s.term.rowText(0).c_str(), want.c_str());
}''')

seed('title-buffer-halved', 'C09', [(A+'Win32Console.cc', 'const size_t needed = (count + 1) * sizeof(wchar_t);', 'const size_t needed = count + 1;')], 'Windows Vista or 7, where the title buffer size is taken as a byte count', 'Long titles are cut short.', '''
static void demo(pbt::Ctx &c) {
    Config f; f.os = OS_W7; World &w = reset(f); Opts o; Session s(c, w, o); s.open(); s.spawn(); s.run(60);
    for (int n : {10, 14, 20, 30, 50, 200}) { std::string t(n, 'a' + n % 26); s.con->title = u16(t); s.run(100); if (s.term.titles.empty() || s.term.titles.back() != t) c.fail("title of %d characters: [%s]", n, s.term.titles.empty() ? "none" : s.term.titles.back().c_str()); }
}''')

seed('mouse-split-before-row', 'C11', [(A+'ConsoleInput.cc', '''    out.coord.X = (*pch - '!') & 0xFF;
    ADVANCE();
''', '''    out.coord.X = (*pch++ - '!') & 0xFF;
''')], 'a default-encoding mouse report whose last byte arrives in a later read', 'The report is decoded with a bogus row and its last byte is typed as text.', '''
static void demo(pbt::Ctx &c) {
    Config f; World &w = reset(f); Opts o; o.mouseMode = MOUSE_FORCE; Session s(c, w, o); s.open(); s.spawn(); s.run(60); size_t n0 = s.con->log.size();
    s.in.write("\\x1b[M !"); s.run(20); s.in.write("("); s.run(100); int keys = 0, y = -1; for (size_t i = n0; i < s.con->log.size(); ++i) { auto &e = s.con->log[i]; if (e.type == InEv::Key) ++keys; if (e.type == InEv::Mouse && y < 0) y = e.y; }
    if (keys || y != 7) c.fail("%d key events, mouse row %d", keys, y);
}''')

seed('modifier-eight', 'C12', [(A+'DefaultInputMap.cc', '''        ASSERT(!is_numeric && "kBareMod is invalid with numeric sequences");
        for (int mod = 2; mod <= 8; ++mod) {''', '''        ASSERT(!is_numeric && "kBareMod is invalid with numeric sequences");
        for (int mod = 2; mod < 8; ++mod) {''')], 'a cursor key with Shift, Alt and Ctrl in the form without a semicolon (ESC [ 8 A)', 'The sequence is typed as text.', '''
static void demo(pbt::Ctx &c) {
    Config f; World &w = reset(f); Opts o; Session s(c, w, o); s.open(); s.spawn(); s.run(60); size_t n0 = s.con->log.size();
    s.in.write("\\x1b[8A"); s.run(300); for (size_t i = n0; i < s.con->log.size(); ++i) { auto &e = s.con->log[i]; if (e.type == InEv::Key && e.down && e.vk == 0x26 && (e.ctrl & 0x1A) == 0x1A) return; }
    c.fail("no Up key press with Shift, Alt and Ctrl");
}''')

seed('act-before-check', 'C18', [(A+'Agent.cc', '''    const int rows = packet.getInt32();
    packet.assertEof();
    resizeWindow(cols, rows);
''', '''    const int rows = packet.getInt32();
    resizeWindow(cols, rows);
    packet.assertEof();
''')], 'a size message with trailing bytes', 'The agent resizes the console before it rejects the message.', '''
static void demo(pbt::Ctx &c) {
    Config f; World &w = reset(f); Opts o; Session s(c, w, o); s.open(); s.spawn(); s.run(60); std::string p = wire::Enc().i32(1).i32(50).i32(20).i32(7).done();
    for (auto &q : w.allPipes) if (u8(q->rec.name).find("control") != std::string::npos) q->toClient.data += p; w.pump(); w.runFor(500);
    if (s.buf->win.w() != 80) c.fail("the console was resized to %d columns", s.buf->win.w());
}''')

seed('backpressure', 'C22', [(A+'Agent.cc', '''    if (shouldScrapeContent) {
        syncConsoleTitle();''', '''    if (shouldScrapeContent && m_conoutPipe->bytesToSend() < 64 * 1024) {
        syncConsoleTitle();''')], 'more than 64 KB of output waiting for a slow reader', 'What the console shows meanwhile is never sent, so the bytes depend on the reading speed.', '''
static std::string once(pbt::Ctx &c, bool slow) {
    Config f; World &w = reset(f); Opts o; o.cols = 200; o.rows = 100; Session s(c, w, o); s.keepRaw = true; s.open(); s.spawn(); s.run(60);
    for (int k = 0; k < 40; ++k) { for (int y = 0; y < 90; ++y) for (int x = 0; x < 199; ++x) s.buf->set(x, y, sim::Cell{(uint16_t)('a' + (x + y + k) % 26), 7}); if (slow) w.runFor(100); else s.run(100); }
    s.run(500); return s.raw;
}
static void demo(pbt::Ctx &c) {
    std::string a = once(c, false), b = once(c, true); if (a != b) c.fail("%zu bytes when read at once, %zu when read late", a.size(), b.size());
}''')

seed('tab-not-quoted', 'C24', [(U+'main.cc', '''            strchr(arg, ' ') != NULL ||
            strchr(arg, '\\t') != NULL ||
''', '''            strchr(arg, ' ') != NULL ||
''')], 'an argument with a tab and no blank', 'The argument is split in two.', '''
static void demo(pbt::Ctx &c) {
    Config f; World &w = reset(f); Unix &u = resetUnix(); Rig g(c, w, u); u.files["/bin/p.exe"] = "x"; u.env["PATH"] = "/bin";
    g.start({"winpty", "p", "a\\tb"}); w.run([&] { return g.finished() || g.spawned; }, 60000); std::string cmd = u8(g.cmd); if (cmd.find("\\"a\\tb\\"") == std::string::npos) c.fail("started: [%s]", cmd.c_str());
}''')
S['tab-not-quoted']['demo'] = RIG + S['tab-not-quoted']['demo']

seed('process-handle-leak', 'C29', [(L+'winpty.cc', '''                localProcess =
                    stealHandle(wp->agentProcess.get(), remoteProcess);
            }
''', '''                localProcess =
                    stealHandle(wp->agentProcess.get(), remoteProcess);
                *process_handle = localProcess.release();
            }
'''), (L+'winpty.cc', '''            if (process_handle != nullptr) {
                *process_handle = localProcess.release();
            }
''', '')], 'the second handle cannot be duplicated', 'A failing spawn call leaves the process handle open.', '''
static void demo(pbt::Ctx &c) {
    Config f; World &w = reset(f); Opts o; Session s(c, w, o); s.open(); s.run(60); Fault ft; ft.api = "client:DuplicateHandle"; ft.nth = 2; ft.err = 5; w.faults.push_back(ft); size_t n = w.client->table.size(); Call r;
    w.call([&] { SpawnArgs a; r = libSpawn(s.wp, a); }, 60000); if (r.ok) c.fail("the fault did not happen"); if (w.client->table.size() >= n) c.fail("%zu handles before the failed call, %zu after it", n, w.client->table.size());
}''')

seed('scrape-before-exit-check', 'C20', [(A+'Agent.cc', '''    // Check if the child process has exited.
    if (m_autoShutdown &&''', '''    if (shouldScrapeContent) {
        syncConsoleTitle();
        scrapeBuffers();
    }

    // Check if the child process has exited.
    if (m_autoShutdown &&'''), (A+'Agent.cc', '''    // Scrape for output *after* the above exit-check to ensure that we collect
    // the child process's final output.
    if (shouldScrapeContent) {
        syncConsoleTitle();
        scrapeBuffers();
    }

''', '')], 'the program prints and exits between the console read and the exit check of one poll', 'The last output is lost.', '''
static void demo(pbt::Ctx &c) {
    Config f; World &w = reset(f); Opts o; Session s(c, w, o); s.open(); s.spawn(); s.run(100); int where = (int)c.choose(20), at = where; bool done = false;
    w.onApi = [&](const char *api) { if (done || w.cur->proc != s.agent || s.con->frozen) return; if (at-- > 0) return; done = true; s.buf->write(u"last words"); w.killProcess(s.child, 0, false); };
    s.run(500); w.onApi = nullptr; if (!s.out.eof()) c.fail("the stream has not ended"); if (show(s, 0) != "last words") c.fail("the terminal shows [%s]", show(s, 0).c_str());
}''', 30)

seed('cjk-reverse', 'C03', [(A+'Scraper.cc', '(cp == 932 || cp == 936 || cp == 949 || cp == 950)', '(cp == 932 || cp == 936 || cp == 949)')], 'code page 950 on a console before Windows 10', 'Reverse video and underlining are dropped.', '''
static void demo(pbt::Ctx &c) {
    Config f; f.os = OS_W7; World &w = reset(f); Opts o; Session s(c, w, o); s.open(); s.spawn(); s.con->outCp = 950; s.run(60);
    s.buf->attr = 0x4002; s.buf->write(u"x"); s.settle(); auto &l = s.term.line(s.term.top); auto want = vt::rendOf(0x4002, true, true); if (l[0].r != want) c.fail("cell 0 has %s instead of %s", l[0].r.str().c_str(), want.str().c_str());
}''')

seed('lines-reappear-when-taller', 'C02', [(A+'Scraper.cc', '''            m_consoleBuffer->clearLines(0, origWindowRect.Top, origInfo);
            clearBufferLines(0, origWindowRect.Top);
''', '''            if (m_syncRow == -1) {
                m_consoleBuffer->clearLines(0, origWindowRect.Top, origInfo);
            }
            clearBufferLines(0, origWindowRect.Top);
''')], 'the buffer is full, and the terminal is made taller, so that the console window moves up over lines that have scrolled out', 'Lines of the scrollback are printed again on the screen.', '''
static void demo(pbt::Ctx &c) {
    Config f; World &w = reset(f); Opts o; o.cols = 40; o.rows = 20; o.paper = true; Session s(c, w, o); s.open(); s.spawn(); int n = 0;
    while (n < 3300) { for (int i = 0; i < 100; ++i) s.buf->write(u16("line " + std::to_string(n++) + "\\n")); s.run(60); }
    s.settle(); s.keepRaw = true; s.setSize(40, 30); s.settle();
    if (s.raw.find("line 32") != std::string::npos) c.fail("the terminal was made taller and lines were printed again: %s", esc(s.raw.substr(0, 200)).c_str());
}''')

seed('clear-keeps-dirty-count', 'C07', [(A+'Scraper.cc', '''    m_dirtyWindowTop = -1;
    m_dirtyLineCount = 0;''', '''    m_dirtyWindowTop = -1;
    if (sendClear == Terminal::OmitClear) {
        m_dirtyLineCount = 0;
    }''')], 'the program prints more than a screen, clears everything, and the terminal is made lower afterwards', 'The window is moved to where lines were before the clear, away from the first lines of the screen.', '''
static void demo(pbt::Ctx &c) {
    Config f; World &w = reset(f); Opts o; o.cols = 60; o.rows = 25; Session s(c, w, o); s.open(); s.spawn(); s.run(60);
    for (int i = 0; i < 100; ++i) s.buf->write(u16("line " + std::to_string(i) + "\\n")); s.settle();
    draw::cls(*s.buf); s.buf->write(u"one\\r\\ntwo\\r\\nthree"); s.settle(); s.setSize(60, 10); s.settle();
    if (s.buf->win.t != 0) c.fail("the console window starts at row %d although the text is in rows 0 to 2", s.buf->win.t);
}''')

seed('wide-at-line-end', 'C01', [(A+'Terminal.cc', '''            if (i + cellCount == width) {
''', '''            if (i == width - 1) {
''')], 'a full-width character fills the last two cells of a line', 'The erase that follows takes half of the character away.', '''
static void demo(pbt::Ctx &c) {
    Config f; f.os = OS_W10; World &w = reset(f); Opts o; o.cols = 40; Session s(c, w, o); s.open(); s.spawn(); s.run(60);
    s.buf->cx = 38; draw::writeText(*s.buf, u"\\x4E00"); s.settle(); auto &l = s.term.line(s.term.top);
    if (l[38].ch != 0x4E00 || l[39].ch != 0x4E00) c.fail("the last two cells are U+%04X U+%04X", l[38].ch, l[39].ch);
}''')

seed('busy-server-drops-message', 'C33', [(H+'DebugClient.cc', 'WaitNamedPipeW(kPipeName, NMPWAIT_WAIT_FOREVER)', 'WaitNamedPipeW(kPipeName, NMPWAIT_NOWAIT)')], 'another process is talking to the debug server while a message is sent', 'The message is dropped.', '''
static void demo(pbt::Ctx &c) {
    size_t n[2] = {0, 0};
    for (int k = 0; k < 2; ++k) {
        Config f; f.debug = "trace"; World &w = reset(f); Process *srv = startDebugServer({"winpty-debugserver.exe"}); w.runFor(10);
        auto held = std::make_shared<Ext>(); if (k) { held->open(u"\\\\\\\\.\\\\pipe\\\\DebugServer", true, true, 7777); w.timers.insert({w.now + 20, [held] { held->close(); }}); }
        Opts o; void *wp = nullptr; Call r; w.call([&] { r = libOpen(o, &wp); }, 60000); w.runFor(50);
        for (auto &q : w.allPipes) if (q->rec.ownerPid == srv->pid) for (int p : q->acceptedPid) n[k] += p == w.client->pid;
        w.call([&] { libFree(wp); }, 60000); w.runFor(200);
    }
    if (n[0] != n[1] || !n[0]) c.fail("%zu messages of the library arrive, %zu when the server is busy for a moment", n[0], n[1]);
}''')

seed('oversized-message-cut', 'C34', [('src/debugserver/DebugServer.cc', 'if (!ReadFile(serverPipe, msgBuffer, MSG_SIZE, &bytesRead, nullptr)) {', 'if (!ReadFile(serverPipe, msgBuffer, MSG_SIZE, &bytesRead, nullptr) &&\n                GetLastError() != ERROR_MORE_DATA) {')], 'a client sends a message of more than 4,096 bytes', 'The server shows a part of it and acknowledges it.', '''
static void demo(pbt::Ctx &c) {
    Config f; World &w = reset(f); Process *srv = startDebugServer({"winpty-debugserver.exe"}); w.runFor(10); auto p = w.newProcess("client", w.client); BOOL ok = 0; static std::string m(4100, 'x');
    w.startThread(p.get(), [&ok] { HANDLE h = CreateFileW((const wchar_t *)u"\\\\\\\\.\\\\pipe\\\\DebugServer", GENERIC_READ | GENERIC_WRITE, 0, NULL, OPEN_EXISTING, 0, NULL); DWORD mode = PIPE_READMODE_MESSAGE; SetNamedPipeHandleState(h, &mode, NULL, NULL); char r[16]; DWORD n = 0; ok = TransactNamedPipe(h, &m[0], 4100, r, 16, &n, NULL); });
    w.runFor(100); if (!w.stdio[srv].shown.empty() || ok) c.fail("%zu bytes of a message of 4100 are shown, the message is %s", w.stdio[srv].shown.size(), ok ? "acknowledged" : "not acknowledged");
}''')
S['oversized-message-cut']['demo'] = '#include <windows.h>\n' + S['oversized-message-cut']['demo']
