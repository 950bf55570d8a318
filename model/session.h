// One library session in the simulated world, with a reference terminal attached to its output.
#pragma once
#include "engine/pbt.h"
#include "sim/sim.h"
#include "model/vt.h"
namespace session {
using namespace sim;
// library constants (winpty_constants.h), restated
enum : uint64_t { F_CONERR = 1, F_PLAIN = 2, F_COLOR = 4, F_DESKTOP = 8 };
enum { MOUSE_NONE = 0, MOUSE_AUTO = 1, MOUSE_FORCE = 2 };
enum : uint64_t { SPAWN_AUTO_SHUTDOWN = 1, SPAWN_EXIT_AFTER = 2 };
enum { E_OK = 0, E_OOM = 1, E_SPAWN = 2, E_LOST = 3, E_EXE_MISSING = 4, E_UNSPEC = 5, E_AGENT_DIED = 6, E_AGENT_TIMEOUT = 7, E_AGENT_CREATE = 8 };

struct Call {               // result of one library call
    bool returned = false, ok = false, hasErr = false; uint32_t code = 0; U16 msg; uint32_t createErr = 0; uint64_t hProc = 0, hThread = 0; int n = 0;
};
struct SpawnArgs { uint64_t flags = SPAWN_AUTO_SHUTDOWN; bool hasApp = true, hasCmd = true, hasCwd = false, hasEnv = false; U16 app = u"C:\\prog.exe", cmd = u"prog", cwd, env; bool wantProc = true, wantThread = true, wantCreateErr = true, wantErr = true; };
struct Opts { uint64_t flags = 0; int mouseMode = MOUSE_AUTO; int cols = 80, rows = 25; long timeout = -1; bool setSize = true; bool attach = true; bool paper = false, grow = false; };

Call libOpen(const Opts &o, void **wp);
Call libSpawn(void *wp, const SpawnArgs &a);
Call libSetSize(void *wp, int cols, int rows, bool wantErr = true);
Call libProcList(void *wp, int *arr, int n, bool wantErr = true);
void libFree(void *wp);
U16 libName(void *wp, int which);      // 0 conin 1 conout 2 conerr; empty if null
bool libNameNull(void *wp, int which);
uint64_t libAgentProcess(void *wp);

struct Session {
    pbt::Ctx &c; World &w; Opts o;
    void *wp = nullptr; Ext in, out, err; vt::Vt term, termErr; std::string raw, rawErr; bool keepRaw = false;
    Process *agent = nullptr; Console *con = nullptr; Process *child = nullptr; std::shared_ptr<Buffer> buf, errBuf;
    Session(pbt::Ctx &c_, World &w_, const Opts &o_);
    ~Session();
    void open();                       // must succeed
    void connect();                    // data pipes
    void spawn(uint64_t flags = SPAWN_AUTO_SHUTDOWN);   // must succeed; finds the child and the console
    void setSize(int cols, int rows);  // must succeed
    void drain();                      // read everything available into the terminals
    void run(uint64_t ms);             // time passes, the client reads all the time
    void settle();                     // run until the output has been quiet for a poll interval
    void setGrow() { for (auto *t : {&term, &termErr}) { t->init(32000, o.rows, true); t->grow = true; t->lines.assign(1, vt::Line()); } }
    void free();
    void checkClean();                 // no misuse, no assertion, no output a terminal would choke on
};

// A console program whose drawing blocks while a selection is active, possibly racing with the agent.
struct App {
    Session &s; std::deque<std::function<void()>> q; int gap = -1; bool racing = false; uint64_t ran = 0, racedInScrape = 0, upMoves = 0;   // upMoves: operations that moved the window up
    explicit App(Session &s_) : s(s_) {}
    void race(bool on);
    bool step();                       // run the next operation unless the console is frozen
    void add(std::function<void()> f) { q.push_back(std::move(f)); }
    void flush();                      // let everything queued happen (time passes if it has to)
};

// World configuration and I/O schedule generators
Config genConfig(pbt::Ctx &c);
inline const char *osName(int o) { static const char *n[] = {"W10", "W7", "W8", "Vista", "XP"}; return n[o]; }
Policy genPolicy(pbt::Ctx &c, bool gentle = false);
std::string cellsUtf8(const Cell *p, int n, bool trim);       // what a row of console cells reads as, in UTF-8 (independent of the agent's code)
struct OutCell { uint32_t cp; int cells; };
std::vector<OutCell> decodeRow(const Cell *p, int n);
void putWide(Buffer &b, uint16_t ch);                         // full-width character with its flag pair
// Compare a window row range with terminal lines; returns an error text or "".
std::string diffRow(const Buffer &b, int y, int x0, int n, const vt::Vt &t, int absLine, bool attrs, bool reverseOn, bool underOn);
} // namespace session
