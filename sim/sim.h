// Simulated Windows kernel + console host that the real agent and DLL code run against (no windows.h here).
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <deque>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include "fiber.h"

namespace sim {

typedef std::u16string U16;
enum Os { OS_W10 = 0, OS_W7 = 1, OS_W8 = 2, OS_VISTA = 3, OS_XP = 4 };

struct Process; struct World; struct Console; struct Thread;

struct Obj : std::enable_shared_from_this<Obj> {
    int handles = 0;
    virtual ~Obj() {}
    virtual const char *kind() const = 0;
    virtual bool signaled() { return true; }
    virtual void handleClosed(Process *, bool last) {}
};
typedef std::shared_ptr<Obj> ObjP;

struct Event : Obj { bool manual = true, set = false; const char *kind() const override { return "event"; } bool signaled() override { return set; } };
struct WinSta : Obj { U16 name; int attached = 0; const char *kind() const override { return "winsta"; } };
struct Desktop : Obj { U16 name; std::shared_ptr<WinSta> ws; bool destroyed = false; const char *kind() const override { return "desktop"; } };
struct Token : Obj { const char *kind() const override { return "token"; } };

struct Cell { uint16_t ch = ' ', attr = 7; bool operator==(const Cell &o) const { return ch == o.ch && attr == o.attr; } };
struct Rect { int l = 0, t = 0, r = 0, b = 0; int w() const { return r - l + 1; } int h() const { return b - t + 1; } };

struct Buffer : Obj {
    Console *con = nullptr;
    int w = 80, h = 300;
    std::vector<Cell> cells;
    std::vector<uint64_t> rowId;       // identity of a row across scrolling (harness bookkeeping)
    Rect win;
    int cx = 0, cy = 0;
    uint16_t attr = 7;
    uint32_t mode = 3;
    bool cursorVisible = true; int cursorSize = 25;
    const char *kind() const override { return "conout"; }
    Cell &at(int x, int y) { return cells[(size_t)y * w + x]; }
    void init(int w_, int h_);
    void scrollUp(int n);              // whole buffer up, blank rows with attr at the bottom
    void ensureVisible(int x, int y);
    void resize(int nw, int nh);
    void handleClosed(Process *, bool) override;
    // what a program does (WriteConsole with processed + wrap output)
    void write(const U16 &s);
    void putChar(uint16_t ch);
    void newline();
    void set(int x, int y, Cell c);
    void clear(uint16_t attr);          // CLS: blank everything, cursor home, window top
    U16 rowText(int y) const;
};
struct ConIn : Obj { Console *con = nullptr; const char *kind() const override { return "conin"; } };

struct InEv {
    enum Type { Key, Mouse, Size, Focus, Menu, WinMsg, Ctrl } type = Key;
    // Key
    bool down = false; int repeat = 0, vk = 0, scan = 0; uint16_t ch = 0; uint32_t ctrl = 0;
    // Mouse
    int x = 0, y = 0; uint32_t buttons = 0, flags = 0;
    // WinMsg
    uint32_t msg = 0; uint64_t wp = 0; int64_t lp = 0;
    uint64_t time = 0;
    std::string str() const;
};

struct Console {
    World *g = nullptr;
    int id = 0;
    std::vector<std::shared_ptr<Buffer>> buffers;
    std::shared_ptr<Buffer> active;
    std::shared_ptr<ConIn> in;
    uint32_t inMode = 0x1F7;       // processed,line,echo,window? mouse,insert,quickedit,extended (default)
    U16 title = u"title";
    uint32_t cp = 437, outCp = 437;
    uint64_t hwnd = 0;
    std::vector<Process *> procs;      // attached
    bool frozen = false, frozenByMark = false; int markX = 0, markY = 0;
    U16 face = u"Terminal"; int fontH = 12, fontW = 8, fontIndex = 0;
    std::vector<InEv> log;             // everything delivered to the console input, in order
    uint64_t freezes = 0;
    int settleUntil = 0;
    int minCols() const; int largestW() const; int largestH() const;
    bool legacy() const;
    void setFont(const U16 &face, int h, int w, int idx);
    void selection(bool on, bool mark);
    std::shared_ptr<Buffer> newBuffer();
};

struct IoOp {
    enum Kind { Read, Write, Connect } kind; Process *proc; Thread *thread; void *ov; char *buf; size_t len; size_t done = 0;
    uint64_t notBefore = 0; bool ready = false; uint32_t err = 0; bool finished = false; std::shared_ptr<Event> ev;
    bool cancelRequested = false; uint64_t cancelAt = 0; struct PipeEnd *end = nullptr;
};
typedef std::shared_ptr<IoOp> IoP;

struct PipeDir {                       // bytes flowing in one direction
    std::string data; size_t off = 0; size_t quota = 0;
    std::list<IoP> writes, reads;
    std::string ext; size_t extOff = 0;  // pending bytes of an external writer (never blocks)
    uint64_t delivered = 0; std::shared_ptr<std::string> tap;   // tap: every byte accepted from the writer
    size_t avail() const { return data.size() - off; }
};
struct PipeInst;
struct PipeEnd : Obj {
    std::shared_ptr<PipeInst> inst; bool server = false; bool closed = false; bool overlapped = true; bool detached = false, msgRead = false;   // detached: disconnected by the server
    Process *owner = nullptr;
    const char *kind() const override { return server ? "pipe-server" : "pipe-client"; }
    void handleClosed(Process *, bool last) override;
};
struct PipeRec {                       // creation record kept for the whole case
    U16 name; uint32_t openMode = 0, pipeMode = 0, maxInst = 0, outQ = 0, inQ = 0, timeout = 0; bool hasSd = false, daclPresent = false, inheritHandle = false;
    struct Ace { int type; uint32_t mask; std::string sid; int flags; };
    std::vector<Ace> aces; int ownerPid = 0;
};
struct PipeInst {
    PipeRec rec; PipeEnd *srv = nullptr, *cli = nullptr; bool everConnected = false, connectPending = false;
    IoP connectOp; PipeDir toServer, toClient; bool serverClosed = false, clientClosed = false; int clientPid = 0;
    uint32_t clientAccess = 0, clientFlags = 0;
    // a message pipe (the debug server's): 0 created, 1 listening, 2 connected, 3 disconnected
    bool message = false; int mstate = 0; std::deque<std::string> mq[2]; std::vector<std::string> accepted; std::vector<int> acceptedPid; int reads = 0;
    PipeDir &dirFrom(bool server) { return server ? toClient : toServer; }
};

struct HandleEnt { ObjP obj; uint32_t access = 0; bool inherit = false; bool overlapped = false; std::string origin; };

struct Thread {
    Process *proc; FiberCtx *fc = nullptr; int tid = 0; uint32_t lastError = 0; bool dead = false;
    bool waiting = false; std::function<bool()> cond; uint64_t deadline = ~0ull; bool timedOut = false; std::string what;
};

struct CreateRec {                     // a CreateProcessW call
    bool hasApp = false, hasCmd = false, hasCwd = false, hasEnv = false, hasDesktop = false, inherit = false;
    U16 app, cmd, cwd, env, desktop; uint32_t flags = 0, suiFlags = 0; int showWindow = 0;
    uint64_t hStdIn = 0, hStdOut = 0, hStdErr = 0; int callerPid = 0; bool ok = false; uint32_t err = 0; Process *child = nullptr;
};

struct Process : Obj {
    World *g = nullptr; int pid = 0; std::string name; U16 cmdline; bool exited = false; int exitCode = 0; bool killed = false;
    std::map<uint64_t, HandleEnt> table; uint64_t nextHandle = 0x10;
    std::vector<Thread *> threads; Process *parent = nullptr;
    Console *con = nullptr; uint64_t stdIn = 0, stdOut = 0, stdErr = 0;
    std::shared_ptr<Desktop> desktop; std::shared_ptr<WinSta> winsta; uint64_t hWinsta = 0, hDesktop = 0;
    bool suspended = false;            // none of its threads run
    bool ctrlCIgnored = false; std::vector<void *> ctrlHandlers; std::vector<int> ctrlEvents;
    std::map<void *, std::pair<size_t, std::string>> local;  // LocalAlloc/SIDs
    std::map<std::string, int> modules;                      // LoadLibrary refs
    int cryptCtx = 0;
    std::vector<std::string> env8;                           // unused
    CreateRec create; bool isAgent = false; std::string lastAssert; uint64_t exitTime = 0;
    size_t maxHandles = 0;
    const char *kind() const override { return "process"; }
    bool signaled() override { return exited; }
};
struct ThreadObj : Obj { Process *proc = nullptr; const char *kind() const override { return "thread"; } bool signaled() override { return proc->exited; } };

struct Policy {
    int pendPct = 0;        // % of pipe operations that complete asynchronously although they could complete at once
    int maxDelay = 0;       // ... after up to this many ms
    int chunkPct = 0;       // % of reads that return fewer bytes than available
    int quotaMode = 0;      // 0 as requested, 1 huge, 2 tiny (1..16)
    int cancelRacePct = 0;  // % of cancelled operations that complete normally or late
    int jitter = 0;         // wait timeouts overshoot by up to this many ms
    int yieldPct = 0;       // % of API calls at which another ready thread may run
};

struct Fault { std::string api; int nth = 0; uint32_t err = 5; int pid = 0; };   // nth: 1-based among matching calls; api "" = any fallible

struct Config {
    int os = OS_W10; int monW = 1920, monH = 1080; int minWinPx = 112; uint32_t startTick = 1000; uint32_t outCp = 437;
    bool agentExeExists = true; bool clientCtrlCIgnored = false; bool fontWorks = true; bool showConsoleEnv = false; bool germanLayout = false;
    uint64_t seed = 1; int initW = 80, initH = 25, initBufH = 300; bool rtlGenRandom = true; uint32_t dblClick = 500; bool randomFails = false; std::string debug;   // WINPTY_DEBUG
    std::vector<std::pair<int,int>> xpFonts;
};

extern int (*dbgsrvMainPtr)(int, char **); Process *startDebugServer(const std::vector<std::string> &args);
extern bool keepStatics; extern void (*restoreStatics)();    // puts the static variables of the modules under test back
struct Stdio { std::string out, shown, err; };   // out: printed, shown: flushed
struct World {
    std::map<Process *, Stdio> stdio;      // of processes whose stdio is captured
    std::map<void *, IoP> ioOps; int serial = 0;
    Config cfg; Policy pol;
    uint64_t now = 0; uint64_t apiCount = 0, apiAtAdvance = 0; int nextPid = 1000, nextTid = 5000, nextHwnd = 0x10010, nextConsole = 1;
    std::vector<std::shared_ptr<Process>> procs; std::vector<std::unique_ptr<Thread>> threads; std::vector<std::unique_ptr<Console>> consoles;
    std::vector<std::shared_ptr<WinSta>> winstas; std::vector<std::shared_ptr<Desktop>> desktops;
    Process *client = nullptr; Thread *cur = nullptr; Thread *mainThread = nullptr;
    std::map<U16, std::shared_ptr<PipeInst>> pipes;          // by lower-case name, live server ends
    std::vector<std::shared_ptr<PipeInst>> allPipes;
    std::vector<PipeRec> pipeRecs;
    std::vector<CreateRec> creates;
    std::vector<std::string> randomHex;                       // random bytes handed out
    std::multimap<uint64_t, std::function<void()>> timers;
    std::vector<Fault> faults; std::vector<std::string> faultsHit; std::map<std::string, int> apiCalls; int fallible = 0; bool countFallible = false; std::vector<std::string> fallibleLog;
    std::function<void(const char *)> onApi;                  // preemption hook, not re-entrant
    bool inHook = false;
    std::function<int(Process *)> agentBody;                  // replaces the real agent when set
    std::function<uint32_t(CreateRec &)> onSpawn;             // error code for child creation, 0 = succeed
    std::function<bool(const U16 &)> onCreatePipe;            // true: somebody else already owns an instance of that name
    bool tapPipes = false;                                    // new pipes keep everything written to them (PipeDir::tap)
    int squatted = 0;                                         // pipes opened as a further instance of somebody else's pipe
    std::function<void(Process *)> onChild;                   // child created
    std::vector<std::string> problems;                        // contract violations by the code under test (bad handle use, close with I/O in flight ...)
    int bgHandlesAtStart = 0;
    int closedWithIo = 0;
    int maxConcurrentIo = 0;
    size_t rr = 0; uint64_t rng = 1;
    int wsCounter = 0;
    bool crashIsDeath = false, agentCrashed = false;     // an exception that escapes the agent ends its process (injected faults only)
    bool agentAsserted = false; std::string agentAssertText;
    std::function<void(const std::string &)> onAgentAssert;

    bool run(const std::function<bool()> &pred, uint64_t maxMs);
    void runFor(uint64_t ms);
    Thread *startThread(Process *p, std::function<void()> fn);
    bool call(std::function<void()> fn, uint64_t maxMs = 100000);     // run fn as a client thread; false = did not return in time
    void killProcess(Process *p, int code, bool killed);
    void pump();
    uint64_t addHandle(Process *p, ObjP o, const char *origin, bool inherit = false, bool overlapped = false, uint32_t access = 0);
    bool closeHandle(Process *p, uint64_t h);
    ObjP getObj(Process *p, uint64_t h);
    std::shared_ptr<Process> newProcess(const std::string &name, Process *parent);
    Console *newConsole();
    void attach(Process *p, Console *c); void detach(Process *p);
    void problem(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
    Process *agent(int n = 0);          // nth agent process started
    std::vector<Process *> agents();
    uint64_t rnd();
    std::string ownerSid();              // of the token's default owner
};
extern World *g;
// Memory allocation failures in the library: the nth operator new called from the library's own code fails (persist: and every later one).
struct Oom { bool counting = false, persist = false, hit = false, track = false; long nth = 0, count = 0, live = 0; };     // track: live = blocks allocated by the library's code and not yet freed
extern Oom oom;
World &reset(const Config &cfg);        // throws the old world away
extern int (*agentMainPtr)();
void simFail(const char *fmt, ...) __attribute__((format(printf, 1, 2), noreturn));   // judged as a property failure

// An endpoint used by the harness itself (the terminal side of a data pipe, or a foreign process).
struct Ext {
    std::shared_ptr<PipeInst> inst; std::shared_ptr<PipeEnd> end; uint32_t err = 0;
    bool open(const U16 &name, bool read, bool write, int pid);   // client end
    void write(const std::string &s); std::string read(size_t max = (size_t)-1); bool eof();  // eof: peer closed and all data read
    bool peerClosed(); void close(); bool ok() const { return (bool)end && !end->closed; }
    size_t unread() const; size_t unsent() const;
};
int keyScanCode(int vk); int charKey(int ch, bool german);   // the simulated keyboard layout (VkKeyScan convention)
U16 lower(const U16 &s);
U16 u16(const std::string &ascii);
std::string u8(const U16 &s);           // WTF-8 style, for messages
std::string esc(const std::string &s);  // printable form for messages
} // namespace sim
