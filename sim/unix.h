// The POSIX side of the adapter: terminal, signals, environment and file names.
#pragma once
#include "sim.h"
#include <termios.h>
namespace sim {
struct UnixPipe { std::string data; bool rdClosed = false, wrClosed = false, nbRead = false, nbWrite = false; };
struct Unix {
    std::map<std::string, std::string> env, winEnv;
    std::map<std::string, std::string> files;                // resolved path -> "x" executable, "r" only readable, "" neither
    std::map<std::string, std::string> links;                // path -> resolved path
    bool tty[3] = {true, true, true}; struct termios tio[3] = {};
    struct TioEv { int fd; struct termios t; uint64_t time; }; std::vector<TioEv> tioLog;
    std::string cwd = "/home/u/cur"; std::string abs(const std::string &p) { return p.empty() || p[0] == '/' ? p : cwd + "/" + p; }
    bool exeInNames = false, noSync = false;                // realpath("x") of x.exe yields "x.exe"; the environment is not copied by the system
    int cols = 80, rows = 25;
    // terminal input
    std::string in; size_t inOff = 0; bool inEof = false; int inErr = 0; bool whole = false;
    struct Out { std::string data; size_t room = (size_t)-1; int err = 0; } out[3];
    int eintrPct = 0, shortPct = 0;
    void (*winch)(int) = nullptr;
    std::string stdoutText, stderrText;
    std::map<int, std::pair<std::shared_ptr<UnixPipe>, bool>> fds; int nextFd = 3;     // bool: write end
    std::map<unsigned long, Thread *> thr; unsigned long nextThr = 1;
    std::vector<std::shared_ptr<bool>> blocked;              // interruption flags of the calls that wait right now
    int selects = 0, interruptions = 0, joins = 0;
    int syncs = 0;
    void feed(const std::string &s) { in += s; }
    void signal();                                           // a SIGWINCH arrives
    void interrupt();                                        // some other signal interrupts one waiting call
};
extern Unix *ux;
Unix &resetUnix();
int runAdapter(const std::vector<std::string> &argv);        // the adapter's main(), on the current thread
extern int (*adapterMainPtr)(int, char **);
}
