#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <termios.h>
#include <unistd.h>
#undef LOCK_WRITE
#include "internal.h"
#include "unix.h"
#include "../engine/pbt.h"
namespace sim {
Unix *ux; int (*adapterMainPtr)(int, char **);
Unix &resetUnix() {
    delete ux; ux = new Unix;
    for (int i = 0; i < 3; ++i) { auto &t = ux->tio[i]; t.c_lflag = ECHO | ICANON | IEXTEN | ISIG; t.c_iflag = BRKINT | ICRNL | IXON; t.c_oflag = OPOST | ONLCR; t.c_cflag = CS7 | PARENB | CREAD; t.c_cc[VMIN] = 4; t.c_cc[VTIME] = 2; }
    return *ux;
}
int runAdapter(const std::vector<std::string> &argv) {
    std::vector<std::string> keep = argv; std::vector<char *> v; for (auto &s : keep) v.push_back(&s[0]); v.push_back(nullptr);
    int rc = adapterMainPtr((int)argv.size(), v.data()); g->killProcess(g->cur->proc, rc, false); return rc;
}
static bool chance(int pct) { return pct && pbt::g_ctx->chance(pct); }
void Unix::interrupt() { if (blocked.empty()) return; ++interruptions; *blocked[pbt::g_ctx->choose(blocked.size())] = true; }
void Unix::signal() {
    if (!winch) return; auto f = winch;
    interrupt(); g->startThread(g->client, [f] { int e = errno; f(SIGWINCH); errno = e; });
}
// Waits for cond; true: interrupted by a signal.
static bool waitInt(const char *what, std::function<bool()> cond) {
    g->pump(); if (cond()) return false;
    auto fl = std::make_shared<bool>(false); ux->blocked.push_back(fl);
    blockUntil(what, [fl, cond] { return *fl || cond(); }, ~0ull, nullptr);
    for (size_t i = 0; i < ux->blocked.size(); ++i) if (ux->blocked[i] == fl) { ux->blocked.erase(ux->blocked.begin() + i); break; }
    return *fl && !cond();
}
static bool readable(int fd) {
    if (fd == 0) return ux->inOff < ux->in.size() || ux->inEof || ux->inErr;
    auto it = ux->fds.find(fd); if (it == ux->fds.end() || it->second.second) return true;
    return !it->second.first->data.empty() || it->second.first->wrClosed;
}
}
using namespace sim;
extern "C" {
int adx_pthread_create(pthread_t *t, const void *, void *(*fn)(void *), void *arg) { apiEnter("pthread_create"); unsigned long id = ux->nextThr++; ux->thr[id] = g->startThread(g->cur->proc, [fn, arg] { fn(arg); }); *t = (pthread_t)id; return 0; }
int adx_pthread_join(pthread_t t, void **) { apiEnter("pthread_join"); auto it = ux->thr.find((unsigned long)t); if (it == ux->thr.end()) return ESRCH; Thread *x = it->second; ++ux->joins; blockUntil("pthread_join", [x] { return x->dead; }, ~0ull, nullptr); ux->thr.erase(it); return 0; }
ssize_t adx_read(int fd, void *buf, size_t n) {
    apiEnter("read");
    if (fd != 0) {
        auto it = ux->fds.find(fd); if (it == ux->fds.end() || it->second.second) { errno = EBADF; return -1; } auto p = it->second.first;
        if (p->data.empty() && !p->wrClosed) { if (p->nbRead) { errno = EAGAIN; return -1; } if (waitInt("read", [p] { return !p->data.empty() || p->wrClosed; })) { errno = EINTR; return -1; } }
        n = std::min(n, p->data.size()); memcpy(buf, p->data.data(), n); p->data.erase(0, n); return n;
    }
    if (chance(ux->eintrPct)) { ++ux->interruptions; errno = EINTR; return -1; }
    if (waitInt("read", [] { return readable(0); })) { errno = EINTR; return -1; }
    if (ux->inOff < ux->in.size()) {
        n = std::min(n, ux->in.size() - ux->inOff); if (chance(ux->shortPct)) n = 1 + pbt::g_ctx->choose(std::min<size_t>(n, 64));
        memcpy(buf, ux->in.data() + ux->inOff, n); ux->inOff += n; return n;
    }
    if (ux->inErr) { errno = ux->inErr; return -1; }
    return 0;
}
ssize_t adx_write(int fd, const void *buf, size_t n) {
    apiEnter("write");
    if (fd > 2) {
        auto it = ux->fds.find(fd); if (it == ux->fds.end() || !it->second.second) { errno = EBADF; return -1; } auto p = it->second.first;
        if (chance(ux->eintrPct)) { ++ux->interruptions; errno = EINTR; return -1; }
        if (p->data.size() + n > 4096) { errno = EAGAIN; return -1; } p->data.append((const char *)buf, n); apiEnter("write (done)"); return n;
    }
    if (fd == 0) { errno = EBADF; return -1; }
    auto &o = ux->out[fd];
    if (chance(ux->eintrPct)) { ++ux->interruptions; errno = EINTR; return -1; }
    if (n == 0) return 0;
    if (waitInt("write", [&o] { return o.room || o.err; })) { errno = EINTR; return -1; }
    if (o.err) { errno = o.err; return -1; }
    n = std::min(n, o.room); if (chance(ux->shortPct)) n = 1 + pbt::g_ctx->choose(std::min<size_t>(n, 64));
    o.data.append((const char *)buf, n); if (o.room != (size_t)-1) o.room -= n; return n;
}
int adx_pipe(int *fds) { apiEnter("pipe"); auto p = std::make_shared<UnixPipe>(); fds[0] = ux->nextFd++; fds[1] = ux->nextFd++; ux->fds[fds[0]] = {p, false}; ux->fds[fds[1]] = {p, true}; return 0; }
int adx_close(int fd) { apiEnter("close"); auto it = ux->fds.find(fd); if (it == ux->fds.end()) { errno = EBADF; return -1; } (it->second.second ? it->second.first->wrClosed : it->second.first->rdClosed) = true; ux->fds.erase(it); return 0; }
int adx_fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); int v = va_arg(ap, int); va_end(ap);
    auto it = ux->fds.find(fd); if (it == ux->fds.end()) { errno = EBADF; return -1; } bool &nb = it->second.second ? it->second.first->nbWrite : it->second.first->nbRead;
    if (cmd == F_GETFL) return (it->second.second ? O_WRONLY : O_RDONLY) | (nb ? O_NONBLOCK : 0);
    if (cmd == F_SETFL) { nb = v & O_NONBLOCK; return 0; }
    return 0;
}
int adx_select(int n, fd_set *r, fd_set *w, fd_set *, struct timeval *tv) {
    apiEnter("select"); ++ux->selects; std::vector<int> fs; for (int i = 0; i < n; ++i) if (r && FD_ISSET(i, r)) fs.push_back(i);
    auto any = [fs] { for (int f : fs) if (readable(f)) return true; return false; };
    if (chance(ux->eintrPct)) { ++ux->interruptions; errno = EINTR; return -1; }
    if (tv) { uint64_t d = g->now + tv->tv_sec * 1000 + tv->tv_usec / 1000; bool to; auto fl = std::make_shared<bool>(false); ux->blocked.push_back(fl); blockUntil("select", [any, fl] { return *fl || any(); }, d, &to); for (size_t i = 0; i < ux->blocked.size(); ++i) if (ux->blocked[i] == fl) { ux->blocked.erase(ux->blocked.begin() + i); break; } if (*fl && !any()) { errno = EINTR; return -1; } }
    else if (waitInt("select", any)) { errno = EINTR; return -1; }
    int k = 0; if (r) { FD_ZERO(r); for (int f : fs) if (readable(f)) { FD_SET(f, r); ++k; } } if (w) FD_ZERO(w);
    return k;
}
int adx_isatty(int fd) { return fd >= 0 && fd < 3 && ux->tty[fd]; }
int adx_tcgetattr(int fd, struct termios *t) { if (!adx_isatty(fd)) { errno = ENOTTY; return -1; } *t = ux->tio[fd]; return 0; }
int adx_tcsetattr(int fd, int, const struct termios *t) { apiEnter("tcsetattr"); if (!adx_isatty(fd)) { errno = ENOTTY; return -1; } ux->tio[fd] = *t; ux->tioLog.push_back({fd, *t, g->now}); return 0; }
int adx_ioctl(int fd, unsigned long req, ...) {
    apiEnter("ioctl"); va_list ap; va_start(ap, req); void *p = va_arg(ap, void *); va_end(ap);
    if (!adx_isatty(fd)) { errno = ENOTTY; return -1; } if (req != TIOCGWINSZ) { errno = EINVAL; return -1; }
    auto *z = (struct winsize *)p; z->ws_col = ux->cols; z->ws_row = ux->rows; z->ws_xpixel = z->ws_ypixel = 0; return 0;
}
int adx_sigaction(int sig, const struct sigaction *sa, struct sigaction *) { if (sig == SIGWINCH && sa) ux->winch = sa->sa_handler == SIG_DFL || sa->sa_handler == SIG_IGN ? nullptr : sa->sa_handler; return 0; }
static std::string follow(const std::string &p) { auto l = ux->links.find(p); return l == ux->links.end() ? p : l->second; }
static std::string resolve(const std::string &p0) { std::string p = ux->abs(p0), q = follow(p); if (ux->files.count(q)) return q; std::string e = follow(p + ".exe"); if (!ux->files.count(e)) return ""; return ux->exeInNames || ux->links.count(p + ".exe") ? e : p; }
char *adx_realpath(const char *path, char *out) { std::string q = resolve(path); if (q.empty()) { errno = ENOENT; return nullptr; } if (q.size() >= PATH_MAX) { errno = ENAMETOOLONG; return nullptr; } if (!out) out = (char *)malloc(PATH_MAX); strcpy(out, q.c_str()); return out; }
int adx_access(const char *path0, int mode) {
    std::string path = ux->abs(path0);     std::string q = follow(path); auto it = ux->files.find(q); if (it == ux->files.end()) it = ux->files.find(follow(std::string(path) + ".exe")); if (it == ux->files.end()) { errno = ENOENT; return -1; }
    bool x = it->second == "x", r = x || it->second == "r"; if (((mode & X_OK) && !x) || ((mode & R_OK) && !r)) { errno = EACCES; return -1; } return 0;
}
char *adx_getenv(const char *n) { auto it = ux->env.find(n); return it == ux->env.end() ? nullptr : &it->second[0]; }
char *adx_setlocale(int, const char *) { return (char *)"C.UTF-8"; }
size_t adx_mbstowcs(wchar_t *d0, const char *s, size_t n) {
    char16_t *d = (char16_t *)d0; size_t k = 0;
    while (*s) {
        unsigned char c = *s; uint32_t u; int len = c < 0x80 ? 1 : c >= 0xC2 && c < 0xE0 ? 2 : c >= 0xE0 && c < 0xF0 ? 3 : c >= 0xF0 && c < 0xF5 ? 4 : 0; if (!len) return (size_t)-1;
        u = len == 1 ? c : c & (0xFF >> (len + 1)); for (int i = 1; i < len; ++i) { if (((unsigned char)s[i] & 0xC0) != 0x80) return (size_t)-1; u = u << 6 | ((unsigned char)s[i] & 0x3F); }
        size_t need = u >= 0x10000 ? 2 : 1; if (d && k + need > n) return k;
        if (d) { if (need == 2) { d[k] = 0xD800 + ((u - 0x10000) >> 10); d[k + 1] = 0xDC00 + ((u - 0x10000) & 0x3FF); } else d[k] = (char16_t)u; } k += need; s += len;
    }
    if (d && k < n) d[k] = 0; return k;
}
size_t adx_wcstombs(char *d, const wchar_t *s0, size_t n) {
    std::string r = u8(U16((const char16_t *)s0)); if (!d) return r.size(); size_t k = std::min(n, r.size()); memcpy(d, r.data(), k); if (k < n) d[k] = 0; return k;
}
static std::string vfmt(const char *f, va_list ap) { char b[8192]; va_list a2; va_copy(a2, ap); int n = vsnprintf(b, sizeof b, f, ap); std::string s; if (n >= (int)sizeof b) { s.resize(n + 1); vsnprintf(&s[0], n + 1, f, a2); s.resize(n); } else s = b; va_end(a2); return s; }
int adx_printf(const char *f, ...) { va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); ux->stdoutText += s; return s.size(); }
int adx_fprintf(FILE *o, const char *f, ...) { va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); (o == stdout ? ux->stdoutText : ux->stderrText) += s; return s.size(); }
int adx_putchar(int c) { ux->stdoutText += (char)c; return c; }
int adx_fflush(FILE *) { return 0; }
void adx_perror(const char *s) { ux->stderrText += std::string(s) + ": " + strerror(errno) + "\n"; }
void adx_assert_fail(const char *e, const char *f, unsigned l, const char *) { const char *b = strrchr(f, '/'); simFail("the adapter's assertion %s:%u failed: %s", b ? b + 1 : f, l, e); }
ssize_t cygwin_conv_path(unsigned, const void *from, void *to, size_t size) {
    std::string p = (const char *)from, r;
    if (p.compare(0, 10, "/cygdrive/") == 0 && p.size() > 10) { r = std::string(1, (char)toupper(p[10])) + ":" + p.substr(11); if (r.size() == 2) r += "\\"; }
    else r = (p.size() && p[0] == '/' ? "C:\\cygwin64" : "") + p;
    bool mixed = (p.size() & 1); if (!mixed) for (auto &ch : r) if (ch == '/') ch = '\\';
    if (!to || size == 0) return r.size() + 1; if (size < r.size() + 1) { errno = ENOSPC; return -1; } memcpy(to, r.c_str(), r.size() + 1); return 0;
}
uintptr_t cygwin_internal(int, ...) { ++ux->syncs; if (!ux->noSync) for (auto &kv : ux->env) ux->winEnv[kv.first] = kv.second; return 0; }
WINBOOL WINAPI SetEnvironmentVariableW(LPCWSTR n, LPCWSTR v) { std::string k = u8(toU16(n)); if (!v) ux->winEnv.erase(k); else ux->winEnv[k] = u8(toU16(v)); return TRUE; }
DWORD WINAPI FormatMessageW(DWORD, LPCVOID, DWORD err, DWORD, LPWSTR buf, DWORD, va_list *) {
    if (err % 7 == 3) return 0; U16 m = u"System message " + u16(std::to_string(err)) + u"\r\n"; char16_t *p = (char16_t *)localAlloc((m.size() + 1) * 2, "message"); memcpy(p, m.c_str(), (m.size() + 1) * 2); *(void **)buf = p; return m.size();
}
}
