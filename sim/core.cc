// Scheduler, virtual clock, handles, events, waits, named pipes.
#include "internal.h"
#include "../engine/pbt.h"
#include <stdarg.h>
#include <algorithm>
#include <exception>
#include <unistd.h>

namespace sim {

World *g;
Oom oom;
int (*agentMainPtr)();

void simFail(const char *fmt, ...) {
    char b[2000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    pbt::g_ctx->fail("%s", b);
}
void World::problem(const char *fmt, ...) {
    char b[1000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (problems.size() < 50) problems.push_back(b);
}
U16 lower(const U16 &s) { U16 r = s; for (auto &c : r) if (c >= 'A' && c <= 'Z') c += 32; return r; }
U16 u16(const std::string &a) { return U16(a.begin(), a.end()); }
std::string u8(const U16 &s) {
    std::string r;
    for (size_t i = 0; i < s.size(); ++i) {
        uint32_t c = s[i];
        if (c >= 0xD800 && c < 0xDC00 && i + 1 < s.size() && s[i + 1] >= 0xDC00 && s[i + 1] < 0xE000) c = 0x10000 + ((c - 0xD800) << 10) + (s[++i] - 0xDC00);
        if (c < 0x80) r += (char)c;
        else if (c < 0x800) { r += (char)(0xC0 | c >> 6); r += (char)(0x80 | (c & 63)); }
        else if (c < 0x10000) { r += (char)(0xE0 | c >> 12); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); }
        else { r += (char)(0xF0 | c >> 18); r += (char)(0x80 | (c >> 12 & 63)); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); }
    }
    return r;
}
std::string esc(const std::string &s) {
    std::string r; char b[8];
    for (unsigned char c : s) {
        if (c == 27) r += "\\e"; else if (c == '\\') r += "\\\\"; else if (c >= 32 && c < 127) r += (char)c;
        else { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
    }
    return r;
}
uint64_t World::rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }
void setErr(uint32_t e) { g->cur->lastError = e; }

// ---------------------------------------------------------------- API entry, faults
void apiEnter(const char *name) {
    World &w = *g;
    if (!w.cur) { fprintf(stderr, "API %s outside a process\n", name); abort(); }
    w.apiCount++;
    static FILE *tr = getenv("SIM_TRACE") ? fopen((std::string(getenv("SIM_TRACE")) + std::to_string(getpid())).c_str(), "w") : nullptr;
    if (tr) { fprintf(tr, "%d %zu %llu %s %d\n", (int)(g->serial), pbt::g_ctx->pos(), (unsigned long long)w.now, name, w.cur->proc->pid); fflush(tr); }
    if (w.apiCount - w.apiAtAdvance > 400000) simFail("busy loop: %s makes system calls without ever waiting (last: %s)", w.cur->proc->name.c_str(), name);
    if (w.onApi && !w.inHook && w.cur->fc) { w.inHook = true; w.onApi(name); w.inHook = false; }
    while (w.cur->proc->suspended && fiberCurrent() && !w.inHook) fiberYieldToMain();
    if (w.pol.yieldPct && !strstr(name, "Get") && !strstr(name, "Load") && w.cur->fc && !w.inHook && fiberCurrent() && pbt::g_ctx->chance(w.pol.yieldPct)) { w.cur->what = name; fiberYieldToMain(); }
}
bool faultHit(const char *name) {
    World &w = *g;
    int k = ++w.apiCalls[w.cur->proc->name + ":" + name];
    w.fallible++;
    if (w.countFallible && w.fallibleLog.size() < 100000) w.fallibleLog.push_back(w.cur->proc->name + ":" + name);
    for (auto &f : w.faults) {
        if (f.pid && f.pid != w.cur->proc->pid) continue;
        if (f.api.empty()) continue;
        if ((f.api == name || f.api == w.cur->proc->name + ":" + name) && f.nth == k) {
            w.faultsHit.push_back(w.cur->proc->name + ":" + name); setErr(f.err); return true;
        }
    }
    return false;
}

// ---------------------------------------------------------------- scheduler
void World::pump() { for (size_t i = 0; i < allPipes.size(); ++i) pumpPipe(*allPipes[i]); }

Thread *World::startThread(Process *p, std::function<void()> fn) {
    threads.emplace_back(new Thread);
    Thread *t = threads.back().get(); World *w0 = this;
    t->proc = p; t->tid = nextTid++; p->threads.push_back(t);
    t->fc = fiberCreate([t, fn, p, w0] {
        try { fn(); }
        catch (...) { if (!(p->isAgent && w0->crashIsDeath)) { try { throw; } catch (const std::exception &e) { simFail("C++ exception escaped in %s: %s", p->name.c_str(), e.what()); } catch (...) { simFail("C++ exception escaped in %s", p->name.c_str()); } } w0->agentCrashed = true; w0->timers.insert({w0->now, [w0, p] { w0->killProcess(p, 3, true); }}); p->suspended = true; }
        t->dead = true;
    });
    return t;
}

bool World::run(const std::function<bool()> &pred, uint64_t maxMs) {
    uint64_t limit = maxMs == ~0ull ? ~0ull : now + maxMs;
    int idle = 0;
    for (;;) {
        pump();
        while (!timers.empty() && timers.begin()->first <= now) { auto f = timers.begin()->second; timers.erase(timers.begin()); f(); pump(); }
        if (pred && pred()) return true;
        // ready threads
        std::vector<Thread *> ready;
        for (auto &tp : threads) {
            Thread *t = tp.get();
            if (t->dead || t->proc->exited || t->proc->suspended || !t->fc || t == cur) continue;
            if (t->waiting) {
                if (t->cond && t->cond()) { t->timedOut = false; ready.push_back(t); }
                else if (t->deadline <= now) { t->timedOut = true; ready.push_back(t); }
            } else ready.push_back(t);
        }
        if (!ready.empty()) {
            if (++idle > 2000000) simFail("scheduler livelock");
            Thread *t = ready[0];
            if (ready.size() > 1) { if (pol.yieldPct) t = ready[pbt::g_ctx->choose(ready.size())]; else t = ready[rr++ % ready.size()]; }
            t->waiting = false;
            Thread *save = cur; cur = t;
            if (fiberCurrent()) { fprintf(stderr, "nested scheduler inside a fiber\n"); abort(); }
            fiberSwitchTo(t->fc);
            cur = save;
            if (fiberDone(t->fc)) { t->dead = true; }
            continue;
        }
        uint64_t next = ~0ull;
        for (auto &tp : threads) { Thread *t = tp.get(); if (!t->dead && !t->proc->exited && !t->proc->suspended && t->waiting && t != cur) next = std::min(next, t->deadline); }
        if (!timers.empty()) next = std::min(next, timers.begin()->first);
        for (auto &p : allPipes) for (auto *d : {&p->toServer, &p->toClient}) for (auto *l : {&d->reads, &d->writes}) for (auto &op : *l) { if (op->notBefore > now) next = std::min(next, op->notBefore); if (op->cancelRequested && op->cancelAt > now) next = std::min(next, op->cancelAt); }
        for (auto &p : allPipes) if (p->connectOp) { if (p->connectOp->notBefore > now) next = std::min(next, p->connectOp->notBefore); if (p->connectOp->cancelRequested && p->connectOp->cancelAt > now) next = std::min(next, p->connectOp->cancelAt); }
        if (next > limit || next == ~0ull) {
            if (limit == ~0ull) return false;
            if (now < limit) { now = limit; apiAtAdvance = apiCount; }
            pump();
            return pred ? pred() : true;
        }
        now = next; apiAtAdvance = apiCount; idle = 0;
    }
}
void World::runFor(uint64_t ms) { run(nullptr, ms); }
bool World::call(std::function<void()> fn, uint64_t maxMs) {
    Thread *t = startThread(client, std::move(fn));
    return run([t] { return t->dead; }, maxMs);
}

void blockUntil(const char *what, std::function<bool()> cond, uint64_t deadline, bool *timedOut) {
    World &w = *g;
    if (deadline != ~0ull && deadline > w.now && w.pol.jitter) deadline += pbt::g_ctx->choose(w.pol.jitter + 1);
    bool to = false;
    if (!fiberCurrent()) {
        if (w.inHook) { fprintf(stderr, "blocking call in hook\n"); abort(); }
        bool ok = w.run(cond, deadline == ~0ull ? 3600 * 1000 : (deadline > w.now ? deadline - w.now : 0));
        if (!ok && deadline == ~0ull) simFail("%s in %s never returns (nothing left that could complete it)", what, w.cur->proc->name.c_str());
        to = !ok;
    } else {
        w.pump();
        if (cond && cond()) to = false;
        else if (deadline <= w.now) to = true;
        else {
            Thread *t = w.cur;
            t->waiting = true; t->cond = cond; t->deadline = deadline; t->what = what; t->timedOut = false;
            fiberYieldToMain();
            t->waiting = false; t->cond = nullptr; to = t->timedOut;
        }
    }
    if (timedOut) *timedOut = to;
}

// ---------------------------------------------------------------- processes and handles
std::shared_ptr<Process> World::newProcess(const std::string &name, Process *parent) {
    auto p = std::make_shared<Process>();
    p->g = this; p->pid = nextPid; nextPid += 4; p->name = name; p->parent = parent;
    p->nextHandle = 0x100 + (procs.size() + 1) * 0x10000;
    if (parent) { p->desktop = parent->desktop; p->winsta = parent->winsta; p->ctrlCIgnored = parent->ctrlCIgnored; }
    procs.push_back(p);
    return p;
}
uint64_t World::addHandle(Process *p, ObjP o, const char *origin, bool inherit, bool overlapped, uint32_t access) {
    uint64_t h = p->nextHandle; p->nextHandle += 4;
    HandleEnt e; e.obj = o; e.inherit = inherit; e.overlapped = overlapped; e.access = access; e.origin = origin;
    o->handles++;
    p->table[h] = e;
    p->maxHandles = std::max(p->maxHandles, p->table.size());
    return h;
}
bool World::closeHandle(Process *p, uint64_t h) {
    auto it = p->table.find(h);
    if (it == p->table.end()) return false;
    ObjP o = it->second.obj;
    p->table.erase(it);
    o->handles--;
    o->handleClosed(p, o->handles == 0);
    return true;
}
ObjP World::getObj(Process *p, uint64_t h) {
    auto it = p->table.find(h);
    if (it == p->table.end()) {
        if (h == ~0ull) { for (auto &q : procs) if (q.get() == p) return q; }
        problem("%s used invalid handle 0x%llx", p->name.c_str(), (unsigned long long)h);
        setErr(6); return nullptr;
    }
    return it->second.obj;
}
void World::killProcess(Process *p, int code, bool killed) {
    if (p->exited) return;
    p->exited = true; p->exitCode = code; p->killed = killed; p->exitTime = now;
    // pending I/O of the process disappears without touching its memory
    for (auto &inst : allPipes) {
        for (auto *d : {&inst->toServer, &inst->toClient}) for (auto *l : {&d->reads, &d->writes})
            for (auto it = l->begin(); it != l->end();) { if ((*it)->proc == p) { (*it)->finished = true; it = l->erase(it); } else ++it; }
        if (inst->connectOp && inst->connectOp->proc == p) inst->connectOp = nullptr;
    }
    while (!p->table.empty()) closeHandle(p, p->table.begin()->first);
    detach(p);
    p->desktop = nullptr; p->winsta = nullptr;
    pump();
}
void World::attach(Process *p, Console *c) { p->con = c; c->procs.push_back(p); }
void World::detach(Process *p) {
    if (!p->con) return;
    auto &v = p->con->procs; v.erase(std::remove(v.begin(), v.end(), p), v.end());
    p->con = nullptr;
}
std::vector<Process *> World::agents() { std::vector<Process *> r; for (auto &p : procs) if (p->isAgent) r.push_back(p.get()); return r; }
Process *World::agent(int n) { auto v = agents(); return n < (int)v.size() ? v[n] : nullptr; }

int runAgentEntry(Process *p) {
    int rc = g->agentBody ? g->agentBody(p) : agentMainPtr();
    g->killProcess(p, rc, false);
    return rc;
}

int (*dbgsrvMainPtr)(int, char **);
Process *startDebugServer(const std::vector<std::string> &args) {
    auto p = g->newProcess("winpty-debugserver.exe", g->client); Process *q = p.get(); (void)g->stdio[q];
    g->startThread(q, [q, args] { std::vector<std::string> keep = args; std::vector<char *> v; for (auto &s : keep) v.push_back(&s[0]); v.push_back(nullptr); int rc = dbgsrvMainPtr((int)args.size(), v.data()); g->killProcess(q, rc, false); });
    return q;
}
void (*restoreStatics)(); bool keepStatics;
World &reset(const Config &cfg) {
    oom = Oom();
    if (g) {
        for (auto &t : g->threads) if (t->fc) fiberDestroy(t->fc);
        for (auto &p : g->procs) p->table.clear();
        for (auto &p : g->allPipes) { p->srv = p->cli = nullptr; }
        delete g;
    }
    if (restoreStatics && !keepStatics) restoreStatics();
    static int serial; g = new World; g->serial = ++serial;
    World &w = *g;
    w.cfg = cfg; w.rng = cfg.seed * 0x9E3779B97F4A7C15ull + 12345; if (!w.rng) w.rng = 1;
    auto ws = std::make_shared<WinSta>(); ws->name = u"WinSta0"; w.winstas.push_back(ws);
    auto dk = std::make_shared<Desktop>(); dk->name = u"Default"; dk->ws = ws; w.desktops.push_back(dk);
    auto c = w.newProcess("client", nullptr);
    c->desktop = dk; c->winsta = ws; c->ctrlCIgnored = cfg.clientCtrlCIgnored;
    c->hWinsta = w.addHandle(c.get(), ws, "initial winsta");
    c->hDesktop = w.addHandle(c.get(), dk, "initial desktop");
    w.client = c.get();
    w.threads.emplace_back(new Thread);
    w.mainThread = w.threads.back().get(); w.mainThread->proc = w.client; w.mainThread->tid = w.nextTid++;
    w.cur = w.mainThread;
    return w;
}

// ---------------------------------------------------------------- pipes
static void finishOp(const IoP &op, uint32_t err) {
    if (op->finished) return;
    op->finished = true; op->err = err;
    if (op->proc->exited) return;
    if (op->ov) {
        auto *ov = (OVERLAPPED *)op->ov;
        ov->Internal = err; ov->InternalHigh = op->done;
    }
    if (op->ev) op->ev->set = true;
}
static void pumpDir(PipeInst &p, PipeDir &d, bool writerIsServer) {
    bool writerClosed = writerIsServer ? p.serverClosed : p.clientClosed;
    bool readerClosed = writerIsServer ? p.clientClosed : p.serverClosed;
    World &w = *g;
    bool connected = p.everConnected;
    for (bool progress = true; progress;) {
        progress = false;
        // writes into the queue
        while (connected && !readerClosed && !d.writes.empty()) {
            IoP op = d.writes.front();
            if (op->notBefore > w.now) break;
            size_t room = d.quota > d.avail() ? d.quota - d.avail() : 0;
            if (!d.reads.empty() && d.avail() == 0) { size_t want = d.reads.front()->len; room = std::max(room, want); }
            size_t n = std::min(op->len - op->done, room);
            if (n) {
                if (!op->proc->exited) { d.data.append(op->buf + op->done, n); if (d.tap) d.tap->append(op->buf + op->done, n); }
                op->done += n; progress = true;
            }
            if (op->done == op->len) { d.writes.pop_front(); finishOp(op, 0); progress = true; } else break;
        }
        if (connected && !readerClosed && d.ext.size() > d.extOff) {
            size_t room = d.quota > d.avail() ? d.quota - d.avail() : 0;
            if (!d.reads.empty() && d.avail() == 0) room = std::max(room, d.reads.front()->len);
            size_t n = std::min(d.ext.size() - d.extOff, room);
            if (n) { d.data.append(d.ext, d.extOff, n); if (d.tap) d.tap->append(d.ext, d.extOff, n); d.extOff += n; progress = true; }
            if (d.extOff == d.ext.size()) { d.ext.clear(); d.extOff = 0; }
        }
        // reads out of it
        while (!d.reads.empty() && d.avail()) {
            IoP op = d.reads.front();
            if (op->notBefore > w.now) break;
            size_t n = std::min(op->len, d.avail());
            if (n > 1 && w.pol.chunkPct && pbt::g_ctx->chance(w.pol.chunkPct)) n = 1 + pbt::g_ctx->choose(n);
            memcpy(op->buf, d.data.data() + d.off, n);
            d.off += n; d.delivered += n; op->done = n;
            if (d.off > 65536 && d.off * 2 > d.data.size()) { d.data.erase(0, d.off); d.off = 0; }
            if (d.off == d.data.size()) { d.data.clear(); d.off = 0; }
            d.reads.pop_front(); finishOp(op, 0); progress = true;
        }
        if (writerClosed && !d.avail() && d.writes.empty() && d.extOff == d.ext.size())
            while (!d.reads.empty()) { IoP op = d.reads.front(); d.reads.pop_front(); finishOp(op, ERROR_BROKEN_PIPE); progress = true; }
        if (readerClosed) {
            while (!d.writes.empty()) { IoP op = d.writes.front(); d.writes.pop_front(); finishOp(op, ERROR_BROKEN_PIPE); progress = true; }
            d.ext.clear(); d.extOff = 0;
        }
    }
}
void pumpPipe(PipeInst &p) {
    // cancelled operations whose abort was delayed
    for (auto *d : {&p.toServer, &p.toClient}) for (auto *l : {&d->reads, &d->writes})
        for (auto it = l->begin(); it != l->end();) {
            if ((*it)->cancelRequested && (*it)->cancelAt <= g->now) { IoP op = *it; it = l->erase(it); finishOp(op, ERROR_OPERATION_ABORTED); } else ++it;
        }
    if (p.connectOp) {
        if (p.connectOp->cancelRequested && p.connectOp->cancelAt <= g->now) { IoP op = p.connectOp; p.connectOp = nullptr; finishOp(op, ERROR_OPERATION_ABORTED); }
        else if (p.everConnected && p.connectOp->notBefore <= g->now) { IoP op = p.connectOp; p.connectOp = nullptr; finishOp(op, 0); }
    }
    pumpDir(p, p.toServer, false);
    pumpDir(p, p.toClient, true);
}
void closePipeEnd(PipeEnd *e) {
    if (e->closed) return;
    e->closed = true;
    PipeInst &p = *e->inst;
    if (e->detached) return;
    int inflight = 0;
    auto kill = [&](std::list<IoP> &l) { for (auto it = l.begin(); it != l.end();) { if ((*it)->end == e) { IoP op = *it; it = l.erase(it); inflight++; finishOp(op, ERROR_OPERATION_ABORTED); } else ++it; } };
    for (auto *d : {&p.toServer, &p.toClient}) { kill(d->reads); kill(d->writes); }
    if (e->server && p.connectOp) { IoP op = p.connectOp; p.connectOp = nullptr; inflight++; finishOp(op, ERROR_OPERATION_ABORTED); }
    if (inflight) { g->closedWithIo++; g->problem("%s closed pipe %s with %d I/O operation(s) in flight", e->owner ? e->owner->name.c_str() : "?", u8(p.rec.name).c_str(), inflight); }
    if (e->server) {
        p.serverClosed = true; p.srv = nullptr;
        auto it = g->pipes.find(lower(p.rec.name));
        if (it != g->pipes.end() && it->second.get() == &p) g->pipes.erase(it);
    } else { p.clientClosed = true; p.cli = nullptr; }
    pumpPipe(p);
}
void PipeEnd::handleClosed(Process *, bool last) { if (last) closePipeEnd(this); }

static uint32_t connectClient(const U16 &name, uint32_t access, int pid, bool commit, std::shared_ptr<PipeInst> &out) {
    auto it = g->pipes.find(lower(name));
    if (it == g->pipes.end()) return ERROR_FILE_NOT_FOUND;
    auto p = it->second;
    if (p->message ? p->mstate >= 2 : p->everConnected) return ERROR_PIPE_BUSY;
    uint32_t dir = p->rec.openMode & 3;   // 1 inbound (client writes), 2 outbound (client reads), 3 duplex
    if ((access & GENERIC_READ) && !(dir & 2)) return ERROR_ACCESS_DENIED;
    if ((access & GENERIC_WRITE) && !(dir & 1)) return ERROR_ACCESS_DENIED;
    out = p;
    return 0;
}
static void doConnect(std::shared_ptr<PipeInst> p, std::shared_ptr<PipeEnd> e, uint32_t access, uint32_t flags, int pid) {
    p->everConnected = true; if (p->message) { p->mstate = 2; p->clientClosed = false; } p->cli = e.get(); p->clientPid = pid; p->clientAccess = access; p->clientFlags = flags;
    if (p->connectOp && g->pol.pendPct && g->pol.maxDelay && pbt::g_ctx->chance(g->pol.pendPct)) p->connectOp->notBefore = g->now + pbt::g_ctx->choose(g->pol.maxDelay + 1);
    pumpPipe(*p);
}
bool Ext::open(const U16 &name, bool rd, bool wr, int pid) {
    uint32_t access = (rd ? GENERIC_READ : 0) | (wr ? GENERIC_WRITE : 0);
    err = connectClient(name, access, pid, true, inst);
    if (err) return false;
    end = std::make_shared<PipeEnd>(); end->inst = inst; end->server = false; end->handles = 1;
    doConnect(inst, end, access, 0, pid);
    return true;
}
void Ext::write(const std::string &s) { if (!ok()) return; PipeDir &d = inst->toServer; d.ext += s; pumpPipe(*inst); }
std::string Ext::read(size_t max) {
    std::string r;
    PipeDir &d = inst->toClient;
    while (max) {
        pumpPipe(*inst);
        if (!d.avail()) break;
        size_t n = std::min(max, d.avail());
        r.append(d.data, d.off, n); d.off += n; d.delivered += n; max -= n;
        if (d.off == d.data.size()) { d.data.clear(); d.off = 0; }
    }
    pumpPipe(*inst);
    return r;
}
bool Ext::peerClosed() { return inst->serverClosed; }
bool Ext::eof() { return inst->serverClosed && !inst->toClient.avail(); }
void Ext::close() { if (end) closePipeEnd(end.get()); }
size_t Ext::unread() const { return inst->toClient.avail(); }
size_t Ext::unsent() const { return inst->toServer.ext.size() - inst->toServer.extOff + inst->toServer.avail(); }

static std::map<void *, IoP> &ops() { return g->ioOps; }

} // namespace sim
using namespace sim;
#define NOAPI(n) namespace { struct n##_unused; }

extern "C" {

DWORD WINAPI GetLastError(void) { return sim::g->cur->lastError; }
void WINAPI SetLastError(DWORD e) { setErr(e); }
HANDLE WINAPI GetCurrentProcess(void) { return (HANDLE)(intptr_t)-1; }
HANDLE WINAPI GetCurrentThread(void) { return (HANDLE)(intptr_t)-2; }
DWORD WINAPI GetCurrentProcessId(void) { return sim::g->cur->proc->pid; }
DWORD WINAPI GetCurrentThreadId(void) { return sim::g->cur->tid; }
DWORD WINAPI GetTickCount(void) { API("GetTickCount"); return (DWORD)(g.cfg.startTick + g.now); }
void WINAPI GetSystemTimeAsFileTime(LPFILETIME ft) {
    API("GetSystemTimeAsFileTime");
    uint64_t t = 131000000000000000ull + g.now * 10000; ft->dwLowDateTime = (DWORD)t; ft->dwHighDateTime = (DWORD)(t >> 32);
}
void WINAPI Sleep(DWORD ms) { API("Sleep"); blockUntil("Sleep", [] { return false; }, ms == INFINITE ? ~0ull : g.now + ms, nullptr); }

HANDLE WINAPI CreateEventW(LPSECURITY_ATTRIBUTES sa, WINBOOL manual, WINBOOL initial, LPCWSTR) {
    API_F("CreateEventW", NULL);
    auto e = std::make_shared<Event>(); e->manual = manual; e->set = initial;
    return vh(g.addHandle(me, e, "CreateEvent", sa && sa->bInheritHandle));
}
WINBOOL WINAPI SetEvent(HANDLE h) { API("SetEvent"); auto e = objOf<Event>(h); if (!e) return FALSE; e->set = true; return TRUE; }
WINBOOL WINAPI ResetEvent(HANDLE h) { API("ResetEvent"); auto e = objOf<Event>(h); if (!e) return FALSE; e->set = false; return TRUE; }
WINBOOL WINAPI CloseHandle(HANDLE h) {
    API("CloseHandle");
    if (!g.closeHandle(me, hv(h))) {
        if (hv(h) == ~0ull || hv(h) == ~1ull) return TRUE;   // pseudo handles
        g.problem("%s: CloseHandle on invalid handle 0x%llx", me->name.c_str(), (unsigned long long)hv(h)); setErr(6); return FALSE;
    }
    return TRUE;
}
WINBOOL WINAPI DuplicateHandle(HANDLE sp, HANDLE h, HANDLE tp, LPHANDLE out, DWORD access, WINBOOL inherit, DWORD opts) {
    API_F("DuplicateHandle", FALSE);
    auto s = std::dynamic_pointer_cast<Process>(g.getObj(me, hv(sp)));
    auto t = std::dynamic_pointer_cast<Process>(g.getObj(me, hv(tp)));
    if (!s || !t) { setErr(6); return FALSE; }
    if (s->exited) { setErr(ERROR_ACCESS_DENIED); return FALSE; }
    auto it = s->table.find(hv(h));
    if (it == s->table.end()) {
        if (hv(h) == ~0ull) { *out = vh(g.addHandle(t.get(), s, "DuplicateHandle", inherit)); return TRUE; }
        g.problem("%s: DuplicateHandle of invalid source handle 0x%llx", me->name.c_str(), (unsigned long long)hv(h));
        setErr(6); return FALSE;
    }
    HandleEnt e = it->second;
    uint64_t nh = 0;
    if (out) { nh = g.addHandle(t.get(), e.obj, "DuplicateHandle", inherit, e.overlapped, (opts & DUPLICATE_SAME_ACCESS) ? e.access : access); *out = vh(nh); }
    if (opts & DUPLICATE_CLOSE_SOURCE) g.closeHandle(s.get(), hv(h));
    return TRUE;
}
static bool handleSignaled(Process *p, uint64_t h) {
    auto it = p->table.find(h);
    if (it == p->table.end()) return false;
    return it->second.obj->signaled();
}
static void consume(Process *p, uint64_t h) {
    auto it = p->table.find(h);
    if (it == p->table.end()) return;
    if (auto *e = dynamic_cast<Event *>(it->second.obj.get())) if (!e->manual) e->set = false;
}
DWORD WINAPI WaitForMultipleObjects(DWORD n, const HANDLE *hs, WINBOOL all, DWORD ms) {
    API_F("WaitForMultipleObjects", WAIT_FAILED);
    if (n == 0 || n > MAXIMUM_WAIT_OBJECTS) { setErr(ERROR_INVALID_PARAMETER); g.problem("%s: WaitForMultipleObjects with %u handles", me->name.c_str(), (unsigned)n); return WAIT_FAILED; }
    std::vector<uint64_t> v;
    for (DWORD i = 0; i < n; ++i) { if (!g.getObj(me, hv(hs[i]))) return WAIT_FAILED; v.push_back(hv(hs[i])); }
    int idx = -1;
    auto cond = [&]() -> bool {
        if (all) { for (auto h : v) if (!handleSignaled(me, h)) return false; idx = 0; return true; }
        for (size_t i = 0; i < v.size(); ++i) if (handleSignaled(me, v[i])) { idx = (int)i; return true; }
        return false;
    };
    bool to = false;
    blockUntil("WaitForMultipleObjects", cond, ms == INFINITE ? ~0ull : g.now + ms, &to);
    if (to || !cond()) return WAIT_TIMEOUT;
    if (all) for (auto h : v) consume(me, h); else consume(me, v[idx]);
    return WAIT_OBJECT_0 + idx;
}
DWORD WINAPI WaitForSingleObject(HANDLE h, DWORD ms) {
    API_F("WaitForSingleObject", WAIT_FAILED);
    if (!g.getObj(me, hv(h))) return WAIT_FAILED;
    uint64_t v = hv(h); bool to = false;
    if (ms == 0) { g.pump(); if (!handleSignaled(me, v)) return WAIT_TIMEOUT; consume(me, v); return WAIT_OBJECT_0; }
    blockUntil("WaitForSingleObject", [&] { return handleSignaled(me, v); }, ms == INFINITE ? ~0ull : g.now + ms, &to);
    if (to) return WAIT_TIMEOUT;
    consume(me, v);
    return WAIT_OBJECT_0;
}

// Critical sections: state kept in the structure itself (OwningThread, RecursionCount, LockCount as marker).
void WINAPI InitializeCriticalSection(LPCRITICAL_SECTION cs) { memset(cs, 0, sizeof *cs); cs->LockCount = 0x51515151; }
void WINAPI DeleteCriticalSection(LPCRITICAL_SECTION cs) {
    if (cs->LockCount != 0x51515151) sim::g->problem("DeleteCriticalSection on an invalid section");
    if (cs->OwningThread) sim::g->problem("DeleteCriticalSection on a held section");
    cs->LockCount = 0;
}
void WINAPI EnterCriticalSection(LPCRITICAL_SECTION cs) {
    API("EnterCriticalSection");
    if (cs->LockCount != 0x51515151) g.problem("EnterCriticalSection on an invalid section");
    HANDLE self = vh(g.cur->tid);
    if (cs->OwningThread && cs->OwningThread != self) blockUntil("EnterCriticalSection", [cs] { return cs->OwningThread == nullptr; }, ~0ull, nullptr);
    cs->OwningThread = self; cs->RecursionCount++;
}
void WINAPI LeaveCriticalSection(LPCRITICAL_SECTION cs) {
    API("LeaveCriticalSection");
    if (cs->OwningThread != vh(g.cur->tid)) { g.problem("LeaveCriticalSection by a thread that does not own it"); return; }
    if (--cs->RecursionCount == 0) cs->OwningThread = nullptr;
}

// ---- pipes
HANDLE WINAPI CreateNamedPipeW(LPCWSTR name, DWORD openMode, DWORD pipeMode, DWORD maxInst, DWORD outQ, DWORD inQ, DWORD timeout, LPSECURITY_ATTRIBUTES sa) {
    API_F("CreateNamedPipeW", INVALID_HANDLE_VALUE);
    U16 n = toU16(name);
    PipeRec r; r.name = n; r.openMode = openMode; r.pipeMode = pipeMode; r.maxInst = maxInst; r.outQ = outQ; r.inQ = inQ; r.timeout = timeout; r.ownerPid = me->pid;
    if (sa) { r.inheritHandle = sa->bInheritHandle; if (sa->lpSecurityDescriptor) { r.hasSd = true; parseSd(sa->lpSecurityDescriptor, r); } }
    g.pipeRecs.push_back(r);
    if (lower(n).compare(0, 9, u"\\\\.\\pipe\\") != 0 || n.size() > 256) { setErr(ERROR_INVALID_NAME); return INVALID_HANDLE_VALUE; }
    if (!(openMode & 3) || maxInst == 0) { setErr(ERROR_INVALID_PARAMETER); return INVALID_HANDLE_VALUE; }
    if ((pipeMode & 8) && g.cfg.os == OS_XP) { setErr(ERROR_INVALID_PARAMETER); return INVALID_HANDLE_VALUE; }
    if (g.onCreatePipe && g.onCreatePipe(n)) { if (openMode & FILE_FLAG_FIRST_PIPE_INSTANCE) { setErr(ERROR_ACCESS_DENIED); return INVALID_HANDLE_VALUE; } ++g.squatted; }
    if (g.pipes.count(lower(n))) { setErr((openMode & FILE_FLAG_FIRST_PIPE_INSTANCE) ? ERROR_ACCESS_DENIED : ERROR_PIPE_BUSY); return INVALID_HANDLE_VALUE; }
    auto p = std::make_shared<PipeInst>(); p->rec = r;
    auto quota = [&](size_t q) -> size_t { return g.pol.quotaMode == 1 ? (1u << 24) : g.pol.quotaMode == 2 ? 1 + g.rnd() % 16 : q; };
    p->toClient.quota = quota(outQ); p->toServer.quota = quota(inQ);
    auto e = std::make_shared<PipeEnd>(); e->inst = p; e->server = true; e->owner = me; e->overlapped = (openMode & FILE_FLAG_OVERLAPPED) != 0;
    p->srv = e.get(); p->message = (pipeMode & PIPE_TYPE_MESSAGE) != 0; e->msgRead = (pipeMode & PIPE_READMODE_MESSAGE) != 0;
    if (g.tapPipes) { p->toClient.tap = std::make_shared<std::string>(); p->toServer.tap = std::make_shared<std::string>(); }
    g.pipes[lower(n)] = p; g.allPipes.push_back(p);
    return vh(g.addHandle(me, e, "CreateNamedPipe", sa && sa->bInheritHandle, e->overlapped));
}
WINBOOL WINAPI ConnectNamedPipe(HANDLE h, LPOVERLAPPED ov) {
    API_F("ConnectNamedPipe", FALSE);
    auto e = objOf<PipeEnd>(h); if (!e) return FALSE;
    PipeInst &p = *e->inst;
    if (!e->server) { setErr(ERROR_INVALID_FUNCTION); return FALSE; }
    if (p.everConnected) { setErr(p.clientClosed ? ERROR_NO_DATA : ERROR_PIPE_CONNECTED); return FALSE; }
    if (p.message) p.mstate = 1;
    auto op = std::make_shared<IoOp>(); op->kind = IoOp::Connect; op->proc = me; op->thread = g.cur; op->ov = ov; op->end = e.get();
    if (ov) { ov->Internal = 0x103; ov->InternalHigh = 0; if (ov->hEvent) { op->ev = objOf<Event>(ov->hEvent); if (op->ev) op->ev->set = false; } ops()[ov] = op; }
    p.connectOp = op;
    if (!ov || !e->overlapped) { blockUntil("ConnectNamedPipe", [op] { return op->finished; }, ~0ull, nullptr); return TRUE; }
    setErr(ERROR_IO_PENDING);
    return FALSE;
}
// Message pipes, synchronous only.
static WINBOOL msgWrite(PipeInst &p, PipeEnd *e, const void *buf, DWORD len, LPDWORD actual) {
    if (e->detached) { setErr(ERROR_PIPE_NOT_CONNECTED); return FALSE; }
    if (e->server ? p.clientClosed : p.serverClosed) { setErr(ERROR_NO_DATA); return FALSE; }
    p.mq[e->server].emplace_back((const char *)buf, len); if (actual) *actual = len;
    if (!e->server) { p.accepted.emplace_back((const char *)buf, len); p.acceptedPid.push_back(g->cur->proc->pid); }
    return TRUE;
}
static WINBOOL msgRead(std::shared_ptr<PipeInst> pi, std::shared_ptr<PipeEnd> e, void *buf, DWORD len, LPDWORD actual) {
    PipeInst &p = *pi; auto &q = p.mq[!e->server];
    blockUntil("ReadFile", [pi, e, &q] { return !q.empty() || e->detached || (e->server ? pi->clientClosed : pi->serverClosed); }, ~0ull, nullptr);
    if (e->detached) { setErr(ERROR_PIPE_NOT_CONNECTED); return FALSE; }
    if (q.empty()) { setErr(ERROR_BROKEN_PIPE); return FALSE; }
    std::string &m = q.front(); size_t n = std::min<size_t>(len, m.size()); memcpy(buf, m.data(), n); if (actual) *actual = (DWORD)n;
    if (e->server) ++p.reads;
    if (n == m.size()) { q.pop_front(); return TRUE; }
    m.erase(0, n); if (!e->msgRead) return TRUE;
    setErr(ERROR_MORE_DATA); return FALSE;
}
static WINBOOL doIo(bool isRead, HANDLE h, void *buf, DWORD len, LPDWORD actual, LPOVERLAPPED ov) {
    World &g = *sim::g; Process *me = g.cur->proc;
    if (actual) *actual = 0;
    auto e = objOf<PipeEnd>(h); if (!e) return FALSE;
    PipeInst &p = *e->inst;
    if (e->overlapped && !ov) { g.problem("%s: overlapped handle used without OVERLAPPED", me->name.c_str()); setErr(ERROR_INVALID_PARAMETER); return FALSE; }
    if (p.message) { if (ov) g.problem("%s: overlapped I/O on a message pipe", me->name.c_str()); if (e->server && !p.everConnected) { setErr(ERROR_PIPE_LISTENING); return FALSE; } if (isRead) return msgRead(e->inst, e, buf, len, actual); else return msgWrite(p, e.get(), buf, len, actual); }
    PipeDir &d = isRead ? p.dirFrom(!e->server) : p.dirFrom(e->server);
    if (!p.everConnected && e->server) { setErr(ERROR_PIPE_LISTENING); return FALSE; }
    uint32_t dir = p.rec.openMode & 3;
    if (isRead ? !(dir & (e->server ? 1 : 2)) : !(dir & (e->server ? 2 : 1))) { setErr(ERROR_ACCESS_DENIED); return FALSE; }
    std::shared_ptr<Event> ev;
    if (ov) { if (ov->hEvent) { ev = objOf<Event>(ov->hEvent); if (!ev) return FALSE; } ov->Internal = 0x103; ov->InternalHigh = 0; if (ev) ev->set = false;
        auto it = ops().find(ov); if (it != ops().end() && !it->second->finished && !it->second->proc->exited) g.problem("%s: OVERLAPPED reused while its operation is pending", me->name.c_str()); }
    bool peerClosed = e->server ? p.clientClosed : p.serverClosed;
    if (isRead) { if (peerClosed && !d.avail() && d.writes.empty() && d.extOff == d.ext.size()) { setErr(ERROR_BROKEN_PIPE); return FALSE; } }
    else if (peerClosed) { setErr(ERROR_NO_DATA); return FALSE; }
    auto op = std::make_shared<IoOp>(); op->kind = isRead ? IoOp::Read : IoOp::Write; op->proc = me; op->thread = g.cur; op->ov = ov; op->buf = (char *)buf; op->len = len; op->ev = ev; op->end = e.get();
    bool forcePend = false;
    if (ov && g.pol.pendPct && pbt::g_ctx->chance(g.pol.pendPct)) { forcePend = true; op->notBefore = g.now + (g.pol.maxDelay ? pbt::g_ctx->choose(g.pol.maxDelay + 1) : 0); }
    if (ov) ops()[ov] = op;
    (isRead ? d.reads : d.writes).push_back(op);
    if (len == 0 && !isRead) { }
    g.maxConcurrentIo++;
    if (!forcePend) { pumpPipe(p); }
    if (!ov || !e->overlapped) { blockUntil(isRead ? "ReadFile" : "WriteFile", [op] { return op->finished; }, ~0ull, nullptr); if (op->err) { setErr(op->err); return FALSE; } if (actual) *actual = op->done; return TRUE; }
    if (op->finished && !forcePend) {
        if (op->err) { setErr(op->err); return FALSE; }
        if (actual) *actual = op->done;
        return TRUE;
    }
    setErr(ERROR_IO_PENDING);
    return FALSE;
}
WINBOOL WINAPI ReadFile(HANDLE h, LPVOID buf, DWORD len, LPDWORD actual, LPOVERLAPPED ov) { API_F("ReadFile", FALSE); return doIo(true, h, buf, len, actual, ov); }
WINBOOL WINAPI WriteFile(HANDLE h, LPCVOID buf, DWORD len, LPDWORD actual, LPOVERLAPPED ov) { API_F("WriteFile", FALSE); return doIo(false, h, const_cast<void *>(buf), len, actual, ov); }
WINBOOL WINAPI GetOverlappedResult(HANDLE h, LPOVERLAPPED ov, LPDWORD actual, WINBOOL wait) {
    API("GetOverlappedResult");
    auto it = ops().find(ov);
    if (faultHit("GetOverlappedResult")) {       // the operation itself fails
        uint32_t e = g.cur->lastError;
        if (it != ops().end() && !it->second->finished && it->second->end) {
            IoP op = it->second; PipeInst &p = *op->end->inst;
            for (auto *d : {&p.toServer, &p.toClient}) { d->reads.remove(op); d->writes.remove(op); }
            if (p.connectOp == op) p.connectOp = nullptr;
            finishOp(op, e);
        }
        setErr(e); return FALSE;
    }
    if (it == ops().end()) { g.problem("%s: GetOverlappedResult on an OVERLAPPED that was never used", me->name.c_str()); setErr(ERROR_INVALID_PARAMETER); return FALSE; }
    IoP op = it->second;
    g.pump();
    if (!op->finished) {
        if (!wait) { setErr(ERROR_IO_INCOMPLETE); return FALSE; }
        auto ev = op->ev;
        blockUntil("GetOverlappedResult", [op, ev] { return ev ? ev->set : op->finished; }, ~0ull, nullptr);
        if (!op->finished) { setErr(ERROR_IO_INCOMPLETE); return FALSE; }
    }
    if (actual) *actual = op->done;
    if (op->err) { setErr(op->err); return FALSE; }
    return TRUE;
}
WINBOOL WINAPI CancelIo(HANDLE h) {
    API("CancelIo");
    auto e = objOf<PipeEnd>(h); if (!e) return FALSE;
    PipeInst &p = *e->inst;
    auto doCancel = [&](IoP op) {
        if (op->end != e.get() || op->thread != g.cur || op->cancelRequested) return;
        if (g.pol.cancelRacePct && pbt::g_ctx->chance(g.pol.cancelRacePct)) { op->cancelRequested = true; op->cancelAt = g.now + 1 + pbt::g_ctx->choose(20); }
        else { op->cancelRequested = true; op->cancelAt = 0; }
    };
    for (auto *d : {&p.toServer, &p.toClient}) for (auto *l : {&d->reads, &d->writes}) for (auto &op : *l) doCancel(op);
    if (p.connectOp) doCancel(p.connectOp);
    pumpPipe(p);
    return TRUE;
}
WINBOOL WINAPI SetNamedPipeHandleState(HANDLE h, LPDWORD mode, LPDWORD, LPDWORD) { API("SetNamedPipeHandleState"); auto e = objOf<PipeEnd>(h); if (!e) return FALSE; if (mode) { if ((*mode & PIPE_READMODE_MESSAGE) && !e->inst->message) { setErr(ERROR_INVALID_PARAMETER); return FALSE; } e->msgRead = (*mode & PIPE_READMODE_MESSAGE) != 0; } return TRUE; }
WINBOOL WINAPI TransactNamedPipe(HANDLE h, LPVOID out, DWORD nOut, LPVOID in, DWORD nIn, LPDWORD actual, LPOVERLAPPED) {
    API_F("TransactNamedPipe", FALSE);
    auto e = objOf<PipeEnd>(h); if (!e) return FALSE;
    if (!e->inst->message || !e->msgRead) { setErr(ERROR_BAD_PIPE); return FALSE; }
    if (!msgWrite(*e->inst, e.get(), out, nOut, nullptr)) return FALSE;
    return msgRead(e->inst, e, in, nIn, actual);
}
WINBOOL WINAPI WaitNamedPipeW(LPCWSTR name, DWORD timeout) {
    API_F("WaitNamedPipeW", FALSE);
    U16 n = lower(toU16(name)); World *w = &g; bool to = false;
    auto ready = [w, n] { auto it = w->pipes.find(n); return it == w->pipes.end() || (it->second->message ? it->second->mstate == 1 : !it->second->everConnected); };
    blockUntil("WaitNamedPipe", ready, timeout == NMPWAIT_WAIT_FOREVER ? ~0ull : g.now + (timeout == NMPWAIT_USE_DEFAULT_WAIT ? 50 : timeout), &to);
    if (to) { setErr(ERROR_SEM_TIMEOUT); return FALSE; }
    if (!g.pipes.count(n)) { setErr(ERROR_FILE_NOT_FOUND); return FALSE; }
    return TRUE;
}
WINBOOL WINAPI DisconnectNamedPipe(HANDLE h) {
    API_F("DisconnectNamedPipe", FALSE);
    auto e = objOf<PipeEnd>(h); if (!e) return FALSE;
    PipeInst &p = *e->inst; if (!e->server || !p.message) { g.problem("%s: DisconnectNamedPipe is not simulated here", me->name.c_str()); setErr(ERROR_INVALID_FUNCTION); return FALSE; }
    if (p.cli) p.cli->detached = true;
    p.cli = nullptr; p.clientClosed = false; p.everConnected = false; p.mstate = 3; p.mq[0].clear(); p.mq[1].clear(); g.pump();
    return TRUE;
}
HANDLE WINAPI CreateFileW(LPCWSTR name, DWORD access, DWORD share, LPSECURITY_ATTRIBUTES sa, DWORD disp, DWORD flags, HANDLE) {
    API_F("CreateFileW", INVALID_HANDLE_VALUE);
    U16 n = lower(toU16(name));
    bool inh = sa && sa->bInheritHandle;
    if (n == u"conout$" || n == u"conin$") {
        if (!me->con) { setErr(ERROR_INVALID_HANDLE); return INVALID_HANDLE_VALUE; }
        ObjP o = n == u"conin$" ? ObjP(me->con->in) : ObjP(me->con->active);
        return vh(g.addHandle(me, o, "CreateFile console", inh, false, access));
    }
    if (n.compare(0, 9, u"\\\\.\\pipe\\") == 0) {
        std::shared_ptr<PipeInst> p;
        uint32_t e = connectClient(n, access, me->pid, true, p);
        if (e) { setErr(e); return INVALID_HANDLE_VALUE; }
        auto pe = std::make_shared<PipeEnd>(); pe->inst = p; pe->server = false; pe->owner = me; pe->overlapped = (flags & FILE_FLAG_OVERLAPPED) != 0;
        uint64_t h = g.addHandle(me, pe, "CreateFile pipe", inh, pe->overlapped, access);
        doConnect(p, pe, access, flags, me->pid);
        return vh(h);
    }
    setErr(ERROR_FILE_NOT_FOUND);
    return INVALID_HANDLE_VALUE;
}
WINBOOL WINAPI sim_GetNamedPipeClientProcessId(HANDLE h, PULONG pid) {
    API_F("GetNamedPipeClientProcessId", FALSE);
    auto e = objOf<PipeEnd>(h); if (!e) return FALSE;
    *pid = e->inst->clientPid; return TRUE;
}
} // extern "C"
