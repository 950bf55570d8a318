// Shared by the simulator's implementation files (windows.h types visible).
#pragma once
#include <windows.h>
#undef min
#undef max
#include "sim.h"
namespace sim {
// Entered by every simulated API.  Runs the preemption hook, counts, checks for livelock.
void apiEnter(const char *name);
bool faultHit(const char *name);                       // true: the call must fail; last error is set
void setErr(uint32_t e);
void blockUntil(const char *what, std::function<bool()> cond, uint64_t deadline, bool *timedOut);
inline U16 toU16(const wchar_t *s) { return s ? U16(reinterpret_cast<const char16_t *>(s)) : U16(); }
inline uint64_t hv(HANDLE h) { return (uint64_t)(uintptr_t)h; }
inline HANDLE vh(uint64_t v) { return (HANDLE)(uintptr_t)v; }
template <class T> std::shared_ptr<T> objOf(HANDLE h) {
    ObjP o = g->getObj(g->cur->proc, hv(h));
    auto r = std::dynamic_pointer_cast<T>(o);
    if (o && !r) { g->problem("%s: handle 0x%llx is a %s, not what the call needs", g->cur->proc->name.c_str(), (unsigned long long)hv(h), o->kind()); setErr(6); }
    return r;
}
void *localAlloc(size_t n, const char *what); bool localFree(void *p);
void parseSd(void *sd, PipeRec &rec);
void pumpPipe(PipeInst &p);
void closePipeEnd(PipeEnd *e);
U16 quoteless(const U16 &s);
void killConsole(Console *c);
int runAgentEntry(Process *p);
std::shared_ptr<Buffer> bufOf(HANDLE h);
}
#define API(n) sim::apiEnter(n); sim::World &g = *sim::g; (void)g; sim::Process *me = g.cur->proc; (void)me
#define API_F(n, failret) API(n); if (sim::faultHit(n)) return failret
