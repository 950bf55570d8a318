#include "fiber.h"
#include <ucontext.h>
#include <sys/mman.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <vector>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define SIM_ASAN 1
#include <sanitizer/common_interface_defs.h>
#include <sanitizer/asan_interface.h>
#endif
#endif
namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals *__cxa_get_globals() noexcept; }

static const size_t kStack = 1024 * 1024;
struct FiberCtx {
    ucontext_t uc;
    char *stack = nullptr;
    std::function<void()> fn;
    bool done = false;
    char eh[16] = {0};
    void *fake = nullptr;
};
static ucontext_t g_mainUc;
static FiberCtx *g_cur;
static char g_mainEh[16];
static void *g_mainFake;
static const void *g_mainBottom; static size_t g_mainSize;
static std::vector<char *> g_freeStacks;

static void finishSwitch(void *fake, const void **b, size_t *s) {
    (void)fake; (void)b; (void)s;
#ifdef SIM_ASAN
    __sanitizer_finish_switch_fiber(fake, b, s);
#endif
}
static void startSwitch(void **fake, const void *b, size_t s) {
    (void)fake; (void)b; (void)s;
#ifdef SIM_ASAN
    __sanitizer_start_switch_fiber(fake, b, s);
#endif
}
static void trampoline() {
    finishSwitch(nullptr, &g_mainBottom, &g_mainSize);
    FiberCtx *f = g_cur;
    f->fn();
    f->done = true;
    startSwitch(nullptr, g_mainBottom, g_mainSize);
    memcpy(f->eh, __cxxabiv1::__cxa_get_globals(), 16);
    memcpy((void*)__cxxabiv1::__cxa_get_globals(), g_mainEh, 16);
    g_cur = nullptr;
    setcontext(&g_mainUc);
    abort();
}
FiberCtx *fiberCreate(std::function<void()> fn) {
    FiberCtx *f = new FiberCtx;
    f->fn = std::move(fn);
    if (!g_freeStacks.empty()) { f->stack = g_freeStacks.back(); g_freeStacks.pop_back(); }
    else f->stack = (char *)mmap(nullptr, kStack, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    getcontext(&f->uc);
    f->uc.uc_stack.ss_sp = f->stack; f->uc.uc_stack.ss_size = kStack; f->uc.uc_link = nullptr;
    makecontext(&f->uc, trampoline, 0);
    return f;
}
void fiberSwitchTo(FiberCtx *f) {
    if (g_cur || f->done) abort();
    g_cur = f;
    memcpy(g_mainEh, __cxxabiv1::__cxa_get_globals(), 16);
    memcpy((void*)__cxxabiv1::__cxa_get_globals(), f->eh, 16);
    startSwitch(&g_mainFake, f->stack, kStack);
    swapcontext(&g_mainUc, &f->uc);
    finishSwitch(g_mainFake, nullptr, nullptr);
}
void fiberYieldToMain() {
    FiberCtx *f = g_cur;
    if (!f) abort();
    memcpy(f->eh, __cxxabiv1::__cxa_get_globals(), 16);
    memcpy((void*)__cxxabiv1::__cxa_get_globals(), g_mainEh, 16);
    g_cur = nullptr;
    startSwitch(&f->fake, g_mainBottom, g_mainSize);
    swapcontext(&f->uc, &g_mainUc);
    finishSwitch(f->fake, &g_mainBottom, &g_mainSize);
}
bool fiberDone(FiberCtx *f) { return f->done; }
void fiberDestroy(FiberCtx *f) {
    if (f == g_cur) abort();
#ifdef SIM_ASAN
    __asan_unpoison_memory_region(f->stack, kStack);
#endif
    g_freeStacks.push_back(f->stack);
    delete f;
}
FiberCtx *fiberCurrent() { return g_cur; }
