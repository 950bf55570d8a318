#include <link.h>
#include <vector>
#include <algorithm>
#include <unistd.h>
// Harness entry: loads the agent image, installs allocation limits and hands over to the engine.
#include "internal.h"
#include "unix.h"
#include "../engine/pbt.h"
#include <dlfcn.h>
#include <exception>
#include <new>
#include <unordered_set>
#include <string.h>
#include <stdlib.h>
extern "C" const char *__asan_default_options() { return "detect_leaks=0:alloc_dealloc_mismatch=0:abort_on_error=0:exitcode=78:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=0:max_allocation_size_mb=700:symbolize=1"; }
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:exitcode=78"; }
static uintptr_t libLo, libHi;
// live blocks of the library, while tracked
static std::unordered_set<void *> *liveSet; static bool liveBusy;
static void drop(void *p) { if (liveSet && !liveBusy && p && sim::oom.track) { liveBusy = true; if (liveSet->erase(p)) --sim::oom.live; liveBusy = false; } free(p); }
static void *newFrom(size_t n, uintptr_t ra) {
    if (sim::oom.counting && ra >= libLo && ra < libHi && sim::g && sim::g->cur && sim::g->cur->proc == sim::g->client) {
        sim::Oom &o = sim::oom; ++o.count;
        if (o.nth && (o.count == o.nth || (o.persist && o.count > o.nth))) { o.hit = true; throw std::bad_alloc(); }
    }
    void *p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    if (sim::oom.track && !liveBusy && ra >= libLo && ra < libHi && sim::g && sim::g->cur && sim::g->cur->proc == sim::g->client) {
        liveBusy = true; if (!liveSet) liveSet = new std::unordered_set<void *>; if (sim::oom.live == 0) liveSet->clear(); liveSet->insert(p); ++sim::oom.live; liveBusy = false;
    }
    return p;
}
void operator delete(void *p) noexcept { drop(p); }
void operator delete(void *p, size_t) noexcept { drop(p); }
void *operator new(size_t n) { return newFrom(n, (uintptr_t)__builtin_return_address(0)); }
void *operator new[](size_t n) { return newFrom(n, (uintptr_t)__builtin_return_address(0)); }
void operator delete[](void *p) noexcept { drop(p); }
void operator delete[](void *p, size_t) noexcept { drop(p); }
static void findLib() {
    FILE *f = fopen("/proc/self/maps", "r"); char l[600];
    while (f && fgets(l, sizeof l, f)) if (strstr(l, "/libwinpty.so")) { uintptr_t a, b; if (sscanf(l, "%lx-%lx", &a, &b) == 2) { if (!libLo) libLo = a; libHi = b; } }
    if (f) fclose(f);
}
// Every case starts from the freshly loaded state of the modules under test: their writable data is put back, so
// that nothing cached in a static variable (system version, debug flags) is carried over from case to case.
struct Seg { volatile uint64_t *at; std::vector<uint64_t> init; };
static std::vector<Seg> segs;
__attribute__((no_sanitize("address", "undefined"))) static int takeSeg(struct dl_phdr_info *i, size_t, void *) {
    std::string n = i->dlpi_name ? i->dlpi_name : ""; size_t q = n.rfind('/'); n = q == std::string::npos ? n : n.substr(q + 1);
    if (n != "libagent.so" && n != "libwinpty.so" && n != "libadapter.so" && n != "libdbgsrv.so") return 0;
    uintptr_t rlo = 0, rhi = 0;
    for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) { rlo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; rhi = (rlo + i->dlpi_phdr[k].p_memsz) & ~(uintptr_t)4095; }
    for (int k = 0; k < i->dlpi_phnum; ++k) {
        auto &h = i->dlpi_phdr[k]; if (h.p_type != PT_LOAD || !(h.p_flags & PF_W)) continue;
        uintptr_t a = i->dlpi_addr + h.p_vaddr, b = a + h.p_memsz; if (rhi > a && rlo <= a) a = std::min(b, rhi);
        a = (a + 7) & ~(uintptr_t)7; if (a >= b) continue;
        Seg s; s.at = (volatile uint64_t *)a; s.init.resize((b - a) / 8); for (size_t j = 0; j < s.init.size(); ++j) s.init[j] = s.at[j];
        segs.push_back(std::move(s));
    }
    return 0;
}
__attribute__((no_sanitize("address", "undefined"))) static void restoreSegs() { for (auto &s : segs) for (size_t j = 0, n = s.init.size(); j < n; ++j) if (s.at[j] != s.init[j]) s.at[j] = s.init[j]; }
int main(int argc, char **argv) {
    char exe[4096]; ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1); exe[n > 0 ? n : 0] = 0;
    std::string dir = exe; dir = dir.substr(0, dir.rfind('/'));
    findLib();
    void *h = dlopen((dir + "/libagent.so").c_str(), RTLD_LAZY | RTLD_LOCAL);
    if (!h) { fprintf(stderr, "%s\n", dlerror()); return 3; }
    sim::agentMainPtr = (int (*)())dlsym(h, "agent_main");
    if (!sim::agentMainPtr) sim::agentMainPtr = (int (*)())dlsym(h, "_Z10agent_mainv");
    if (!sim::agentMainPtr) { fprintf(stderr, "%s\n", dlerror()); return 3; }
    if (access((dir + "/libadapter.so").c_str(), R_OK) == 0) {
        void *a = dlopen((dir + "/libadapter.so").c_str(), RTLD_LAZY | RTLD_LOCAL);
        if (!a) { fprintf(stderr, "%s\n", dlerror()); return 3; }
        sim::adapterMainPtr = (int (*)(int, char **))dlsym(a, "_Z12adapter_mainiPPc");
        if (!sim::adapterMainPtr) sim::adapterMainPtr = (int (*)(int, char **))dlsym(a, "adapter_main");
        if (!sim::adapterMainPtr) { fprintf(stderr, "%s\n", dlerror()); return 3; }
    }
    if (access((dir + "/libdbgsrv.so").c_str(), R_OK) == 0) {
        void *a = dlopen((dir + "/libdbgsrv.so").c_str(), RTLD_LAZY | RTLD_LOCAL);
        if (!a) { fprintf(stderr, "%s\n", dlerror()); return 3; }
        sim::dbgsrvMainPtr = (int (*)(int, char **))dlsym(a, "_Z8dbg_mainiPPc");
        if (!sim::dbgsrvMainPtr) sim::dbgsrvMainPtr = (int (*)(int, char **))dlsym(a, "dbg_main");
        if (!sim::dbgsrvMainPtr) { fprintf(stderr, "%s\n", dlerror()); return 3; }
    }
    dl_iterate_phdr(takeSeg, nullptr); sim::restoreStatics = restoreSegs;
    return pbt::engineMain(argc, argv);
}
