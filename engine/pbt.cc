#include "pbt.h"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <map>
#include <set>

namespace pbt {

Ctx *g_ctx = nullptr;

static const size_t kMaxChoices = 1 << 19;
static const size_t kMaxSpans = 1 << 15;
static const size_t kMaxLabels = 256;
static const size_t kMaxHashes = 1 << 16;

struct Label { char name[56]; uint64_t n; };
struct Slot {
    uint64_t caseIndex;
    uint64_t done;              // finished cases in this batch
    uint64_t nontrivial;
    uint32_t nLabels; Label labels[kMaxLabels];
    uint64_t nHashes; uint64_t hashes[kMaxHashes];
    uint32_t nSamples; char samples[3][6000];
    uint32_t nKnown; char known[8][400];
    uint64_t nChoices; uint64_t choices[kMaxChoices];
    uint64_t nSpans; struct { uint32_t a, b; } spans[kMaxSpans];
    uint32_t spanDepth; uint32_t spanStack[256];
    uint32_t failed; char msg[8192];
    char notes[32768];
    uint32_t newCov;            // greybox: this case reached new coverage
};

static Slot *g_slot = nullptr;
static std::vector<Property> &props() { static std::vector<Property> v; return v; }
void registerProperty(const Property &p) { props().push_back(p); }

// ---------------------------------------------------------------- coverage (greybox mode)
struct CovMod { uint8_t *a, *b; };
static CovMod g_cov[16]; static int g_nCov = 0;
static uint8_t *g_covSeen = nullptr;  // shared
static size_t g_covTotal = 0;
extern "C" void __sanitizer_cov_8bit_counters_init(char *a, char *b) {
    for (int i = 0; i < g_nCov; ++i) if ((char *)g_cov[i].a == a) return;
    if (g_nCov < 16 && a < b) { g_cov[g_nCov].a = (uint8_t *)a; g_cov[g_nCov].b = (uint8_t *)b; ++g_nCov; g_covTotal += b - a; }
}
extern "C" void __sanitizer_cov_pcs_init(const uintptr_t *, const uintptr_t *) {}
static uint8_t bucket(uint8_t c) {
    return c == 0 ? 0 : c == 1 ? 1 : c == 2 ? 2 : c == 3 ? 4 : c < 8 ? 8 : c < 16 ? 16 : c < 32 ? 32 : c < 128 ? 64 : 128;
}
static void covReset() { for (int i = 0; i < g_nCov; ++i) memset(g_cov[i].a, 0, g_cov[i].b - g_cov[i].a); }
static bool covMerge() {
    bool isNew = false; size_t off = 0;
    for (int i = 0; i < g_nCov; ++i)
        for (uint8_t *p = g_cov[i].a; p < g_cov[i].b; ++p, ++off)
            if (*p) { uint8_t b = bucket(*p); if (!(g_covSeen[off] & b)) { g_covSeen[off] |= b; isNew = true; } }
    return isNew;
}
static size_t covCount() { size_t n = 0; if (g_covSeen) for (size_t i = 0; i < g_covTotal; ++i) n += g_covSeen[i] != 0; return n; }

// ---------------------------------------------------------------- choices
static uint64_t splitmix(uint64_t &s) {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31);
}
uint64_t Ctx::next() {
    uint64_t s1 = m_rng[0], s0 = m_rng[1]; m_rng[0] = s0; s1 ^= s1 << 23;
    m_rng[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5); return m_rng[1] + s0;
}
uint64_t Ctx::choose(uint64_t n) {
    if (n <= 1) { n = 1; }
    uint64_t v;
    if (m_again) { Slot &s = *g_slot; v = m_again - 1 < s.nChoices ? s.choices[m_again - 1] % n : 0; ++m_again; return v; }
    if (m_replay) {
        if (m_pos < m_replayLen) v = m_replay[m_pos] % n;
        else if (m_mutate) v = next() % n;
        else v = 0;
    } else v = next() % n;
    ++m_pos;
    Slot &s = *g_slot;
    if (s.nChoices < kMaxChoices) s.choices[s.nChoices++] = v; else v = 0;
    m_hash = (m_hash ^ (v + 1)) * 0x100000001b3ull; m_hash ^= m_hash >> 29;
    return v;
}
int Ctx::range(int lo, int hi) { return hi <= lo ? lo : lo + (int)choose((uint64_t)((int64_t)hi - lo) + 1); }
bool Ctx::chance(int pct) { return (int)choose(100) >= 100 - pct; }
bool Ctx::more(int avg) { return choose(avg + 1) != 0; }
int Ctx::weighted(std::initializer_list<int> w) {
    int tot = 0; for (int x : w) tot += x;
    int v = (int)choose(tot), i = 0;
    for (int x : w) { if (v < x) return i; v -= x; ++i; }
    return 0;
}
int Ctx::skewed(int lo, int hi) {
    if (hi <= lo) return lo;
    uint64_t span = (uint64_t)((int64_t)hi - lo);
    int bits = 0; while ((span >> bits) != 0) ++bits;
    int b = (int)choose(bits + 1);
    uint64_t m = b == 0 ? 0 : (1ull << b) - 1;
    uint64_t v = m ? choose(m + 1) : 0;
    return lo + (int)std::min(v, span);
}
void Ctx::begin() {
    if (m_again) return;
    Slot &s = *g_slot;
    if (s.spanDepth < 256) s.spanStack[s.spanDepth] = (uint32_t)s.nChoices;
    ++s.spanDepth;
}
void Ctx::end() {
    if (m_again) return;
    Slot &s = *g_slot;
    if (s.spanDepth == 0) return;
    --s.spanDepth;
    if (s.spanDepth < 256 && s.nSpans < kMaxSpans && s.spanStack[s.spanDepth] < s.nChoices)
        s.spans[s.nSpans++] = { s.spanStack[s.spanDepth], (uint32_t)s.nChoices };
}
void Ctx::note(const char *fmt, ...) {
    if (m_notes.size() > 24000) return;
    char buf[4096]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    m_notes += buf; m_notes += '\n';
    // keep the shared copy current so that crashes have their history
    size_t n = std::min(m_notes.size(), sizeof g_slot->notes - 1);
    size_t add = strlen(buf) + 1;
    if (n >= add) memcpy(g_slot->notes + n - add, m_notes.data() + n - add, add);
    g_slot->notes[n] = 0;
}
void Ctx::label(const char *name, uint64_t n) {
    Slot &s = *g_slot;
    for (uint32_t i = 0; i < s.nLabels; ++i) if (!strcmp(s.labels[i].name, name)) { s.labels[i].n += n; return; }
    if (s.nLabels < kMaxLabels) { Label &l = s.labels[s.nLabels++]; snprintf(l.name, sizeof l.name, "%s", name); l.n = n; }
}
void Ctx::nontrivial() { m_nontrivial = true; }
void Ctx::fail(const char *fmt, ...) {
    Slot &s = *g_slot;
    va_list ap; va_start(ap, fmt); vsnprintf(s.msg, sizeof s.msg, fmt, ap); va_end(ap);
    s.failed = 1;
    _exit(77);
}
static std::map<std::string, std::string> g_knownText;
static std::set<std::string> g_known;      // "ID key"
static const char *g_propId = "";
void Ctx::failKnown(const char *key, const char *fmt, ...) {
    Slot &s = *g_slot;
    char buf[2000];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    if (g_known.count(std::string(g_propId) + " " + key)) {
        std::string l = std::string("known:") + key; label(l.c_str());
        return;
    }
    snprintf(s.msg, sizeof s.msg, "[%s] %s", key, buf);
    s.failed = 1;
    _exit(77);
}
void Ctx::finishCase() {
    Slot &s = *g_slot;
    s.done++;
    if (m_nontrivial) {
        s.nontrivial++;
        if (s.nHashes < kMaxHashes) s.hashes[s.nHashes++] = m_hash;
        if (s.nSamples < 3 && !m_notes.empty()) {
            snprintf(s.samples[s.nSamples], sizeof s.samples[0], "%s", m_notes.c_str()); s.nSamples++;
        }
    }
}

// ---------------------------------------------------------------- engine
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static uint64_t hashStr(const char *s) { uint64_t h = 14695981039346656037ull; while (*s) h = (h ^ (uint8_t)*s++) * 1099511628211ull; return h; }

struct Cand { std::vector<uint64_t> ch; };
struct Outcome { bool fail = false; std::string msg, notes; std::vector<uint64_t> ch; std::vector<std::pair<uint32_t, uint32_t>> spans; };

struct Engine {
    Property p; uint64_t seed = 1; bool thorough = false; std::string root = "/verif";
    int workers = 8;
    std::vector<Slot *> slots;
    std::vector<std::string> errFiles;
    std::string tmpDir;
    int cpuLimit = 90;

    static Slot *newSlot() {
        void *m = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (m == MAP_FAILED) { perror("mmap"); exit(3); }
        return (Slot *)m;
    }
    void setup() {
        char t[] = "/tmp/pbtXXXXXX"; tmpDir = mkdtemp(t);
        for (int i = 0; i < workers; ++i) { slots.push_back(newSlot()); errFiles.push_back(tmpDir + "/err" + std::to_string(i)); }
    }
    void cleanup() { for (auto &f : errFiles) unlink(f.c_str()); rmdir(tmpDir.c_str()); }

    static void resetCase(Slot &s) { s.nChoices = 0; s.nSpans = 0; s.spanDepth = 0; s.notes[0] = 0; s.failed = 0; s.msg[0] = 0; s.newCov = 0; }
    void childInit(int w) {
        g_slot = slots[w];
        int fd = open(errFiles[w].c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        dup2(fd, 2); close(fd);
        int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); close(nul);
        struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
        signal(SIGINT, SIG_DFL); signal(SIGTERM, SIG_DFL);
        setpgid(0, 0);
    }
    void armCpu() { struct itimerval it = {}; it.it_value.tv_sec = cpuLimit; signal(SIGVTALRM, SIG_DFL); setitimer(ITIMER_VIRTUAL, &it, nullptr); alarm(cpuLimit * 6); }
    void initRng(Ctx &c, uint64_t idx) {
        uint64_t s = seed * 0x9e3779b97f4a7c15ull ^ hashStr(p.id) ^ (idx + 1) * 0xd1342543de82ef95ull;
        c.m_rng[0] = splitmix(s); c.m_rng[1] = splitmix(s) | 1;
        for (int i = 0; i < 4; ++i) c.next();
    }
    // env is the first choice of every case
    void runCase(Ctx &c, uint64_t env) {
        g_ctx = &c;
        Slot &s = *g_slot;
        resetCase(s);
        s.choices[s.nChoices++] = env; c.m_pos = 1; c.m_env = env;
        c.m_hash = env + 77;
        p.fn(c);
        c.finishCase();
        g_ctx = nullptr;
    }
    pid_t forkBatch(int w, uint64_t first, int count, const std::vector<std::vector<uint64_t>> *corpus) {
        Slot &s = *slots[w];
        s.done = 0; s.nontrivial = 0; s.nLabels = 0; s.nHashes = 0; s.nSamples = 0; s.failed = 0; s.caseIndex = first; s.msg[0] = 0; s.nChoices = 0;
        fflush(stdout); fflush(stderr);
        pid_t pid = fork();
        if (pid) return pid;
        childInit(w);
        uint64_t env = p.envs > 1 ? (first / p.perFork) % p.envs : 0;
        std::vector<uint64_t> mutated;
        for (int i = 0; i < count; ++i) {
            s.caseIndex = first + i;
            armCpu();
            Ctx c; initRng(c, first + i);
            c.m_size = (int)((first + i) % 101);
            if (corpus && !corpus->empty() && (c.next() & 3)) {
                // greybox: mutate a corpus entry with the same env
                std::vector<size_t> ok;
                for (size_t k = 0; k < corpus->size(); ++k) if ((*corpus)[k][0] == env) ok.push_back(k);
                if (!ok.empty()) {
                    mutated = (*corpus)[ok[c.next() % ok.size()]];
                    if (ok.size() > 1 && !(c.next() & 3)) { // crossover
                        const auto &o = (*corpus)[ok[c.next() % ok.size()]];
                        size_t a = 1 + c.next() % mutated.size(), b = c.next() % o.size();
                        mutated.resize(std::min(a, mutated.size())); mutated.insert(mutated.end(), o.begin() + b, o.end());
                    }
                    int nm = 1 + c.next() % 6;
                    for (int m = 0; m < nm && mutated.size() > 1; ++m) {
                        size_t pos = 1 + c.next() % (mutated.size() - 1);
                        switch (c.next() % 6) {
                            case 0: mutated[pos] = c.next() >> (c.next() % 60); break;
                            case 1: mutated[pos] += (c.next() & 1) ? 1 : (uint64_t)-1; break;
                            case 2: { size_t n = std::min<size_t>(1 + c.next() % 16, mutated.size() - pos); mutated.erase(mutated.begin() + pos, mutated.begin() + pos + n); break; }
                            case 3: { size_t n = std::min<size_t>(1 + c.next() % 24, mutated.size() - pos); std::vector<uint64_t> dup(mutated.begin() + pos, mutated.begin() + pos + n); size_t to = 1 + c.next() % mutated.size(); mutated.insert(mutated.begin() + std::min(to, mutated.size()), dup.begin(), dup.end()); break; }
                            case 4: { size_t n = 1 + c.next() % 8; std::vector<uint64_t> ins; for (size_t k = 0; k < n; ++k) ins.push_back(c.next()); mutated.insert(mutated.begin() + pos, ins.begin(), ins.end()); break; }
                            case 5: mutated.resize(pos); break;
                        }
                    }
                    if (mutated.size() > 200000) mutated.resize(200000);
                    c.m_replay = mutated.data(); c.m_replayLen = mutated.size(); c.m_mutate = true;
                }
            }
            if (g_covSeen) covReset();
            runCase(c, env);
            if (g_covSeen && covMerge()) { s.newCov = 1; _exit(66); }  // parent takes the choices, resumes after this case
        }
        _exit(0);
    }
    bool abnormal(int status) { return !(WIFEXITED(status) && (WEXITSTATUS(status) == 0 || WEXITSTATUS(status) == 66)); }
    std::string crashMsg(int w, int status) {
        Slot &s = *slots[w];
        if (s.failed) return s.msg;
        std::string out;
        if (WIFSIGNALED(status)) {
            int sig = WTERMSIG(status);
            out = sig == SIGVTALRM || sig == SIGALRM ? "hang: the case used up its CPU time" : std::string("crash: signal ") + strsignal(sig);
        } else out = "crash: exit status " + std::to_string(WEXITSTATUS(status));
        FILE *f = fopen(errFiles[w].c_str(), "r");
        if (f) { char b[6000]; size_t n = fread(b, 1, sizeof b - 1, f); b[n] = 0; fclose(f); out += "\n"; out += b; }
        return out;
    }
    Outcome take(int w, int status) {
        Outcome o; Slot &s = *slots[w];
        o.fail = abnormal(status);
        if (o.fail) o.msg = crashMsg(w, status);
        o.notes = s.notes;
        o.ch.assign(s.choices, s.choices + s.nChoices);
        for (uint64_t i = 0; i < s.nSpans; ++i) o.spans.push_back({ s.spans[i].a, s.spans[i].b });
        return o;
    }
    // Runs candidates in parallel, one child each.
    std::vector<Outcome> runCands(const std::vector<Cand> &cs) {
        std::vector<Outcome> out(cs.size());
        std::map<pid_t, std::pair<int, size_t>> live; std::vector<int> freeW;
        for (int i = 0; i < workers; ++i) freeW.push_back(i);
        size_t next = 0;
        while (next < cs.size() || !live.empty()) {
            while (next < cs.size() && !freeW.empty()) {
                int w = freeW.back(); freeW.pop_back();
                Slot &s = *slots[w]; s.failed = 0; s.msg[0] = 0; s.nChoices = 0; s.nSpans = 0; s.notes[0] = 0;
                s.nLabels = 0; s.nHashes = 0; s.nSamples = 0; s.done = 0;
                fflush(stdout);
                pid_t pid = fork();
                if (!pid) {
                    childInit(w); armCpu();
                    Ctx c; c.m_replaying = true; c.m_size = 100;
                    const auto &ch = cs[next].ch;
                    c.m_replay = ch.data(); c.m_replayLen = ch.size();
                    uint64_t env = ch.empty() ? 0 : ch[0] % (uint64_t)std::max(1, p.envs);
                    runCase(c, env);
                    _exit(0);
                }
                live[pid] = { w, next++ };
            }
            int st; pid_t pid = waitpid(-1, &st, 0);
            auto it = live.find(pid); if (it == live.end()) continue;
            out[it->second.second] = take(it->second.first, st);
            freeW.push_back(it->second.first); live.erase(it);
        }
        return out;
    }
    Outcome shrink(Outcome best, double budget) {
        double end = now() + budget;
        auto smaller = [](const std::vector<uint64_t> &a, const std::vector<uint64_t> &b) {
            if (a.size() != b.size()) return a.size() < b.size();
            return a < b;
        };
        auto tryAll = [&](std::vector<Cand> &cs) -> bool {
            for (size_t i = 0; i < cs.size(); i += workers) {
                if (now() > end) return false;
                std::vector<Cand> part(cs.begin() + i, cs.begin() + std::min(cs.size(), i + (size_t)workers));
                auto res = runCands(part);
                for (auto &r : res) if (r.fail && smaller(r.ch, best.ch)) { best = r; return true; }
            }
            return false;
        };
        bool improved = true;
        while (improved && now() < end) {
            improved = false;
            // 1. delete spans, large first
            while (now() < end) {
                auto sp = best.spans;
                std::sort(sp.begin(), sp.end(), [](auto &x, auto &y) { return x.second - x.first > y.second - y.first; });
                std::vector<Cand> cs;
                for (auto &s : sp) {
                    if (s.second > best.ch.size()) continue;
                    Cand c; c.ch = best.ch; c.ch.erase(c.ch.begin() + s.first, c.ch.begin() + s.second);
                    // with the continuation choice in front of it
                    if (s.first > 1) { Cand d; d.ch = best.ch; d.ch.erase(d.ch.begin() + s.first - 1, d.ch.begin() + s.second); cs.push_back(d); }
                    cs.push_back(c);
                }
                if (cs.size() > 4000) cs.resize(4000);
                if (!tryAll(cs)) break;
                improved = true;
            }
            // 2. delete chunks
            for (size_t k : { 64, 32, 16, 8, 4, 2, 1 }) {
                bool again = true;
                while (again && now() < end) {
                    again = false; std::vector<Cand> cs;
                    if (best.ch.size() / k > 3000) break;
                    for (size_t a = best.ch.size(); a >= k + 1; a -= std::min(a, std::max<size_t>(1, k / 2))) {
                        size_t st = a - k; if (st < 1) break;
                        Cand c; c.ch = best.ch; c.ch.erase(c.ch.begin() + st, c.ch.begin() + st + k); cs.push_back(c);
                    }
                    if (tryAll(cs)) { again = true; improved = true; }
                }
            }
            // 3. zero / lower values
            {
                std::vector<Cand> cs;
                for (size_t i = 1; i < best.ch.size() && cs.size() < 6000; ++i) if (best.ch[i]) {
                    Cand c; c.ch = best.ch; c.ch[i] = 0; cs.push_back(c);
                    if (best.ch[i] > 2) { c.ch[i] = best.ch[i] / 2; cs.push_back(c); }
                    if (best.ch[i] > 1) { c.ch[i] = best.ch[i] - 1; cs.push_back(c); }
                }
                // evaluate in rounds, applying improvements greedily
                if (tryAll(cs)) improved = true;
            }
        }
        return best;
    }
    static std::string jsonStr(const std::string &s) {
        std::string o = "\"";
        for (unsigned char c : s) {
            char b[8];
            if (c == '"' || c == '\\') { o += '\\'; o += c; }
            else if (c == '\n') o += "\\n";
            else if (c < 0x20 || c >= 0x7f) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
            else o += c;
        }
        return o + "\"";
    }
    // A failure that needs the state earlier cases left in the process: replayed as a whole batch.
    uint64_t batchFirst = 0; int batchCount = 0;
    Outcome runBatch(uint64_t first, int count, uint64_t sd) {
        uint64_t save = seed; seed = sd;
        pid_t pid = forkBatch(0, first, count, nullptr); int st; waitpid(pid, &st, 0); seed = save;
        return take(0, st);
    }
    std::string writeReplay(const Outcome &o) {
        std::string dir = root + "/replays"; mkdir(dir.c_str(), 0755);
        uint64_t h = 1469598103934665603ull; for (auto v : o.ch) h = (h ^ v) * 1099511628211ull;
        char name[512]; snprintf(name, sizeof name, "%s/%s-%016llx.json", dir.c_str(), p.id, (unsigned long long)h);
        FILE *f = fopen(name, "w");
        if (!f) { snprintf(name, sizeof name, "/tmp/%s-replay.json", p.id); f = fopen(name, "w"); if (!f) return name; }
        fprintf(f, "{\"property\":\"%s\",\"seed\":%llu,\n", p.id, (unsigned long long)seed);
        if (batchCount) fprintf(f, "\"batch\":[%llu,%d],\n", (unsigned long long)batchFirst, batchCount);
        fprintf(f, "\"choices\":[");
        for (size_t i = 0; i < o.ch.size(); ++i) fprintf(f, "%s%llu", i ? "," : "", (unsigned long long)o.ch[i]);
        fprintf(f, "],\n\"message\":%s,\n\"history\":%s}\n", jsonStr(o.msg).c_str(), jsonStr(o.notes).c_str());
        fclose(f);
        return name;
    }
    static bool readReplay(const char *path, std::string &id, std::vector<uint64_t> &ch, uint64_t *sd, uint64_t *bf, int *bc) {
        FILE *f = fopen(path, "r"); if (!f) return false;
        std::string t; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) t.append(b, n); fclose(f);
        size_t a = t.find("\"property\":\""); if (a == std::string::npos) return false; a += 12; id = t.substr(a, t.find('"', a) - a);
        *bc = 0; a = t.find("\"seed\":"); if (a != std::string::npos) *sd = strtoull(&t[a + 7], nullptr, 10);
        a = t.find("\"batch\":["); if (a != std::string::npos) { char *e; *bf = strtoull(&t[a + 9], &e, 10); *bc = atoi(e + 1); }
        a = t.find("\"choices\":["); if (a == std::string::npos) return false; a += 11;
        while (a < t.size() && t[a] != ']') { if (t[a] >= '0' && t[a] <= '9') { char *e; ch.push_back(strtoull(&t[a], &e, 10)); a = e - t.c_str(); } else ++a; }
        return true;
    }

    int run(int cases, double timeCap, bool grey, const std::string &evidence) {
        double t0 = now();
        uint64_t evals = 0, nontriv = 0, hung = 0; std::set<uint64_t> hashes; std::map<std::string, uint64_t> labels; std::vector<std::string> samples;
        std::vector<std::vector<uint64_t>> corpus; uint64_t corpusAdds = 0;
        std::vector<Outcome> fails; std::vector<uint64_t> failIdx;
        if (grey && g_covTotal) {
            void *m = mmap(nullptr, g_covTotal, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            if (m != MAP_FAILED) g_covSeen = (uint8_t *)m;
        }
        struct Live { int w; uint64_t first; int count; };
        std::map<pid_t, Live> live; std::vector<int> freeW; for (int i = 0; i < workers; ++i) freeW.push_back(i);
        struct Job { uint64_t first; int count; };
        std::vector<Job> resume;
        uint64_t nextCase = 0; bool stop = false;
        auto absorb = [&](Slot &s) {
            evals += s.done; nontriv += s.nontrivial;
            for (uint64_t i = 0; i < s.nHashes; ++i) hashes.insert(s.hashes[i]);
            for (uint32_t i = 0; i < s.nLabels; ++i) labels[s.labels[i].name] += s.labels[i].n;
            for (uint32_t i = 0; i < s.nSamples; ++i) if (samples.size() < 4) samples.push_back(s.samples[i]);
        };
        while (true) {
            if (now() - t0 > timeCap) stop = true;
            while (!stop && !freeW.empty()) {
                Job j;
                if (!resume.empty()) { j = resume.back(); resume.pop_back(); }
                else if (nextCase < (uint64_t)cases) { j.first = nextCase; j.count = (int)std::min<uint64_t>(p.perFork, cases - nextCase); nextCase += j.count; }
                else break;
                int w = freeW.back(); freeW.pop_back();
                pid_t pid = forkBatch(w, j.first, j.count, grey ? &corpus : nullptr);
                live[pid] = { w, j.first, j.count };
            }
            if (live.empty()) break;
            int st; pid_t pid = waitpid(-1, &st, 0);
            auto it = live.find(pid); if (it == live.end()) continue;
            Live l = it->second; live.erase(it); freeW.push_back(l.w);
            Slot &s = *slots[l.w];
            absorb(s);
            if (WIFEXITED(st) && WEXITSTATUS(st) == 66) {
                if (corpus.size() < 5000) corpus.push_back(std::vector<uint64_t>(s.choices, s.choices + s.nChoices));
                ++corpusAdds;
                int doneN = (int)(s.caseIndex - l.first) + 1;
                if (doneN < l.count) resume.push_back({ l.first + doneN, l.count - doneN });
                continue;
            }
            if (abnormal(st)) {
                Outcome o = take(l.w, st);
                if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGKILL)) { ++hung; fprintf(stderr, "note: worker ended by signal %d (case %llu)\n", WTERMSIG(st), (unsigned long long)s.caseIndex); int doneN = (int)(s.caseIndex - l.first) + 1; if (hung < 20 && doneN < l.count) resume.push_back({ l.first + doneN, l.count - doneN }); else if (hung >= 20) stop = true; continue; }
                fails.push_back(o); failIdx.push_back(s.caseIndex);
                if (fails.size() >= 3) stop = true;
                else { int doneN = (int)(s.caseIndex - l.first) + 1; if (doneN < l.count) resume.push_back({ l.first + doneN, l.count - doneN }); stop = true; }
            }
        }
        int rc = 0, violations = 0; int flaky = 0;
        for (size_t i = 0; i < fails.size() && !violations; ++i) {
            Cand c; c.ch = fails[i].ch;
            auto r = runCands({ c, c, c });
            if (!(r[0].fail && r[1].fail && r[2].fail)) {
                if (!grey) {
                    uint64_t bf = failIdx[i] - failIdx[i] % p.perFork; int bc = (int)(failIdx[i] - bf) + 1;
                    Outcome b1 = runBatch(bf, bc, seed), b2 = b1.fail ? runBatch(bf, bc, seed) : b1, b3 = b2.fail ? runBatch(bf, bc, seed) : b2;
                    if (b1.fail && b2.fail && b3.fail) {
                        for (; bc > 1; --bc) { Outcome t = runBatch(bf + 1, bc - 1, seed); if (!t.fail || (bf + 1) / p.perFork != bf / p.perFork) break; ++bf; b1 = t; }
                        batchFirst = bf; batchCount = bc;
                        std::string path = writeReplay(b1);
                        printf("%s\n(depends on the state left by earlier cases; replayed as cases %llu..%llu of one process)\nhistory:\n%s\n", b1.msg.c_str(), (unsigned long long)bf, (unsigned long long)(bf + bc - 1), b1.notes.c_str());
                        printf("VIOLATION property=%s replay=%s\n", p.id, path.c_str());
                        violations = 1; rc = 1; continue;
                    }
                }
                ++flaky;
                fprintf(stderr, "note: failure of case %llu did not reproduce from its choices: %s\n", (unsigned long long)failIdx[i], fails[i].msg.c_str());
                continue;
            }
            fprintf(stderr, "failure (case %llu): %s\nshrinking...\n", (unsigned long long)failIdx[i], r[0].msg.c_str());
            r[0].ch = c.ch;
            Outcome b = shrink(r[0], getenv("PBT_SHRINK") ? atof(getenv("PBT_SHRINK")) : thorough ? 180 : 75);
            std::string path = writeReplay(b);
            printf("%s\nhistory:\n%s\n", b.msg.c_str(), b.notes.c_str());
            printf("VIOLATION property=%s replay=%s\n", p.id, path.c_str());
            violations = 1; rc = 1;
        }
        double wall = now() - t0;
        for (auto &k : g_known) if (k.compare(0, strlen(p.id), p.id) == 0) printf("KNOWN-FINDING: property=%s [%s]%s\n", p.id, k.c_str() + strlen(p.id) + 1, g_knownText[k].c_str());
        // evidence
        if (!evidence.empty()) {
            FILE *f = fopen(evidence.c_str(), "w");
            if (!f) { perror(evidence.c_str()); return rc ? rc : 3; }
            std::string lv = "exploration"; if (const char *e = getenv("PBT_LEVEL")) lv = e;
            fprintf(f, "{\"property\":\"%s\",\"tier\":\"%s\",\"seed\":%llu,\"level\":\"%s\",\n\"coverage\":{\"evaluations\":%llu,\"distinct_nontrivial\":%llu,\n\"rule\":%s,\n\"classes\":{",
                p.id, thorough ? "thorough" : "quick", (unsigned long long)seed, lv.c_str(), (unsigned long long)evals, (unsigned long long)hashes.size(), jsonStr(p.rule).c_str());
            bool first = true; for (auto &l : labels) { fprintf(f, "%s%s:%llu", first ? "" : ",", jsonStr(l.first).c_str(), (unsigned long long)l.second); first = false; }
            fprintf(f, "},\n\"unreached_expected_classes\":[");
            first = true; for (auto m : p.mustSee) if (!labels.count(m)) { fprintf(f, "%s%s", first ? "" : ",", jsonStr(m).c_str()); first = false; fprintf(stderr, "note: class '%s' was not generated\n", m); }
            fprintf(f, "],\n\"unreproducible_failures\":%d,\"stopped_early\":%s,", flaky, stop && nextCase < (uint64_t)cases ? "true" : "false");
            if (grey) fprintf(f, "\"coverage_counters_reached\":%llu,\"coverage_counters_total\":%llu,\"corpus\":%llu,", (unsigned long long)covCount(), (unsigned long long)g_covTotal, (unsigned long long)corpusAdds);
            fprintf(f, "\n\"samples\":[");
            for (size_t i = 0; i < samples.size(); ++i) fprintf(f, "%s%s", i ? ",\n" : "", jsonStr(samples[i]).c_str());
            fprintf(f, "]},\n\"assumptions\":[\"the Win32 simulator (sim/) behaves like Windows where the case uses it\"],\n\"wall_s\":%.2f,\"violations\":%d}\n", wall, violations);
            fclose(f);
        }
        fprintf(stderr, "%s: %llu cases, %llu nontrivial (%llu distinct), %.1f s%s\n", p.id, (unsigned long long)evals, (unsigned long long)nontriv, (unsigned long long)hashes.size(), wall, violations ? ", VIOLATION" : "");
        for (auto &l : labels) fprintf(stderr, "  %-40s %llu\n", l.first.c_str(), (unsigned long long)l.second);
        return rc;
    }
};

int engineMain(int argc, char **argv) {
    std::string id, replay, evidence, root = "/verif", known; int cases = -1, workers = 8; double cap = -1; bool grey = false, list = false, one = false; long long only = -1;
    uint64_t seed = 1; bool thorough = false;
    if (const char *e = getenv("VERIF_SEED")) seed = strtoull(e, nullptr, 10);
    if (const char *e = getenv("VERIF_TIER")) thorough = !strcmp(e, "thorough");
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i]; auto val = [&] { return i + 1 < argc ? argv[++i] : (char *)""; };
        if (a == "--replay") replay = val(); else if (a == "--evidence") evidence = val(); else if (a == "--root") root = val();
        else if (a == "--cases") cases = atoi(val()); else if (a == "--cap") cap = atof(val()); else if (a == "--grey") grey = true;
        else if (a == "--list") list = true; else if (a == "--workers") workers = atoi(val()); else if (a == "--known") known = val();
        else if (a == "--case") only = atoll(val()); else if (a == "--seed") seed = strtoull(val(), nullptr, 10);
        else id = a;
    }
    (void)one;
    if (list) { for (auto &p : props()) printf("%s\n", p.id); return 0; }
    std::vector<uint64_t> rch; uint64_t rseed = 1, rbf = 0; int rbc = 0;
    if (!replay.empty()) { std::string rid; if (!Engine::readReplay(replay.c_str(), rid, rch, &rseed, &rbf, &rbc)) { fprintf(stderr, "cannot read %s\n", replay.c_str()); return 3; } if (id.empty()) id = rid; }
    Engine e; bool found = false;
    for (auto &p : props()) if (id == p.id) { e.p = p; found = true; }
    if (!found) { fprintf(stderr, "no such property: %s\n", id.c_str()); return 3; }
    g_propId = e.p.id;
    e.seed = seed; e.thorough = thorough; e.root = root; e.workers = workers;
    if (FILE *f = fopen((root + "/known_findings.txt").c_str(), "r")) {
        // lines: "known: property=<id> key=<key> <text>"  /  "fixed: property=..." (ignored)
        char line[2000];
        while (fgets(line, sizeof line, f)) {
            char pid[32], key[200];
            int off = 0;
            if (sscanf(line, "known: property=%31s key=%199s%n", pid, key, &off) == 2) { std::string k = std::string(pid) + " " + key; g_known.insert(k); std::string t = line + off; while (!t.empty() && (t.back() == '\n' || t.back() == '\r')) t.pop_back(); g_knownText[k] = t; }
        }
        fclose(f);
    }
    e.setup();
    int rc = 0;
    if (!replay.empty()) {
        Cand c; c.ch = rch; auto r = rbc ? std::vector<Outcome>{ e.runBatch(rbf, rbc, rseed) } : e.runCands({ c });
        printf("%s\nhistory:\n%s\n", r[0].fail ? r[0].msg.c_str() : "passed", r[0].notes.c_str());
        if (r[0].fail) { printf("VIOLATION property=%s replay=%s\n", e.p.id, replay.c_str()); rc = 1; }
    } else if (only >= 0) {
        // run one generated case in the foreground for debugging
        pid_t pid = e.forkBatch(0, only - only % e.p.perFork, (int)(only % e.p.perFork) + 1, nullptr);
        int st; waitpid(pid, &st, 0);
        Outcome o = e.take(0, st);
        printf("%s\nhistory:\n%s\n", o.fail ? o.msg.c_str() : "passed", o.notes.c_str());
        if (getenv("PBT_SAVE")) printf("%s\n", e.writeReplay(o).c_str());
        rc = o.fail ? 1 : 0;
    } else {
        if (cases < 0) cases = thorough ? e.p.thoroughCases : e.p.quickCases;
        if (cap < 0) cap = thorough ? 3600 : 240;
        rc = e.run(cases, cap, grey, evidence);
    }
    e.cleanup();
    return rc;
}
} // namespace pbt
