// Property-based testing engine: choice-stream generation, forked workers, shrinking, replay, greybox mode.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>

namespace pbt {

class Ctx {
public:
    // --- generation (all shrink toward 0 / low / false / first) ---
    uint64_t choose(uint64_t n);                 // uniform in [0,n)
    int range(int lo, int hi);                   // inclusive
    bool chance(int pct);                        // true with pct %
    bool more(int avgLen);                       // list continuation
    template <class T> const T &pick(const std::vector<T> &v) { return v[choose(v.size())]; }
    template <class T, size_t N> const T &pick(const T (&v)[N]) { return v[choose(N)]; }
    int weighted(std::initializer_list<int> w);  // index by weight
    int skewed(int lo, int hi);                  // log-ish distribution biased to lo
    void begin(); void end();                    // span for structural shrinking
    struct Span { Ctx &c; explicit Span(Ctx &c) : c(c) { c.begin(); } ~Span() { c.end(); } };
    int size() const { return m_size; }          // 0..100, grows with case number
    uint64_t env() const { return m_env; }       // per-process environment choice
    // --- reporting ---
    void note(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
    void label(const char *s, uint64_t n = 1);
    void nontrivial();
    [[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
    // a failure that may be listed in known_findings.txt under `key`
    void failKnown(const char *key, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
    // The case cannot be judged (generator corner); not counted as non-trivial.
    bool replaying() const { return m_replaying; }
    bool isNontrivial() const { return m_nontrivial; }
    size_t pos() const { return m_pos; }
    // make the choices from `from` on a second time (for a differential run); nothing is recorded meanwhile
    void again(size_t from) { m_again = from + 1; }
    void againEnd() { m_again = 0; }
private:
    friend struct Engine;
    void finishCase();
    int m_size = 0; uint64_t m_env = 0; bool m_replaying = false; bool m_nontrivial = false;
    uint64_t m_rng[2] = {1, 2};
    const uint64_t *m_replay = nullptr; size_t m_replayLen = 0, m_pos = 0, m_again = 0;
    bool m_mutate = false;
    std::string m_notes;
    uint64_t m_hash = 0;
    uint64_t next();
};

extern Ctx *g_ctx;   // the running case

struct Property {
    const char *id;
    const char *rule;              // how cases are made, what is non-trivial
    void (*fn)(Ctx &);
    int envs;                      // number of process environments (OS versions etc.); cases of one fork share it
    int quickCases, thoroughCases;
    int perFork;                   // cases per forked child
    std::vector<const char *> mustSee;   // labels that must occur in a full run (generator health), reported in evidence
};

void registerProperty(const Property &p);
struct Registrar { Registrar(const Property &p) { registerProperty(p); } };
int engineMain(int argc, char **argv);

} // namespace pbt
