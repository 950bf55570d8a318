// Independent encoder/decoder of the agent protocol (from the documented packet layout).
#pragma once
#include "sim/sim.h"
#include <string.h>
namespace wire {
using sim::U16;
struct Enc {
    std::string b = std::string(8, 0);
    template <class T> Enc &raw(T v) { b.append((const char *)&v, sizeof v); return *this; }
    Enc &i32(int32_t v) { b += (char)0; return raw(v); }
    Enc &i64(int64_t v) { b += (char)1; return raw(v); }
    Enc &str(const U16 &s) { b += (char)2; raw<uint64_t>(s.size()); b.append((const char *)s.data(), 2 * s.size()); return *this; }
    std::string done() const { std::string r = b; uint64_t n = r.size(); memcpy(&r[0], &n, 8); return r; }
};
struct Dec {                     // over one complete packet; `bad` once anything does not fit
    std::string b; size_t o = 8; bool bad = false;
    explicit Dec(const std::string &p) : b(p) { uint64_t n = 0; if (b.size() >= 8) memcpy(&n, &b[0], 8); if (b.size() < 8 || n != b.size()) bad = true; }
    template <class T> T raw() { T v{}; if (bad || b.size() - o < sizeof v) { bad = true; return v; } memcpy(&v, &b[o], sizeof v); o += sizeof v; return v; }
    void tag(uint8_t t) { if (raw<uint8_t>() != t) bad = true; }
    int32_t i32() { tag(0); return raw<int32_t>(); }
    int64_t i64() { tag(1); return raw<int64_t>(); }
    U16 str() { tag(2); uint64_t n = raw<uint64_t>(); if (bad || n > (b.size() - o) / 2) { bad = true; return {}; } U16 s(n, 0); memcpy(&s[0], &b[o], 2 * n); o += 2 * n; return s; }
    bool end() { return !bad && o == b.size(); }
};
inline U16 s16(const char *a) { return sim::u16(a); }
}
