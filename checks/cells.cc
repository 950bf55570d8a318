// C05 cells to UTF-8.
#include "model/draw.h"
#include <algorithm>
using namespace session;
static void put8(std::string &r, uint32_t u) {
    if (u < 0x80) r += (char)u; else if (u < 0x800) { r += (char)(0xC0 | u >> 6); r += (char)(0x80 | (u & 63)); }
    else if (u < 0x10000) { r += (char)(0xE0 | u >> 12); r += (char)(0x80 | (u >> 6 & 63)); r += (char)(0x80 | (u & 63)); }
    else { r += (char)(0xF0 | u >> 18); r += (char)(0x80 | (u >> 12 & 63)); r += (char)(0x80 | (u >> 6 & 63)); r += (char)(0x80 | (u & 63)); }
}
static uint16_t genUnit(pbt::Ctx &c) {
    uint16_t u;
    switch (c.weighted({3, 3, 3, 3, 2, 2, 1, 2})) {
    case 0: u = (uint16_t)c.range('!', '~'); break;
    case 1: u = (uint16_t)(0xD800 + c.choose(0x400)); break;
    case 2: u = (uint16_t)(0xDC00 + c.choose(0x400)); break;
    case 3: { static const uint16_t v[] = {1, 2, 3, 4, 5, 6, 27, 7, 8, 9, 11, 14, 0x1a, 0x1c, 0x7f, 0x80, 0x9b, 0x9f}; u = v[c.choose(18)]; break; }
    case 4: { static const uint16_t v[] = {0x7f, 0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0xfeff, 0x20, 0xa0}; u = v[c.choose(18)]; break; }
    case 5: u = (uint16_t)c.choose(65536); break;
    case 6: u = ' '; break;
    default: { static const uint16_t v[] = {0x4E00, 0x3042, 0xAC00, 0xFF21, 0x30C6, 0x9FA5}; u = v[c.choose(6)]; break; }
    }
    return u == 10 || u == 13 || u == 0 ? 'N' : u;      // what a CR or LF in a cell should look like is not specified
}
static void c05(pbt::Ctx &c) {
    Config cfg = genConfig(c);
    World &w = reset(cfg);
    Opts o; o.cols = c.chance(30) ? c.range(28, 34) : c.range(28, 90); o.rows = c.range(2, 12);
    bool plain = c.chance(30); if (plain) o.flags |= F_PLAIN;
    Session s(c, w, o); s.term.flat = true; s.keepRaw = true; s.open(); s.spawn();
    Buffer &b = *s.con->active;
    if (b.w != o.cols || b.win.h() != o.rows) { c.label("size limited by the system"); return; }
    int odd = 0; bool partial = false;
    auto check = [&](int rowsUsed) {
        s.checkClean();
        if (!s.term.errors.empty()) c.fail("the output stream misbehaves: %s", s.term.errors[0].c_str());
        for (int r = 0; r < rowsUsed; ++r) {
            auto exp = decodeRow(&b.at(0, b.win.t + r), b.w); std::string want; for (auto &e : exp) put8(want, e.cp);
            std::string got = s.term.rowText(s.term.top + r, false); size_t n = std::max(want.size(), got.size());
            auto trim = [](std::string t) { while (!t.empty() && t.back() == ' ') t.pop_back(); return t; }; (void)n;
            if (trim(want) != trim(got)) c.fail("row %d reads\n  [%s] in the terminal, the console cells mean\n  [%s]", r, esc(trim(got)).c_str(), esc(trim(want)).c_str());
        }
    };
    int rounds = plain ? 1 : c.range(1, 4), maxRow = 0, lastRow = 0;
    for (int k = 0; k < rounds; ++k) {
        pbt::Ctx::Span sp(c);
        int n = c.skewed(1, 5); bool append = c.chance(40); int appendRow = (int)c.choose(o.rows);
        if (k && append) appendRow = lastRow;
        for (int i = 0; i < n; ++i) {
            pbt::Ctx::Span sp2(c);
            int y = (int)c.choose(o.rows), x = c.chance(40) ? 0 : c.chance(30) ? std::max(0, o.cols - 1 - (int)c.choose(5)) : (int)c.choose(o.cols), len = c.chance(20) ? o.cols : c.skewed(1, 20);
            if (append) { y = appendRow; x = 0; for (int q = 0; q < o.cols; ++q) if (b.at(q, y).ch != ' ') x = q + 1; len = c.skewed(1, 6); }
            maxRow = std::max(maxRow, y);
            for (int j = 0; j < len && x < o.cols; ++j) {
                uint16_t u = genUnit(c); uint16_t at = 7;
                int shape = c.weighted({6, 3, 1});
                if (u < 32 || (u >= 0xD800 && u < 0xE000)) ++odd;
                if (shape == 1 && x + 1 < o.cols) { b.at(x, y) = Cell{u, (uint16_t)(at | 0x100)}; b.at(x + 1, y) = Cell{u, (uint16_t)(at | 0x200)}; x += 2; }
                else { if (shape == 2) { at |= (uint16_t)(c.choose(4) << 8); ++odd; } b.at(x, y) = Cell{u, at}; ++x; }
            }
        }
        b.cx = (int)c.choose(o.cols); b.cy = (int)c.choose(o.rows);
        if (append) { lastRow = b.cy = appendRow; b.cx = 0; for (int q = 0; q < o.cols; ++q) if (b.at(q, b.cy).ch != ' ') b.cx = std::min(q + 1, o.cols - 1); }
        if (c.chance(30)) b.cursorVisible = !b.cursorVisible;
        maxRow = std::max(maxRow, b.cy);
        std::string t; for (int r = 0; r <= maxRow; ++r) t += "  [" + esc(cellsUtf8(&b.at(0, r), b.w, true)) + "]\n";
        c.note("round %d%s, cursor %d,%d:\n%s", k, plain ? " (plain)" : "", b.cx, b.cy, t.c_str());
        if (k) partial = true;
        if (plain) {
            s.settle();
            std::string want; for (int r = 0; r <= maxRow; ++r) { want += cellsUtf8(&b.at(0, r), b.w, true); if (r < maxRow) want += "\r\n"; }
            std::string got = s.raw;
            while (want.size() >= 2 && want.compare(want.size() - 2, 2, "\r\n") == 0) want.resize(want.size() - 2);
            // trailing line movement to the cursor row is layout, not text
            std::string g2 = got.substr(0, want.size());
            if (g2 != want) c.fail("plain output is\n  [%s], the console cells mean\n  [%s]", esc(got).c_str(), esc(want).c_str());
            s.checkClean();
        } else if (c.chance(70) || k == rounds - 1) { s.settle(); check(o.rows); } else s.run(c.range(1, 30));
    }
    if (plain) c.label("plain"); if (partial) c.label("cells changed in several steps");
    if (odd) c.nontrivial();
}
static pbt::Registrar r05({"C05", "rows of arbitrary UTF-16 units (surrogates, control and box codes, boundary values) with arbitrary leading/trailing flags, written in one or several steps at any column; an independent decoder says what each row must read as. Non-trivial: surrogates, control codes or irregular flags occurred.", c05, 5, 15000, 200000, 30, {"plain", "cells changed in several steps"}});
