// Reference terminal: what a conforming VT terminal of a fixed size (or an endless sheet of paper) shows for a byte stream.
#pragma once
#include <stdint.h>
#include <deque>
#include <string>
#include <vector>
namespace vt {
struct Rend {
    int8_t fg = -1, bg = -1; bool bold = false, inverse = false, under = false, conceal = false;
    bool operator==(const Rend &o) const { return fg == o.fg && bg == o.bg && bold == o.bold && inverse == o.inverse && under == o.under && conceal == o.conceal; }
    bool operator!=(const Rend &o) const { return !(*this == o); }
    std::string str() const;
};
struct Cell { uint32_t ch = ' '; Rend r; bool cont = false; bool written = false; };   // cont: right half of a wide character
typedef std::vector<Cell> Line;
int charWidth(uint32_t cp);
// Rendition a console attribute calls for (independent restatement of the documented mapping).
Rend rendOf(uint16_t attr, bool reverseOn, bool underOn);

struct Vt {
    int w = 80, h = 25; bool paper = false;       // paper: unlimited height, addressed from the last clear
    std::deque<Line> lines;                       // history + screen; screen starts at `top`
    int top = 0, cy = 0, cx = 0; bool pendingWrap = false; // cy is an index into lines
    Rend cur; bool cursorVisible = true;
    bool mouse1000 = false, mouse1002 = false, mouse1003 = false, mouse1015 = false, mouse1006 = false, mouse1005 = false;
    std::vector<std::string> titles; int clears = 0, dsr = 0; uint64_t bytes = 0;
    std::vector<std::string> mouseLog;            // "on"/"off" transitions of 1000
    std::vector<std::string> errors;              // bytes no terminal would take as the agent meant them
    std::vector<std::string> wrapped;             // auto-wraps (never intended by the agent)
    bool grow = false;                            // paper of unlimited width, lines as long as what was written (text only)
    bool screen = false; int scr = 0;             // paper: the cursor may only move up as far as a terminal of h rows reaches (first row scr)
    bool obscure = false;                         // cells hidden by a narrower width are kept and come back when the terminal becomes wider
    bool flat = false;                            // every character is one cell and control characters other than CR, LF, ESC are printable (for judging text only)
    Vt(int w_ = 80, int h_ = 25, bool paper_ = false) { init(w_, h_, paper_); }
    void init(int w_, int h_, bool paper_);
    void feed(const std::string &s);
    void resize(int nw, int nh);                  // paper mode: only the width changes
    int screenRow() const { return cy - top; }
    std::string rowText(int absLine, bool trim = true) const;   // UTF-8
    const Line &line(int absLine) const;
    bool midSequence() const { return m_st != 0 || m_need; }
private:
    int m_st = 0; std::string m_seq; int m_need = 0; uint32_t m_cp = 0; int m_len = 0;
    void put(uint32_t cp); void lf(); void csi(); void err(const std::string &e);
    Line blank() const;
};
} // namespace vt
