#include "model/vt.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
namespace vt {
std::string Rend::str() const {
    char b[80]; snprintf(b, sizeof b, "fg%d bg%d%s%s%s%s", fg, bg, bold ? " bold" : "", inverse ? " inv" : "", under ? " und" : "", conceal ? " hid" : ""); return b;
}
int charWidth(uint32_t c) {
    if ((c >= 0x1100 && c <= 0x115f) || (c >= 0x2e80 && c <= 0x303e) || (c >= 0x3041 && c <= 0x33ff) || (c >= 0x3400 && c <= 0x4dbf) || (c >= 0x4e00 && c <= 0x9fff) ||
        (c >= 0xac00 && c <= 0xd7a3) || (c >= 0xf900 && c <= 0xfaff) || (c >= 0xff01 && c <= 0xff60) || c >= 0x10000) return 2;
    return 1;
}
static int ansi(int rgb4) { // console bit order (B=1 G=2 R=4 I=8) to ANSI (R=1 G=2 B=4 bright=8)
    return ((rgb4 & 4) ? 1 : 0) | ((rgb4 & 2) ? 2 : 0) | ((rgb4 & 1) ? 4 : 0) | (rgb4 & 8);
}
Rend rendOf(uint16_t a, bool reverseOn, bool underOn) {
    int fore = ansi(a & 15), back = ansi(a >> 4 & 15);
    if ((a & 0x4000) && reverseOn) { int t = fore; fore = back; back = t; }
    Rend r;
    if (back == 0 && fore == 7) {}                       // the terminal's own default colours
    else if (back == 0 && fore == 15) r.bold = true;
    else if (back == 0) r.fg = fore;
    else if (back == 15) { r.inverse = true; if (fore != 7 && fore != 0) r.bg = fore; }
    else { r.fg = fore; r.bg = back; }
    r.conceal = fore == back;
    r.under = (a & 0x8000) && underOn;
    return r;
}
Line Vt::blank() const { if (grow) return Line(); Line l(w); for (auto &c : l) { c.r = Rend(); c.r.bg = cur.bg; } return l; }
void Vt::init(int w_, int h_, bool paper_) {
    w = w_; h = h_; paper = paper_; lines.clear(); top = cy = cx = scr = 0; pendingWrap = false; cur = Rend(); cursorVisible = true;
    m_st = 0; m_need = 0;
    lines.push_back(Line(w)); if (!paper) while ((int)lines.size() < h) lines.push_back(Line(w));
}
void Vt::err(const std::string &e) { if (errors.size() < 20) errors.push_back(e); }
void Vt::lf() {
    pendingWrap = false;
    ++cy;
    if (cy == (int)lines.size()) { lines.push_back(blank()); if (!paper) ++top; }
    if (cy - scr >= h) scr = cy - h + 1;
}
void Vt::put(uint32_t cp) {
    int cw = flat ? 1 : charWidth(cp);
    if (pendingWrap || cx + cw > w) {
        if (wrapped.size() < 20) { char b[100]; snprintf(b, sizeof b, "U+%04X at column %d of line %d wraps", cp, cx, cy); wrapped.push_back(b); }
        cx = 0; lf();
    }
    Line &l = lines[cy];
    if (grow && (int)l.size() < cx + cw) l.resize(cx + cw);
    // a full-width character of which one half is overwritten is gone
    if (!flat && cx < (int)l.size() && l[cx].cont && cx > 0) l[cx - 1].ch = ' ';
    if (!flat && cx + cw < (int)l.size() && l[cx + cw].cont) { l[cx + cw].ch = ' '; l[cx + cw].cont = false; }
    for (int i = 0; i < cw && cx + i < (int)l.size(); ++i) { l[cx + i].ch = cp; l[cx + i].r = cur; l[cx + i].cont = i > 0; l[cx + i].written = true; }
    cx += cw;
    if (cx >= w) { cx = w - 1; pendingWrap = true; }
}
void Vt::csi() {
    char fin = m_seq.back(); std::string p = m_seq.substr(0, m_seq.size() - 1);
    bool priv = !p.empty() && p[0] == '?'; if (priv) p = p.substr(1);
    std::vector<int> v; { std::string t; for (char c : p + ";") if (c == ';') { v.push_back(t.empty() ? -1 : atoi(t.c_str())); t.clear(); } else if (c >= '0' && c <= '9') t += c; else { err("odd parameter in CSI " + m_seq); return; } }
    auto arg = [&](size_t i, int d) { return i < v.size() && v[i] >= 0 ? v[i] : d; };
    if (priv && (fin == 'h' || fin == 'l')) {
        bool on = fin == 'h';
        for (int m : v) switch (m) {
            case 25: cursorVisible = on; break;
            case 1000: if (mouse1000 != on || true) { mouseLog.push_back(on ? "on" : "off"); } mouse1000 = on; break;
            case 1002: mouse1002 = on; break; case 1003: mouse1003 = on; break; case 1005: mouse1005 = on; break;
            case 1006: mouse1006 = on; break; case 1015: mouse1015 = on; break;
            default: err("unknown private mode " + m_seq);
        }
        return;
    }
    if (priv) { err("unknown CSI " + m_seq); return; }
    switch (fin) {
    case 'm':
        for (int m : v) {
            if (m < 0) m = 0;
            if (m == 0) cur = Rend(); else if (m == 1) cur.bold = true; else if (m == 4) cur.under = true; else if (m == 7) cur.inverse = true; else if (m == 8) cur.conceal = true;
            else if (m >= 30 && m <= 37) cur.fg = m - 30; else if (m >= 40 && m <= 47) cur.bg = m - 40; else if (m >= 90 && m <= 97) cur.fg = m - 90 + 8; else if (m >= 100 && m <= 107) cur.bg = m - 100 + 8;
            else if (m == 39) cur.fg = -1; else if (m == 49) cur.bg = -1;
            else err("unknown SGR " + m_seq);
        }
        break;
    case 'H': case 'f': {
        int r = arg(0, 1) - 1, c = arg(1, 1) - 1; if (r < 0) r = 0; if (c < 0) c = 0; if (c >= w) c = w - 1;
        if (paper) { if (r || c) err("absolute cursor move on paper"); cy = (int)lines.size(); lines.push_back(blank()); top = scr = cy; cx = 0; }   // a clear follows: start a new sheet
        else { if (r >= h) r = h - 1; cy = top + r; cx = c; }
        pendingWrap = false; break;
    }
    case 'J':
        if (arg(0, 0) != 2) { err("unexpected " + m_seq); break; }
        ++clears; for (int i = top; i < (int)lines.size(); ++i) lines[i] = blank();
        break;
    case 'K': {
        int m = arg(0, 0); if (m != 0) { err("unexpected " + m_seq); break; }
        Line &l = lines[cy];
        if (!flat && cx > 0 && cx < (int)l.size() && l[cx].cont) { l[cx - 1].ch = ' '; l[cx - 1].cont = false; }
        if (grow) { if ((int)l.size() > cx) l.resize(cx); break; }
        // Deferred wrap: erasing here would wipe the last cell on many terminals.
        for (int i = cx; i < (int)l.size() && (!obscure || i < w); ++i) { Cell c; c.r = cur; c.written = true; l[i] = c; }
        break;
    }
    case 'A': { int n = arg(0, 1); if (n < 1) n = 1; if (screen && cy - n < scr && cy - n >= top) err("cursor moved up past the top of the screen: " + m_seq); if (cy - n < top) { err("cursor moved up past the top of the screen: " + m_seq); cy = top; } else cy -= n; pendingWrap = false; break; }
    case 'G': { int c = arg(0, 1); if (c < 1) c = 1; if (c > w) { err("column out of range: " + m_seq); c = w; } cx = c - 1; pendingWrap = false; break; }
    case 'n': if (arg(0, 0) == 6) ++dsr; else err("unknown " + m_seq); break;
    default: err("unknown CSI " + m_seq);
    }
}
void Vt::feed(const std::string &s) {
    for (unsigned char b : s) {
        ++bytes;
        if (m_st == 0) {
            if (m_need) {
                if ((b & 0xC0) != 0x80) { err("malformed UTF-8"); m_need = 0; }
                else {
                    m_cp = m_cp << 6 | (b & 63);
                    if (--m_need == 0) {
                        if ((m_len == 2 && m_cp < 0x80) || (m_len == 3 && m_cp < 0x800) || (m_len == 4 && m_cp < 0x10000) || m_cp > 0x10FFFF || (m_cp >= 0xD800 && m_cp < 0xE000)) err("ill-formed UTF-8 scalar");
                        put(m_cp);
                    }
                    continue;
                }
            }
            if (b == 27) { m_st = 1; m_seq.clear(); }
            else if (b == '\r') { cx = 0; pendingWrap = false; }
            else if (b == '\n') lf();
            else if ((b < 32 || b == 127) && !flat) { char t[40]; snprintf(t, sizeof t, "control character %02x", b); err(t); }
            else if (b < 128) put(b);
            else if (b >= 0xC2 && b <= 0xDF) { m_len = 2; m_need = 1; m_cp = b & 31; }
            else if (b >= 0xE0 && b <= 0xEF) { m_len = 3; m_need = 2; m_cp = b & 15; }
            else if (b >= 0xF0 && b <= 0xF4) { m_len = 4; m_need = 3; m_cp = b & 7; }
            else err("malformed UTF-8 lead byte");
        } else if (m_st == 1) {
            if (b == '[') m_st = 2; else if (b == ']') { m_st = 3; m_seq.clear(); } else { err("unknown escape"); m_st = 0; }
        } else if (m_st == 2) {
            m_seq += (char)b;
            if (b >= 0x40 && b <= 0x7e) { csi(); m_st = 0; } else if (m_seq.size() > 60) { err("endless CSI"); m_st = 0; }
        } else if (m_st == 3) {
            if (b == 7) { if (m_seq.compare(0, 2, "0;") == 0) titles.push_back(m_seq.substr(2)); else err("unknown OSC"); m_st = 0; }
            else { m_seq += (char)b; if (m_seq.size() > 400000) { err("endless OSC"); m_st = 0; } }
        }
    }
}
void Vt::resize(int nw, int nh) {
    if (cy - scr >= nh) scr = cy - nh + 1;
    if (grow) { h = nh; return; }
    if (paper) { w = nw; h = nh; if (obscure) pendingWrap = false; if (cx >= w) cx = w - 1; for (auto &l : lines) l.resize(std::max<size_t>(l.size(), nw)); return; }
    for (auto &l : lines) l.resize(nw);
    while ((int)lines.size() - top > nh && cy < (int)lines.size() - 1) lines.pop_back();
    while ((int)lines.size() - top > nh) ++top;
    while ((int)lines.size() - top < nh) lines.push_back(Line(nw));
    w = nw; h = nh; if (cx >= w) cx = w - 1; pendingWrap = false;
}
const Line &Vt::line(int i) const { static Line e; return i >= 0 && i < (int)lines.size() ? lines[i] : e; }
std::string Vt::rowText(int i, bool trim) const {
    std::string r;
    int x = 0;
    for (auto &c : line(i)) {
        if (obscure && x++ >= w) break;
        if (c.cont) continue;
        uint32_t u = c.ch;
        if (u < 0x80) r += (char)u; else if (u < 0x800) { r += (char)(0xC0 | u >> 6); r += (char)(0x80 | (u & 63)); }
        else if (u < 0x10000) { r += (char)(0xE0 | u >> 12); r += (char)(0x80 | (u >> 6 & 63)); r += (char)(0x80 | (u & 63)); }
        else { r += (char)(0xF0 | u >> 18); r += (char)(0x80 | (u >> 12 & 63)); r += (char)(0x80 | (u >> 6 & 63)); r += (char)(0x80 | (u & 63)); }
    }
    if (trim) while (!r.empty() && r.back() == ' ') r.pop_back();
    return r;
}
} // namespace vt
