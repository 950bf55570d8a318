// What console programs do to their screen buffer (generator of drawing operations).
#pragma once
#include "model/session.h"
namespace draw {
using namespace sim;
struct Kinds { bool wide = true, colors = true, lvb = false, clears = true, moves = true, bigOutput = true, cursorVis = true, ctrlGlyphs = false; int maxLines = 300; };
// Adds one generated operation to the app. Returns how many lines it can scroll at most.
int addOp(pbt::Ctx &c, session::App &a, std::shared_ptr<Buffer> b, const Kinds &k);
std::u16string genText(pbt::Ctx &c, int maxLen, bool wide, bool ctrlGlyphs = false);   // 0xFFFF prefix marks nothing; wide chars are written with putWide
void writeText(Buffer &b, const std::u16string &s);
uint16_t genAttr(pbt::Ctx &c, bool lvb);
void cls(Buffer &b);
void scrollRegion(Buffer &b, int y0, int y1, int dy);
void fillChars(Buffer &b, int x, int y, int n, uint16_t ch, int attr);
}
