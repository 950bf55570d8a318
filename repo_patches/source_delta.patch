From 1b54ef3548002ae90ed214f78e16e4affba2be2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:39 +0000
Subject: [PATCH 01/19] fix: notice window movement before the first scrape

---
 src/agent/Scraper.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/agent/Scraper.cc b/src/agent/Scraper.cc
index 21f9c67..00434a3 100755
--- a/src/agent/Scraper.cc
+++ b/src/agent/Scraper.cc
@@ -86,6 +86,10 @@ Scraper::Scraper(
     buffer.setTextAttribute(Win32ConsoleBuffer::kDefaultAttributes);
     buffer.clearAllLines(m_consoleBuffer->bufferInfo());
 
+    // The terminal starts out showing the window at its initial position, so
+    // a window that has moved by the time of the first scrape is dirty.
+    m_dirtyWindowTop = 0;
+
     m_consoleBuffer = nullptr;
 }
 
-- 
2.43.0


From 95d245f32a81d2c44aceb5254be2e2f96abaeb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:41 +0000
Subject: [PATCH 02/19] fix: do not forget that the terminal cursor is hidden
 when restarting the screen

---
 src/agent/Terminal.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/agent/Terminal.cc b/src/agent/Terminal.cc
index afa0a36..a8dbc44 100644
--- a/src/agent/Terminal.cc
+++ b/src/agent/Terminal.cc
@@ -311,7 +311,6 @@ void Terminal::reset(SendClearFlag sendClearFirst, int64_t newLine)
     m_remoteLine = newLine;
     m_remoteColumn = 0;
     m_lineData.clear();
-    m_cursorHidden = false;
     m_remoteColor = -1;
 }
 
-- 
2.43.0


From 0026cfc492eb67428a7e7d76430f724fb83d93e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:55 +0000
Subject: [PATCH 03/19] fix: resend a line whose last cell was the first half
 of a character

---
 src/agent/Terminal.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/agent/Terminal.cc b/src/agent/Terminal.cc
index a8dbc44..99e975d 100644
--- a/src/agent/Terminal.cc
+++ b/src/agent/Terminal.cc
@@ -337,7 +337,14 @@ void Terminal::sendLine(int64_t line, const CHAR_INFO *lineData, int width,
             } else {
                 okWidth = static_cast<size_t>(width) > m_lineData.size();
             }
-            if (!okWidth ||
+            // If the output ends with the first half of a surrogate pair or of
+            // a full-width character, then the next cell may complete it, so
+            // the last character must be output again.
+            const CHAR_INFO &lastCell = m_lineData.back();
+            const bool endsInsideChar =
+                (lastCell.Char.UnicodeChar & 0xFC00) == 0xD800 ||
+                (lastCell.Attributes & WINPTY_COMMON_LVB_LEADING_BYTE);
+            if (!okWidth || endsInsideChar ||
                     memcmp(m_lineData.data(), lineData,
                            sizeof(CHAR_INFO) * m_lineData.size()) != 0) {
                 m_lineDataValid = false;
-- 
2.43.0


From 02ce6f4ababa6d14e8797fd73714aa0a4c32430e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:33 +0000
Subject: [PATCH 04/19] fix: scrape the resized window after a resize in direct
 mode

---
 src/agent/Scraper.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/agent/Scraper.cc b/src/agent/Scraper.cc
index 00434a3..f1843c9 100755
--- a/src/agent/Scraper.cc
+++ b/src/agent/Scraper.cc
@@ -337,7 +337,7 @@ void Scraper::syncConsoleContentAndSize(
         m_console.setFrozen(true);
     }
 
-    const ConsoleScreenBufferInfo info = m_consoleBuffer->bufferInfo();
+    ConsoleScreenBufferInfo info = m_consoleBuffer->bufferInfo();
     bool cursorVisible = true;
     CONSOLE_CURSOR_INFO cursorInfo = {};
     if (!GetConsoleCursorInfo(GetStdHandle(STD_OUTPUT_HANDLE), &cursorInfo)) {
@@ -368,6 +368,9 @@ void Scraper::syncConsoleContentAndSize(
         // before scraping.
         if (forceResize) {
             resizeImpl(info);
+            // The window has moved, and it may have been outside what is left
+            // of the buffer.
+            info = m_consoleBuffer->bufferInfo();
         }
         directScrapeOutput(info, cursorVisible);
     } else {
-- 
2.43.0


From 6bd15b5bbd7eeea664dc19c4b59a77af3e13a91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:33 +0000
Subject: [PATCH 05/19] fix: take the cursor visibility from the scraped screen
 buffer

---
 src/agent/Scraper.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/agent/Scraper.cc b/src/agent/Scraper.cc
index f1843c9..7a39657 100755
--- a/src/agent/Scraper.cc
+++ b/src/agent/Scraper.cc
@@ -340,7 +340,7 @@ void Scraper::syncConsoleContentAndSize(
     ConsoleScreenBufferInfo info = m_consoleBuffer->bufferInfo();
     bool cursorVisible = true;
     CONSOLE_CURSOR_INFO cursorInfo = {};
-    if (!GetConsoleCursorInfo(GetStdHandle(STD_OUTPUT_HANDLE), &cursorInfo)) {
+    if (!GetConsoleCursorInfo(m_consoleBuffer->conout(), &cursorInfo)) {
         trace("GetConsoleCursorInfo failed");
     } else {
         cursorVisible = cursorInfo.bVisible != 0;
-- 
2.43.0


From a768dbd0a7ea397ea4360589652143334d671ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:14 +0000
Subject: [PATCH 06/19] fix: resize the buffer before scraping it when leaving
 direct mode

---
 src/agent/Scraper.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/agent/Scraper.cc b/src/agent/Scraper.cc
index 7a39657..7424441 100755
--- a/src/agent/Scraper.cc
+++ b/src/agent/Scraper.cc
@@ -356,10 +356,14 @@ void Scraper::syncConsoleContentAndSize(
         m_directMode = newDirectMode;
 
         // When we switch from direct->scrolling mode, make sure the console is
-        // the right size.
+        // the right size.  Do it before scraping:  if the terminal was resized
+        // in direct mode, then this buffer's lines might not fit on it.
         if (!m_directMode) {
             m_console.setFrozen(true);
-            forceResize = true;
+            resizeImpl(info);
+            info = m_consoleBuffer->bufferInfo();
+            resetConsoleTracking(Terminal::OmitClear, info.windowRect().top());
+            forceResize = false;
         }
     }
 
-- 
2.43.0


From 3594be8ff0f68b2f2b8ded1da74c4258313257da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:44 +0000
Subject: [PATCH 07/19] fix: do not append to a line that was full before the
 terminal was widened

---
 src/agent/Terminal.cc | 8 ++++++--
 src/agent/Terminal.h  | 1 +
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/agent/Terminal.cc b/src/agent/Terminal.cc
index 99e975d..a9fc108 100644
--- a/src/agent/Terminal.cc
+++ b/src/agent/Terminal.cc
@@ -328,14 +328,17 @@ void Terminal::sendLine(int64_t line, const CHAR_INFO *lineData, int width,
         if (m_remoteColumn > 0) {
             // In normal mode, if m_lineData.size() equals `width`, then we
             // will have trouble outputing the "erase rest of line" command,
-            // which must be output before reaching the end of the line.  In
+            // which must be output before reaching the end of the line.  If
+            // the line was full when it was output, and it is wider now, then
+            // the remote cursor is not after the last cell but on it.  In
             // plain mode, we don't output that command, so we're OK with a
             // full line.
             bool okWidth = false;
             if (m_plainMode) {
                 okWidth = static_cast<size_t>(width) >= m_lineData.size();
             } else {
-                okWidth = static_cast<size_t>(width) > m_lineData.size();
+                okWidth = static_cast<size_t>(width) > m_lineData.size() &&
+                          m_lineWidth != m_lineData.size();
             }
             // If the output ends with the first half of a surrogate pair or of
             // a full-width character, then the next cell may complete it, so
@@ -434,6 +437,7 @@ void Terminal::sendLine(int64_t line, const CHAR_INFO *lineData, int width,
     m_lineData.insert(m_lineData.end(),
                       &lineData[m_lineData.size()],
                       &lineData[trimmedCellCount]);
+    m_lineWidth = width;
     m_remoteColumn = trimmedCellCount;
 }
 
diff --git a/src/agent/Terminal.h b/src/agent/Terminal.h
index 058eb26..53c9c9b 100644
--- a/src/agent/Terminal.h
+++ b/src/agent/Terminal.h
@@ -58,6 +58,7 @@ private:
     int m_remoteColumn = 0;
     bool m_lineDataValid = true;
     std::vector<CHAR_INFO> m_lineData;
+    size_t m_lineWidth = 0;
     bool m_cursorHidden = false;
     int m_remoteColor = -1;
     std::string m_termLineWorkingBuffer;
-- 
2.43.0


From 83bfc772d76b0bf23bbe9f98c24b55e9cdaf3baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:54 +0000
Subject: [PATCH 08/19] fix: in plain mode, end the current line when the
 terminal is reset

There is no way to clear the screen in plain mode.  The text after the
reset was appended to the line that was current before it.
---
 src/agent/Terminal.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/agent/Terminal.cc b/src/agent/Terminal.cc
index a9fc108..4903ace 100644
--- a/src/agent/Terminal.cc
+++ b/src/agent/Terminal.cc
@@ -302,7 +302,10 @@ static inline void scanUnicodeScalarValue(
 
 void Terminal::reset(SendClearFlag sendClearFirst, int64_t newLine)
 {
-    if (sendClearFirst == SendClear && !m_plainMode) {
+    if (sendClearFirst == SendClear && m_plainMode && m_remoteColumn > 0) {
+        // We can't clear, so end the current line instead.
+        m_output.write("\r\n");
+    } else if (sendClearFirst == SendClear && !m_plainMode) {
         // 0m   ==> reset SGR parameters
         // 1;1H ==> move cursor to top-left position
         // 2J   ==> clear the entire screen
-- 
2.43.0


From 1e0d7c95333dfa691b7ab27f76626f10e80b287a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:34 +0000
Subject: [PATCH 09/19] fix: clamp mouse coordinates before storing them in a
 SHORT

A coordinate above 32768 wrapped around, so the event was reported at the
opposite edge of the window.
---
 src/agent/ConsoleInput.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/agent/ConsoleInput.cc b/src/agent/ConsoleInput.cc
index 192cac2..a2467e5 100644
--- a/src/agent/ConsoleInput.cc
+++ b/src/agent/ConsoleInput.cc
@@ -102,6 +102,13 @@ const unsigned int kIncompleteEscapeTimeoutMs = 1000u;
             }                                       \
         } while(0)
 
+// Convert a 1-based mouse coordinate.  The coordinates are clamped to the
+// window later, so the exact value of a far-away one doesn't matter.
+static SHORT mouseCoord(int32_t value)
+{
+    return std::max<int32_t>(-0x8000, std::min<int32_t>(value - 1, 0x7FFF));
+}
+
 // Match the Device Status Report console input:  ESC [ nn ; mm R
 // Returns:
 // 0   no match
@@ -147,9 +154,9 @@ static int matchMouse1006(const char *input, int inputSize, MouseRecord &out)
     CHECK(*pch == '<');         ADVANCE();
     SCAN_INT(out.flags, 8);
     CHECK(*pch == ';');         ADVANCE();
-    SCAN_SIGNED_INT(temp, 8); out.coord.X = temp - 1;
+    SCAN_SIGNED_INT(temp, 8); out.coord.X = mouseCoord(temp);
     CHECK(*pch == ';');         ADVANCE();
-    SCAN_SIGNED_INT(temp, 8); out.coord.Y = temp - 1;
+    SCAN_SIGNED_INT(temp, 8); out.coord.Y = mouseCoord(temp);
     CHECK(*pch == 'M' || *pch == 'm');
     out.release = (*pch == 'm');
     return pch - input + 1;
@@ -164,9 +171,9 @@ static int matchMouse1015(const char *input, int inputSize, MouseRecord &out)
     CHECK(*pch == '[');         ADVANCE();
     SCAN_INT(out.flags, 8); out.flags -= 32;
     CHECK(*pch == ';');         ADVANCE();
-    SCAN_SIGNED_INT(temp, 8); out.coord.X = temp - 1;
+    SCAN_SIGNED_INT(temp, 8); out.coord.X = mouseCoord(temp);
     CHECK(*pch == ';');         ADVANCE();
-    SCAN_SIGNED_INT(temp, 8); out.coord.Y = temp - 1;
+    SCAN_SIGNED_INT(temp, 8); out.coord.Y = mouseCoord(temp);
     CHECK(*pch == 'M');
     out.release = false;
     return pch - input + 1;
-- 
2.43.0


From 56bf0313e9240e97271335ea9856101c1fb2a318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:34 +0000
Subject: [PATCH 10/19] fix: a malformed UTF-8 character must not swallow the
 input after it

Discard only the bytes up to the first one that is not a continuation byte,
rather than as many bytes as the first byte calls for.
---
 src/agent/ConsoleInput.cc | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/agent/ConsoleInput.cc b/src/agent/ConsoleInput.cc
index a2467e5..eb31156 100644
--- a/src/agent/ConsoleInput.cc
+++ b/src/agent/ConsoleInput.cc
@@ -384,6 +384,17 @@ static void sendKeyMessage(HWND hwnd, bool isKeyDown, uint16_t virtualKey)
         (scanCode << 16) | 1u | (isKeyDown ? 0u : 0xc0000000u));
 }
 
+// Return the number of bytes at the start of the input that can be part of a
+// single UTF-8 character of the given length (according to its first byte).
+static int utf8PrefixLength(const char *input, int inputSize, int charLen)
+{
+    int len = 1;
+    while (len < charLen && len < inputSize && (input[len] & 0xC0) == 0x80) {
+        ++len;
+    }
+    return len;
+}
+
 int ConsoleInput::scanInput(std::vector<INPUT_RECORD> &records,
                             const char *input,
                             int inputSize,
@@ -463,6 +474,12 @@ int ConsoleInput::scanInput(std::vector<INPUT_RECORD> &records,
     if (input[0] == '\x1B' && inputSize >= 2 && input[1] != '\x1B') {
         const int len = utf8CharLength(input[1]);
         if (len > 0) {
+            const int prefix =
+                utf8PrefixLength(&input[1], inputSize - 1, len);
+            if (prefix < len && 1 + prefix < inputSize) {
+                // Discard the malformed character, but not what follows it.
+                return 1 + prefix;
+            }
             if (1 + len > inputSize) {
                 // Incomplete character.
                 trace("Incomplete UTF-8 character in Alt-<Char>");
@@ -483,6 +500,11 @@ int ConsoleInput::scanInput(std::vector<INPUT_RECORD> &records,
         }
         return 1;
     }
+    const int prefix = utf8PrefixLength(input, inputSize, len);
+    if (prefix < len && prefix < inputSize) {
+        // Discard the malformed character, but not what follows it.
+        return prefix;
+    }
     if (len > inputSize) {
         // Incomplete character.
         trace("Incomplete UTF-8 character");
-- 
2.43.0


From d4b84e1a5d939d7a91e78ac8449bc6fc9f14a0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:34 +0000
Subject: [PATCH 11/19] fix: recognize the DSR reply after a pending ESC

ESC ESC [ 1 ; n R is also the encoding of Alt-Mod-F3, so the reply to the
query sent for a lone ESC was taken for that key if the cursor was on the
first row.
---
 src/agent/ConsoleInput.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/agent/ConsoleInput.cc b/src/agent/ConsoleInput.cc
index eb31156..316116c 100644
--- a/src/agent/ConsoleInput.cc
+++ b/src/agent/ConsoleInput.cc
@@ -434,6 +434,13 @@ int ConsoleInput::scanInput(std::vector<INPUT_RECORD> &records,
             return -1;
         }
 
+        // A pending ESC followed by the awaited DSR reply is an ESC keypress.
+        // (The map could match the two as Alt-Mod-F3.)
+        if (m_dsrSent && inputSize >= 2 && matchDsr(&input[1], inputSize - 1) > 0) {
+            appendUtf8Char(records, input, 1, false);
+            return 1;
+        }
+
         int mouseLen = scanMouseInput(records, input, inputSize);
         if (mouseLen > 0 || (!isEof && mouseLen == -1)) {
             return mouseLen;
-- 
2.43.0


From 01436eadc45530850cd6892f4c5422cc2b32ffd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:54 +0000
Subject: [PATCH 12/19] fix: read the whole process list reply when the
 caller's array is too small

---
 src/libwinpty/winpty.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/libwinpty/winpty.cc b/src/libwinpty/winpty.cc
index 3d97749..9ed803d 100644
--- a/src/libwinpty/winpty.cc
+++ b/src/libwinpty/winpty.cc
@@ -950,9 +950,12 @@ winpty_get_console_process_list(winpty_t *wp, int *processList, const int proces
 
         auto actualProcessCount = reply.getInt32();
 
-        if (actualProcessCount <= processCount) {
-            for (auto i = 0; i < actualProcessCount; i++) {
-                processList[i] = reply.getInt32();
+        // Always consume the whole reply, even if the list doesn't fit into the
+        // caller's array.
+        for (auto i = 0; i < actualProcessCount; i++) {
+            const auto pid = reply.getInt32();
+            if (actualProcessCount <= processCount) {
+                processList[i] = pid;
             }
         }
 
-- 
2.43.0


From 4aa4ef1b3df0dbbfbd3ccf29b60f6deb6048410b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:54 +0000
Subject: [PATCH 13/19] fix: check a string's length against the RPC packet
 before allocating it

---
 src/shared/Buffer.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/shared/Buffer.cc b/src/shared/Buffer.cc
index 158a629..4533e4c 100644
--- a/src/shared/Buffer.cc
+++ b/src/shared/Buffer.cc
@@ -86,7 +86,8 @@ int64_t ReadBuffer::getInt64() {
 std::wstring ReadBuffer::getWString() {
     READ_BUFFER_CHECK(getRawValue<Piece>() == Piece::WString);
     const uint64_t charLen = getRawValue<uint64_t>();
-    READ_BUFFER_CHECK(charLen <= SIZE_MAX / sizeof(wchar_t));
+    ASSERT(m_off <= m_buf.size());
+    READ_BUFFER_CHECK(charLen <= (m_buf.size() - m_off) / sizeof(wchar_t));
     // To be strictly conforming, we can't use the convenient wstring
     // constructor, because the string in m_buf mightn't be aligned.
     std::wstring ret;
-- 
2.43.0


From 592d28d61dc408e88a5ab563bf8bba1ad77f6836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:31 +0000
Subject: [PATCH 14/19] fix: free the security item when the object that owns
 it cannot be allocated

---
 src/shared/WindowsSecurity.cc | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/shared/WindowsSecurity.cc b/src/shared/WindowsSecurity.cc
index 711a863..531106f 100644
--- a/src/shared/WindowsSecurity.cc
+++ b/src/shared/WindowsSecurity.cc
@@ -52,9 +52,22 @@ SecurityItem<T> localItem(typename T::type v) {
             LocalFree(reinterpret_cast<HLOCAL>(m_v));
         }
     };
-    return SecurityItem<T>(v, std::unique_ptr<Impl>(new Impl { v }));
+    PointerLocal owner(v);
+    std::unique_ptr<Impl> impl(new Impl { v });
+    owner.release();
+    return SecurityItem<T>(v, std::move(impl));
 }
 
+struct SidFreer {
+    void operator()(void *ptr) {
+        if (ptr != nullptr) {
+            FreeSid(reinterpret_cast<PSID>(ptr));
+        }
+    }
+};
+
+typedef std::unique_ptr<void, SidFreer> PointerSid;
+
 Sid allocatedSid(PSID v) {
     struct Impl : Sid::Impl {
         PSID m_v;
@@ -65,7 +78,10 @@ Sid allocatedSid(PSID v) {
             }
         }
     };
-    return Sid(v, std::unique_ptr<Impl>(new Impl { v }));
+    PointerSid owner(v);
+    std::unique_ptr<Impl> impl(new Impl { v });
+    owner.release();
+    return Sid(v, std::move(impl));
 }
 
 } // anonymous namespace
-- 
2.43.0


From ff18a5587160ce359032727177061fd7d2c4054c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:50 +0000
Subject: [PATCH 15/19] fix: keep an out-of-memory failure of the error trace
 inside the API

---
 src/libwinpty/winpty.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/libwinpty/winpty.cc b/src/libwinpty/winpty.cc
index 9ed803d..ec2439f 100644
--- a/src/libwinpty/winpty.cc
+++ b/src/libwinpty/winpty.cc
@@ -130,9 +130,13 @@ static void translateException(winpty_error_ptr_t *&err) {
     } catch (...) {
         ret = const_cast<winpty_error_ptr_t>(&kUncaughtException);
     }
-    trace("libwinpty error: code=%u msg='%s'",
-        static_cast<unsigned>(ret->code),
-        utf8FromWide(winpty_error_msg(ret)).c_str());
+    try {
+        trace("libwinpty error: code=%u msg='%s'",
+            static_cast<unsigned>(ret->code),
+            utf8FromWide(winpty_error_msg(ret)).c_str());
+    } catch (...) {
+        // Report the error even if there is no memory for tracing it.
+    }
     if (err != nullptr) {
         *err = ret;
     } else {
-- 
2.43.0


From 1a9951ef56c1e28a55684b5a6b74b9c77fb4ddba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:36 +0000
Subject: [PATCH 16/19] fix: fall back to the original desktop when the helper
 agent cannot create one

---
 src/agent/AgentCreateDesktop.cc | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/agent/AgentCreateDesktop.cc b/src/agent/AgentCreateDesktop.cc
index 9ad6503..7334048 100755
--- a/src/agent/AgentCreateDesktop.cc
+++ b/src/agent/AgentCreateDesktop.cc
@@ -20,6 +20,9 @@
 
 #include "AgentCreateDesktop.h"
 
+#include <memory>
+#include <string>
+
 #include "../shared/BackgroundDesktop.h"
 #include "../shared/Buffer.h"
 #include "../shared/DebugClient.h"
@@ -46,15 +49,25 @@ protected:
 private:
     void writePacket(WriteBuffer &packet);
 
-    BackgroundDesktop m_desktop;
+    std::unique_ptr<BackgroundDesktop> m_desktop;
     NamedPipe &m_pipe;
 };
 
 CreateDesktopLoop::CreateDesktopLoop(LPCWSTR controlPipeName) :
         m_pipe(createNamedPipe()) {
+    // If the desktop can't be created, report an empty name, and libwinpty
+    // starts the agent on the original desktop instead.
+    std::wstring desktopName;
+    try {
+        m_desktop.reset(new BackgroundDesktop);
+        desktopName = m_desktop->desktopName();
+    } catch (const WinptyException &e) {
+        trace("handleCreateDesktop: could not create the desktop: %s",
+            utf8FromWide(e.what()).c_str());
+    }
     m_pipe.connectToServer(controlPipeName, NamedPipe::OpenMode::Duplex);
     auto packet = newPacket();
-    packet.putWString(m_desktop.desktopName());
+    packet.putWString(desktopName);
     writePacket(packet);
 }
 
-- 
2.43.0


From 8ef41201abdd9297fad2916f2d0d6f2b8450564e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:03 +0000
Subject: [PATCH 17/19] fix: do not resize the console to an uninitialized size
 when stdin is not a tty

---
 src/unix-adapter/main.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/unix-adapter/main.cc b/src/unix-adapter/main.cc
index 992cb70..981d07c 100644
--- a/src/unix-adapter/main.cc
+++ b/src/unix-adapter/main.cc
@@ -687,8 +687,8 @@ int main(int argc, char *argv[])
         // Check for terminal resize.
         {
             winsize sz2;
-            ioctl(STDIN_FILENO, TIOCGWINSZ, &sz2);
-            if (memcmp(&sz, &sz2, sizeof(sz)) != 0) {
+            if (ioctl(STDIN_FILENO, TIOCGWINSZ, &sz2) == 0 &&
+                    memcmp(&sz, &sz2, sizeof(sz)) != 0) {
                 sz = sz2;
                 winpty_set_size(wp, sz.ws_col, sz.ws_row, NULL);
             }
-- 
2.43.0


From 6b647709398afd39e0ce052e29f221c6aa7a0b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:03 +0000
Subject: [PATCH 18/19] fix: notice a terminal resize that happens before the
 SIGWINCH handler is registered

---
 src/unix-adapter/main.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/unix-adapter/main.cc b/src/unix-adapter/main.cc
index 981d07c..a7a6328 100644
--- a/src/unix-adapter/main.cc
+++ b/src/unix-adapter/main.cc
@@ -667,6 +667,8 @@ int main(int argc, char *argv[])
     }
 
     registerResizeSignalHandler();
+    // The terminal could have been resized before the handler was registered.
+    mainWakeup().set();
     SavedTermiosMode mode =
         setRawTerminalMode(args.testAllowNonTtys, true, args.testConerr);
 
-- 
2.43.0


From ac78470b167fbe5475938ad9e0c7ccde25df16b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:54 +0000
Subject: [PATCH 19/19] fix: keep the debug server running when a client
 connects before ConnectNamedPipe

A client that connects between CreateNamedPipeW and the first
ConnectNamedPipe call (or also writes and closes its end) made
ConnectNamedPipe fail with ERROR_PIPE_CONNECTED or ERROR_NO_DATA, and the
server exited.
---
 src/debugserver/DebugServer.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/debugserver/DebugServer.cc b/src/debugserver/DebugServer.cc
index 353d31c..3f8599e 100644
--- a/src/debugserver/DebugServer.cc
+++ b/src/debugserver/DebugServer.cc
@@ -94,7 +94,11 @@ int main(int argc, char *argv[]) {
     char msgBuffer[MSG_SIZE + 1];
 
     while (true) {
-        if (!ConnectNamedPipe(serverPipe, nullptr)) {
+        // A client can connect (and even write and close its end) before this
+        // call, and then it fails, but there is a message to be read.
+        if (!ConnectNamedPipe(serverPipe, nullptr) &&
+                GetLastError() != ERROR_PIPE_CONNECTED &&
+                GetLastError() != ERROR_NO_DATA) {
             fprintf(stderr, "error: ConnectNamedPipe failed\n");
             fflush(stderr);
             exit(1);
-- 
2.43.0

