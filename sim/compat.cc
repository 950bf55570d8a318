// Calls that neither the present sources nor the checks need, but that an equivalent rewrite of the sources may use.
#include "internal.h"
#include <string.h>
#include <algorithm>
extern "C" {
DWORD WINAPI WaitForSingleObjectEx(HANDLE h, DWORD ms, WINBOOL) { return WaitForSingleObject(h, ms); }
DWORD WINAPI WaitForMultipleObjectsEx(DWORD n, CONST HANDLE *h, WINBOOL all, DWORD ms, WINBOOL) { return WaitForMultipleObjects(n, h, all, ms); }
WINBOOL WINAPI QueryPerformanceFrequency(LARGE_INTEGER *v) { v->QuadPart = 1000; return TRUE; }
WINBOOL WINAPI QueryPerformanceCounter(LARGE_INTEGER *v) { API("QueryPerformanceCounter"); v->QuadPart = (long long)g.now; return TRUE; }
ULONGLONG WINAPI GetTickCount64() { API("GetTickCount64"); return g.now; }
HANDLE WINAPI CreateEventA(LPSECURITY_ATTRIBUTES sa, WINBOOL manual, WINBOOL initial, LPCSTR) { return CreateEventW(sa, manual, initial, NULL); }
WINBOOL WINAPI SwitchToThread() { Sleep(0); return TRUE; }
DWORD WINAPI SleepEx(DWORD ms, WINBOOL) { Sleep(ms); return 0; }
int WINAPI lstrlenA(LPCSTR s) { return s ? (int)strlen(s) : 0; }
int WINAPI lstrlenW(LPCWSTR w) { auto s = (const char16_t *)w; int n = 0; while (s && s[n]) ++n; return n; }
int WINAPI lstrcmpW(LPCWSTR a, LPCWSTR b) { auto x = (const char16_t *)a, y = (const char16_t *)b; while (*x && *x == *y) ++x, ++y; return (int)*x - (int)*y; }
void WINAPI OutputDebugStringA(LPCSTR) {}
void WINAPI OutputDebugStringW(LPCWSTR) {}
HANDLE WINAPI GetProcessHeap() { return (HANDLE)1; }
LPVOID WINAPI HeapAlloc(HANDLE, DWORD f, SIZE_T n) { return f & HEAP_ZERO_MEMORY ? calloc(1, n ? n : 1) : malloc(n ? n : 1); }
WINBOOL WINAPI HeapFree(HANDLE, DWORD, LPVOID p) { free(p); return TRUE; }
DWORD WINAPI GetEnvironmentVariableW(LPCWSTR n, LPWSTR buf, DWORD sz) {
    std::string a; for (auto s = (const char16_t *)n; *s; ++s) a += (char)*s; std::vector<char> b(sz ? sz : 1); DWORD r = GetEnvironmentVariableA(a.c_str(), b.data(), sz);
    if (r && r < sz) for (DWORD i = 0; i <= r; ++i) ((char16_t *)buf)[i] = (unsigned char)b[i]; return r;
}
static WINBOOL readCells(HANDLE h, DWORD n, COORD at, LPDWORD got, void (*put)(void *, DWORD, const CHAR_INFO &), void *out) {
    CONSOLE_SCREEN_BUFFER_INFO i; if (!GetConsoleScreenBufferInfo(h, &i)) return FALSE; DWORD k = 0;
    for (; k < n; ++k) { int p = at.Y * i.dwSize.X + at.X + (int)k; SHORT x = (SHORT)(p % i.dwSize.X), y = (SHORT)(p / i.dwSize.X); if (y >= i.dwSize.Y) break; CHAR_INFO c; SMALL_RECT r = {x, y, x, y}; COORD one = {1, 1}, z = {0, 0}; if (!ReadConsoleOutputW(h, &c, one, z, &r)) return FALSE; put(out, k, c); }
    *got = k; return TRUE;
}
WINBOOL WINAPI ReadConsoleOutputCharacterW(HANDLE h, LPWSTR s, DWORD n, COORD at, LPDWORD got) { return readCells(h, n, at, got, [](void *o, DWORD k, const CHAR_INFO &c) { ((char16_t *)o)[k] = c.Char.UnicodeChar; }, s); }
WINBOOL WINAPI ReadConsoleOutputAttribute(HANDLE h, LPWORD s, DWORD n, COORD at, LPDWORD got) { return readCells(h, n, at, got, [](void *o, DWORD k, const CHAR_INFO &c) { ((WORD *)o)[k] = c.Attributes; }, s); }
}
// 16-bit wide strings
extern "C" {
typedef char16_t W;
static W low(W c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
size_t __wrap_wcsnlen(const W *s, size_t n) { size_t k = 0; while (k < n && s[k]) ++k; return k; }
W *__wrap_wcsncpy(W *d, const W *s, size_t n) { size_t i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; for (; i < n; ++i) d[i] = 0; return d; }
W *__wrap_wcscat(W *d, const W *s) { W *r = d; while (*d) ++d; while ((*d++ = *s++)) {} return r; }
W *__wrap_wcsncat(W *d, const W *s, size_t n) { W *r = d; while (*d) ++d; while (n-- && *s) *d++ = *s++; *d = 0; return r; }
W *__wrap_wcsstr(const W *s, const W *t) { for (;; ++s) { size_t i = 0; while (t[i] && s[i] == t[i]) ++i; if (!t[i]) return (W *)s; if (!*s) return nullptr; } }
W *__wrap_wcspbrk(const W *s, const W *t) { for (; *s; ++s) for (auto p = t; *p; ++p) if (*p == *s) return (W *)s; return nullptr; }
size_t __wrap_wcsspn(const W *s, const W *t) { size_t n = 0; for (; s[n]; ++n) { auto p = t; while (*p && *p != s[n]) ++p; if (!*p) break; } return n; }
size_t __wrap_wcscspn(const W *s, const W *t) { size_t n = 0; for (; s[n]; ++n) { auto p = t; while (*p && *p != s[n]) ++p; if (*p) break; } return n; }
long __wrap_wcstol(const W *s, W **e, int b) { std::string a; for (auto p = s; *p; ++p) a += *p < 128 ? (char)*p : '?'; char *x; long r = strtol(a.c_str(), &x, b); if (e) *e = (W *)s + (x - a.c_str()); return r; }
int _wcsicmp(const W *a, const W *b) { while (*a && low(*a) == low(*b)) ++a, ++b; return (int)low(*a) - (int)low(*b); }
int _wcsnicmp(const W *a, const W *b, size_t n) { for (; n; --n, ++a, ++b) if (low(*a) != low(*b) || !*a) return (int)low(*a) - (int)low(*b); return 0; }
int _stricmp(const char *a, const char *b) { return strcasecmp(a, b); }
int _strnicmp(const char *a, const char *b, size_t n) { return strncasecmp(a, b, n); }
}
