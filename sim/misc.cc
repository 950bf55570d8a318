// Processes, desktops, security descriptors, modules, random numbers, strings.
#include "internal.h"
#include <aclapi.h>
#include <wincrypt.h>
#include "../engine/pbt.h"
#include <algorithm>

namespace sim {
void *consoleProc(const char *n);
void *localAlloc(size_t n, const char *what) { void *p = calloc(1, n ? n : 1); g->cur->proc->local[p] = {n, what}; return p; }
bool localFree(void *p) {
    auto &m = g->cur->proc->local;
    auto it = m.find(p);
    if (it == m.end()) { g->problem("%s: freed memory %p it does not own", g->cur->proc->name.c_str(), p); return false; }
    m.erase(it); free(p); return true;
}
static size_t sidLen(const uint8_t *s) { return 8 + 4 * s[1]; }
std::string sidStr(const void *v) {
    const uint8_t *s = (const uint8_t *)v;
    uint64_t auth = 0; for (int i = 2; i < 8; ++i) auth = auth << 8 | s[i];
    std::string r = "S-" + std::to_string(s[0]) + "-" + std::to_string(auth);
    for (int i = 0; i < s[1]; ++i) { uint32_t a; memcpy(&a, s + 8 + 4 * i, 4); r += "-" + std::to_string(a); }
    return r;
}
static const uint8_t kOwnerSid[] = {1, 5, 0,0,0,0,0,5, 21,0,0,0, 0x11,0x22,0x33,0x44, 0x55,0x66,0x77,0x08, 0x12,0x34,0x56,0x78, 0xE9,3,0,0};
std::string World::ownerSid() { return sidStr(kOwnerSid); }
void parseSd(void *sdp, PipeRec &rec) {
    auto *sd = (SECURITY_DESCRIPTOR *)sdp;
    rec.daclPresent = (sd->Control & SE_DACL_PRESENT) != 0;
    ACL *acl = sd->Dacl;
    if (!rec.daclPresent || !acl) return;
    char *p = (char *)(acl + 1);
    for (int i = 0; i < acl->AceCount; ++i) {
        auto *ace = (ACCESS_ALLOWED_ACE *)p;
        PipeRec::Ace a; a.type = ace->Header.AceType; a.flags = ace->Header.AceFlags; a.mask = ace->Mask; a.sid = sidStr(&ace->SidStart);
        rec.aces.push_back(a); p += ace->Header.AceSize;
    }
}
static std::shared_ptr<Desktop> findDesktop(const U16 &full, Process *p) {
    U16 ws, d = full; size_t k = full.find(u'\\');
    if (k != U16::npos) { ws = full.substr(0, k); d = full.substr(k + 1); }
    for (auto &x : g->desktops) if (!x->destroyed && lower(x->name) == lower(d) && (ws.empty() ? x->ws == p->winsta : lower(x->ws->name) == lower(ws))) return x;
    return nullptr;
}
static void reapDesktops() {
    for (auto &d : g->desktops) if (!d->destroyed && d->name != u"") {
        if (d == g->desktops[0]) continue;
        bool used = d->handles > 0;
        for (auto &p : g->procs) if (!p->exited && p->desktop == d) used = true;
        if (!used) d->destroyed = true;
    }
}
static U16 parseExe(const U16 &cmd) {
    if (!cmd.empty() && cmd[0] == '"') { size_t k = cmd.find(u'"', 1); return cmd.substr(1, k == U16::npos ? k : k - 1); }
    return cmd.substr(0, cmd.find(u' '));
}
} // namespace sim
using namespace sim;

extern "C" {
// ---- processes
WINBOOL WINAPI CreateProcessW(LPCWSTR app, LPWSTR cmd, LPSECURITY_ATTRIBUTES, LPSECURITY_ATTRIBUTES, WINBOOL inherit, DWORD flags, LPVOID env, LPCWSTR cwd, LPSTARTUPINFOW si, LPPROCESS_INFORMATION pi) {
    API_F("CreateProcessW", FALSE);
    CreateRec r; r.callerPid = me->pid; r.flags = flags; r.inherit = inherit;
    if (app) { r.hasApp = true; r.app = toU16(app); }
    if (cmd) { r.hasCmd = true; r.cmd = toU16(cmd); cmd[0] = cmd[0]; }
    if (cwd) { r.hasCwd = true; r.cwd = toU16(cwd); }
    if (env) {
        r.hasEnv = true; const char16_t *p = (const char16_t *)env;
        if (!(flags & CREATE_UNICODE_ENVIRONMENT)) g.problem("%s: CreateProcessW with a wide environment but without CREATE_UNICODE_ENVIRONMENT", me->name.c_str());
        size_t n = 0; while (p[n] || p[n + 1]) n++;
        r.env.assign(p, n + 2);
    }
    if (si->lpDesktop) { r.hasDesktop = true; r.desktop = toU16(si->lpDesktop); }
    r.suiFlags = si->dwFlags; r.showWindow = si->wShowWindow;
    r.hStdIn = hv(si->hStdInput); r.hStdOut = hv(si->hStdOutput); r.hStdErr = hv(si->hStdError);
    if (si->cb != sizeof(STARTUPINFOW)) g.problem("%s: STARTUPINFOW.cb is wrong", me->name.c_str());
    if (!app && !cmd) { r.err = ERROR_INVALID_PARAMETER; g.creates.push_back(r); setErr(r.err); return FALSE; }
    U16 exe = lower(app ? toU16(app) : parseExe(r.cmd));
    bool isAgent = exe.size() >= 16 && exe.compare(exe.size() - 16, 16, u"winpty-agent.exe") == 0;
    if (!isAgent && g.onSpawn) r.err = g.onSpawn(r);
    if (r.err) { g.creates.push_back(r); setErr(r.err); return FALSE; }
    auto c = g.newProcess(isAgent ? "agent" : "child", me);
    r.ok = true; r.child = c.get(); c->cmdline = r.cmd; c->isAgent = isAgent;
    if (r.hasDesktop && !r.desktop.empty()) {
        auto d = findDesktop(r.desktop, me);
        if (!d) { g.problem("%s started a process on desktop '%s', which does not exist", me->name.c_str(), u8(r.desktop).c_str()); }
        c->desktop = d; c->winsta = d ? d->ws : nullptr;
    }
    if (c->winsta) { c->hWinsta = g.addHandle(c.get(), c->winsta, "initial winsta"); c->hDesktop = g.addHandle(c.get(), c->desktop, "initial desktop"); }
    if (inherit) {
        auto t = me->table;
        for (auto &kv : t) if (kv.second.inherit) {
            HandleEnt e = kv.second; e.origin = "inherited"; e.obj->handles++; c->table[kv.first] = e;
        }
        c->nextHandle = std::max(c->nextHandle, me->nextHandle);
    }
    Console *con = nullptr;
    if (flags & CREATE_NEW_CONSOLE) con = g.newConsole();
    else if (!(flags & DETACHED_PROCESS)) con = me->con;
    if (con) {
        g.attach(c.get(), con);
        bool useStd = (r.suiFlags & STARTF_USESTDHANDLES) != 0;
        if (useStd) {
            auto take = [&](uint64_t h, const char *n) -> uint64_t { if (inherit && c->table.count(h)) return h; g.problem("%s: standard handle %s given to the child is not inheritable", me->name.c_str(), n); return 0; };
            c->stdIn = take(r.hStdIn, "input"); c->stdOut = take(r.hStdOut, "output"); c->stdErr = take(r.hStdErr, "error");
        } else {
            c->stdIn = g.addHandle(c.get(), con->in, "std", true);
            c->stdOut = g.addHandle(c.get(), con->active, "std", true);
            c->stdErr = g.addHandle(c.get(), con->active, "std", true);
        }
    }
    c->create = r;
    g.creates.push_back(r);
    auto th = std::make_shared<ThreadObj>(); th->proc = c.get();
    pi->hProcess = vh(g.addHandle(me, c, "CreateProcess process"));
    pi->hThread = vh(g.addHandle(me, th, "CreateProcess thread"));
    pi->dwProcessId = c->pid; pi->dwThreadId = g.nextTid++;
    if (isAgent) { Process *cp = c.get(); g.startThread(cp, [cp] { runAgentEntry(cp); }); }
    else if (g.onChild) g.onChild(c.get());
    return TRUE;
}
WINBOOL WINAPI TerminateProcess(HANDLE h, UINT code) { API("TerminateProcess"); auto p = objOf<Process>(h); if (!p) return FALSE; g.killProcess(p.get(), code, true); return TRUE; }
WINBOOL WINAPI GetExitCodeProcess(HANDLE h, LPDWORD c) { API("GetExitCodeProcess"); auto p = objOf<Process>(h); if (!p) return FALSE; *c = p->exited ? p->exitCode : 259; return TRUE; }
DWORD WINAPI GetProcessId(HANDLE h) { API("GetProcessId"); auto p = objOf<Process>(h); return p ? p->pid : 0; }
LPWSTR WINAPI GetCommandLineW(void) { API("GetCommandLineW"); U16 &c = me->cmdline; c.reserve(c.size() + 1); return (LPWSTR)c.c_str(); }
LPWSTR *WINAPI CommandLineToArgvW(LPCWSTR s, int *n) {
    API_F("CommandLineToArgvW", NULL);
    std::vector<U16> v; const char16_t *p = (const char16_t *)s;
    { U16 a; if (*p == '"') { ++p; while (*p && *p != '"') a += *p++; if (*p) ++p; } else while (*p && *p > ' ') a += *p++; v.push_back(a); }
    for (;;) {
        while (*p == ' ' || *p == '\t') ++p;
        if (!*p) break;
        U16 a; bool q = false;
        while (*p && (q || (*p != ' ' && *p != '\t'))) {
            int bs = 0; while (*p == '\\') { ++bs; ++p; }
            if (*p == '"') { a.append(bs / 2, u'\\'); if (bs & 1) { a += u'"'; ++p; } else if (q && p[1] == '"') { a += u'"'; p += 2; q = false; } else { q = !q; ++p; } }
            else { a.append(bs, u'\\'); if (*p && (q || (*p != ' ' && *p != '\t'))) a += *p++; }
        }
        v.push_back(a);
    }
    size_t total = sizeof(LPWSTR) * (v.size() + 1); for (auto &a : v) total += 2 * (a.size() + 1);
    char *m = (char *)localAlloc(total, "CommandLineToArgvW");
    LPWSTR *r = (LPWSTR *)m; char *d = m + sizeof(LPWSTR) * (v.size() + 1);
    for (size_t i = 0; i < v.size(); ++i) { r[i] = (LPWSTR)d; memcpy(d, v[i].c_str(), 2 * (v[i].size() + 1)); d += 2 * (v[i].size() + 1); }
    r[v.size()] = nullptr; *n = v.size();
    return r;
}
DWORD WINAPI GetEnvironmentVariableA(LPCSTR n, LPSTR buf, DWORD sz) { API("GetEnvironmentVariableA"); if (!strcmp(n, "WINPTY_SHOW_CONSOLE") && g.cfg.showConsoleEnv) { if (sz >= 2) { buf[0] = '1'; buf[1] = 0; } return 1; }     if (!strcmp(n, "WINPTY_DEBUG") && !g.cfg.debug.empty()) { if (g.cfg.debug.size() + 1 > sz) return (DWORD)g.cfg.debug.size() + 1; strcpy(buf, g.cfg.debug.c_str()); return (DWORD)g.cfg.debug.size(); }
    setErr(ERROR_ENVVAR_NOT_FOUND); return 0; }

// ---- modules
static HMODULE modHandle(const U16 &n) { return (HMODULE)(uintptr_t)(0x7ff00000 + std::hash<U16>()(lower(n)) % 0xffff * 0x10); }
static std::map<HMODULE, U16> &modNames() { static std::map<HMODULE, U16> m; return m; }
HMODULE WINAPI LoadLibraryW(LPCWSTR n) {
    API_F("LoadLibraryW", NULL);
    U16 s = lower(toU16(n)); HMODULE h = modHandle(s); modNames()[h] = s; me->modules[u8(s)]++;
    return h;
}
WINBOOL WINAPI FreeLibrary(HMODULE h) {
    API("FreeLibrary");
    auto it = modNames().find(h);
    if (it == modNames().end() || --me->modules[u8(it->second)] < 0) { g.problem("%s: FreeLibrary without LoadLibrary", me->name.c_str()); return FALSE; }
    return TRUE;
}
static BOOLEAN WINAPI simRtlGenRandom(PVOID buf, ULONG n) {
    API("RtlGenRandom");
    if (g.cfg.randomFails) return FALSE;
    static const char hex[] = "0123456789abcdef"; std::string s;
    for (ULONG i = 0; i < n; ++i) { uint8_t b = (uint8_t)(g.rnd() >> 24); ((uint8_t *)buf)[i] = b; s += hex[b >> 4]; s += hex[b & 15]; }
    g.randomHex.push_back(s);
    return TRUE;
}
FARPROC WINAPI GetProcAddress(HMODULE, LPCSTR n) {
    API_F("GetProcAddress", NULL);
    void *p = consoleProc(n);
    if (!p && !strcmp(n, "SystemFunction036") && g.cfg.rtlGenRandom) p = (void *)simRtlGenRandom;
    if (!p) setErr(ERROR_PROC_NOT_FOUND);
    return (FARPROC)p;
}
WINBOOL WINAPI GetModuleHandleExW(DWORD, LPCWSTR, HMODULE *m) { API_F("GetModuleHandleExW", FALSE); *m = (HMODULE)(uintptr_t)0x10000000; return TRUE; }
HMODULE WINAPI GetModuleHandleW(LPCWSTR n) { API("GetModuleHandleW"); return modHandle(n ? toU16(n) : U16(u"exe")); }
DWORD WINAPI GetModuleFileNameW(HMODULE, LPWSTR b, DWORD n) { API("GetModuleFileNameW"); U16 s = u"C:\\Program Files\\wp\\winpty.dll"; if (n <= s.size()) return n; memcpy(b, s.c_str(), 2 * (s.size() + 1)); return s.size(); }
DWORD WINAPI GetModuleFileNameA(HMODULE, LPSTR b, DWORD n) { API("GetModuleFileNameA"); strncpy(b, "C:\\wp\\x.exe", n); return 11; }
DWORD WINAPI GetFileAttributesW(LPCWSTR) { API_F("GetFileAttributesW", INVALID_FILE_ATTRIBUTES); if (!g.cfg.agentExeExists) { setErr(ERROR_FILE_NOT_FOUND); return INVALID_FILE_ATTRIBUTES; } return 0x20; }
UINT WINAPI GetSystemDirectoryW(LPWSTR b, UINT n) { API("GetSystemDirectoryW"); U16 s = u"C:\\Windows\\system32"; if (n > s.size()) memcpy(b, s.c_str(), 2 * (s.size() + 1)); return s.size(); }
WINBOOL WINAPI GetVersionExW(LPOSVERSIONINFOW i) {
    API("GetVersionExW");
    static const int v[][2] = {{10, 0}, {6, 1}, {6, 2}, {6, 0}, {5, 1}};
    i->dwMajorVersion = v[g.cfg.os][0]; i->dwMinorVersion = v[g.cfg.os][1]; i->dwBuildNumber = 14393; i->dwPlatformId = 2; i->szCSDVersion[0] = 0;
    return TRUE;
}

// ---- desktops
HWINSTA WINAPI GetProcessWindowStation(void) { API_F("GetProcessWindowStation", NULL); return (HWINSTA)vh(me->hWinsta); }
WINBOOL WINAPI SetProcessWindowStation(HWINSTA h) {
    API_F("SetProcessWindowStation", FALSE);
    auto w = objOf<WinSta>((HANDLE)h); if (!w) return FALSE;
    me->hWinsta = hv((HANDLE)h); me->winsta = w; return TRUE;
}
HWINSTA WINAPI CreateWindowStationW(LPCWSTR n, DWORD, ACCESS_MASK, LPSECURITY_ATTRIBUTES) {
    API_F("CreateWindowStationW", NULL);
    auto w = std::make_shared<WinSta>(); w->name = n ? toU16(n) : u16("Service-0x0-" + std::to_string(1000 + ++g.wsCounter) + "$");
    g.winstas.push_back(w); return (HWINSTA)vh(g.addHandle(me, w, "CreateWindowStation"));
}
WINBOOL WINAPI CloseWindowStation(HWINSTA h) {
    API("CloseWindowStation");
    if (hv((HANDLE)h) == me->hWinsta) { g.problem("%s: closed its current window station", me->name.c_str()); return FALSE; }
    auto w = objOf<WinSta>((HANDLE)h); if (!w) return FALSE;
    g.closeHandle(me, hv((HANDLE)h)); return TRUE;
}
HDESK WINAPI CreateDesktopW(LPCWSTR n, LPCWSTR, LPDEVMODEW, DWORD, ACCESS_MASK, LPSECURITY_ATTRIBUTES) {
    API_F("CreateDesktopW", NULL);
    auto d = std::make_shared<Desktop>(); d->name = toU16(n); d->ws = me->winsta; g.desktops.push_back(d);
    return (HDESK)vh(g.addHandle(me, d, "CreateDesktop"));
}
WINBOOL WINAPI CloseDesktop(HDESK h) { API("CloseDesktop"); auto d = objOf<Desktop>((HANDLE)h); if (!d) return FALSE; g.closeHandle(me, hv((HANDLE)h)); reapDesktops(); return TRUE; }
HDESK WINAPI GetThreadDesktop(DWORD) { API_F("GetThreadDesktop", NULL); return (HDESK)vh(me->hDesktop); }
WINBOOL WINAPI GetUserObjectInformationW(HANDLE h, int idx, PVOID buf, DWORD len, LPDWORD need) {
    API_F("GetUserObjectInformationW", FALSE);
    ObjP o = g.getObj(me, hv(h)); U16 n;
    if (auto w = std::dynamic_pointer_cast<WinSta>(o)) n = w->name; else if (auto d = std::dynamic_pointer_cast<Desktop>(o)) n = d->name; else { setErr(6); return FALSE; }
    DWORD want = 2 * (n.size() + 1);
    if (need) *need = want;
    if (len < want) { setErr(ERROR_INSUFFICIENT_BUFFER); return FALSE; }
    memcpy(buf, n.c_str(), want); return TRUE;
}

// ---- security
WINBOOL WINAPI OpenThreadToken(HANDLE, DWORD, WINBOOL, PHANDLE t) { API("OpenThreadToken"); setErr(ERROR_NO_TOKEN); return FALSE; }
WINBOOL WINAPI OpenProcessToken(HANDLE, DWORD, PHANDLE t) { API_F("OpenProcessToken", FALSE); *t = vh(g.addHandle(me, std::make_shared<Token>(), "OpenProcessToken")); return TRUE; }
WINBOOL WINAPI GetTokenInformation(HANDLE h, TOKEN_INFORMATION_CLASS c, LPVOID buf, DWORD len, PDWORD actual) {
    API_F("GetTokenInformation", FALSE);
    auto t = objOf<Token>(h); if (!t) return FALSE;
    DWORD want = sizeof(TOKEN_OWNER) + sizeof kOwnerSid; *actual = want;
    if (c != TokenOwner && c != TokenUser) { setErr(87); return FALSE; }
    if (len < want) { setErr(ERROR_INSUFFICIENT_BUFFER); return FALSE; }
    char *s = (char *)buf + sizeof(TOKEN_OWNER); memcpy(s, kOwnerSid, sizeof kOwnerSid); PSID ps = s; memcpy(buf, &ps, sizeof ps);
    return TRUE;
}
WINBOOL WINAPI AllocateAndInitializeSid(PSID_IDENTIFIER_AUTHORITY a, BYTE n, DWORD s0, DWORD s1, DWORD s2, DWORD s3, DWORD s4, DWORD s5, DWORD s6, DWORD s7, PSID *out) {
    API_F("AllocateAndInitializeSid", FALSE);
    DWORD s[8] = {s0, s1, s2, s3, s4, s5, s6, s7};
    uint8_t *p = (uint8_t *)localAlloc(8 + 4 * n, "SID"); p[0] = 1; p[1] = n; memcpy(p + 2, a->Value, 6); memcpy(p + 8, s, 4 * n);
    *out = p; return TRUE;
}
PVOID WINAPI FreeSid(PSID p) { API("FreeSid"); localFree(p); return NULL; }
HLOCAL WINAPI LocalAlloc(UINT, SIZE_T n) { API_F("LocalAlloc", NULL); return (HLOCAL)localAlloc(n, "LocalAlloc"); }
HLOCAL WINAPI LocalFree(HLOCAL p) { API("LocalFree"); if (p) localFree(p); return NULL; }
DWORD WINAPI SetEntriesInAclW(ULONG n, PEXPLICIT_ACCESSW e, PACL old, PACL *out) {
    API("SetEntriesInAclW");
    if (sim::faultHit("SetEntriesInAclW")) return g.cur->lastError;
    size_t sz = sizeof(ACL);
    for (ULONG i = 0; i < n; ++i) sz += sizeof(ACCESS_ALLOWED_ACE) - 4 + sidLen((uint8_t *)e[i].Trustee.ptstrName);
    ACL *a = (ACL *)localAlloc(sz, "ACL"); a->AclRevision = 2; a->AclSize = sz; a->AceCount = n;
    char *p = (char *)(a + 1);
    for (ULONG i = 0; i < n; ++i) {
        auto *ace = (ACCESS_ALLOWED_ACE *)p; size_t l = sidLen((uint8_t *)e[i].Trustee.ptstrName);
        ace->Header.AceType = e[i].grfAccessMode == DENY_ACCESS ? 1 : 0; ace->Header.AceFlags = e[i].grfInheritance; ace->Header.AceSize = sizeof(ACCESS_ALLOWED_ACE) - 4 + l; ace->Mask = e[i].grfAccessPermissions;
        memcpy(&ace->SidStart, e[i].Trustee.ptstrName, l); p += ace->Header.AceSize;
    }
    *out = a; return 0;
}
WINBOOL WINAPI InitializeSecurityDescriptor(PSECURITY_DESCRIPTOR s, DWORD) { API_F("InitializeSecurityDescriptor", FALSE); memset(s, 0, sizeof(SECURITY_DESCRIPTOR)); ((SECURITY_DESCRIPTOR *)s)->Revision = 1; return TRUE; }
WINBOOL WINAPI SetSecurityDescriptorDacl(PSECURITY_DESCRIPTOR s, WINBOOL present, PACL a, WINBOOL) { API_F("SetSecurityDescriptorDacl", FALSE); auto *d = (SECURITY_DESCRIPTOR *)s; if (present) d->Control |= SE_DACL_PRESENT; d->Dacl = a; return TRUE; }
DWORD WINAPI GetSecurityInfo(HANDLE, SE_OBJECT_TYPE, SECURITY_INFORMATION, PSID *, PSID *, PACL *, PACL *, PSECURITY_DESCRIPTOR *) { API("GetSecurityInfo"); return ERROR_CALL_NOT_IMPLEMENTED; }
WINBOOL WINAPI CryptAcquireContextW(HCRYPTPROV *p, LPCWSTR, LPCWSTR, DWORD, DWORD) { API_F("CryptAcquireContextW", FALSE); *p = 0x1234; me->cryptCtx++; return TRUE; }
WINBOOL WINAPI CryptReleaseContext(HCRYPTPROV, DWORD) { API("CryptReleaseContext"); if (--me->cryptCtx < 0) g.problem("CryptReleaseContext without context"); return TRUE; }
WINBOOL WINAPI CryptGenRandom(HCRYPTPROV p, DWORD n, BYTE *b) { API_F("CryptGenRandom", FALSE); if (p != 0x1234) g.problem("CryptGenRandom with a bad provider"); return simRtlGenRandom(b, n); }

// ---- strings
int WINAPI WideCharToMultiByte(UINT cp, DWORD flags, LPCWCH s, int n, LPSTR out, int cap, LPCCH, LPBOOL) {
    API("WideCharToMultiByte");
    const char16_t *p = (const char16_t *)s;
    if (n < 0) { n = 0; while (p[n]) n++; n++; }
    if (n == 0) { setErr(87); return 0; }
    std::string r;
    for (int i = 0; i < n; ++i) {
        uint32_t c = p[i];
        if (c >= 0xD800 && c < 0xDC00 && i + 1 < n && p[i + 1] >= 0xDC00 && p[i + 1] < 0xE000) { r += u8(U16(p + i, 2)); ++i; continue; }
        if (c >= 0xD800 && c < 0xE000 && g.cfg.os != OS_XP) c = 0xFFFD;
        U16 one(1, (char16_t)c); r += u8(one);
    }
    if (cap == 0) return r.size();
    if ((int)r.size() > cap) { setErr(ERROR_INSUFFICIENT_BUFFER); return 0; }
    memcpy(out, r.data(), r.size()); return r.size();
}
int WINAPI MultiByteToWideChar(UINT, DWORD, LPCCH s, int n, LPWSTR out, int cap) {
    API("MultiByteToWideChar");
    if (n < 0) n = strlen(s) + 1;
    U16 r;
    for (int i = 0; i < n;) {
        unsigned char c = s[i]; int l = c < 0x80 ? 1 : c >= 0xF0 ? 4 : c >= 0xE0 ? 3 : c >= 0xC0 ? 2 : 1; uint32_t v = l == 1 ? c : c & (0xFF >> (l + 1));
        for (int k = 1; k < l && i + k < n; ++k) v = v << 6 | (s[i + k] & 63);
        i += l; if (v >= 0x10000) { v -= 0x10000; r += (char16_t)(0xD800 + (v >> 10)); r += (char16_t)(0xDC00 + (v & 1023)); } else r += (char16_t)v;
    }
    if (cap == 0) return r.size();
    if ((int)r.size() > cap) { setErr(ERROR_INSUFFICIENT_BUFFER); return 0; }
    memcpy(out, r.data(), 2 * r.size()); return r.size();
}

// ---- wrapped C functions of the code under test (16-bit wchar_t; process exit)
size_t __wrap_wcslen(const char16_t *s) { size_t n = 0; while (s[n]) n++; return n; }
int __wrap_wcscmp(const char16_t *a, const char16_t *b) { while (*a && *a == *b) ++a, ++b; return (int)*a - (int)*b; }
int __wrap_wcsncmp(const char16_t *a, const char16_t *b, size_t n) { for (; n; --n, ++a, ++b) if (*a != *b || !*a) return (int)*a - (int)*b; return 0; }
char16_t *__wrap_wcschr(const char16_t *s, char16_t c) { for (;; ++s) { if (*s == c) return (char16_t *)s; if (!*s) return nullptr; } }
char16_t *__wrap_wcsrchr(const char16_t *s, char16_t c) { const char16_t *r = nullptr; for (;; ++s) { if (*s == c) r = s; if (!*s) return (char16_t *)r; } }
char16_t *__wrap_wcscpy(char16_t *d, const char16_t *s) { char16_t *r = d; while ((*d++ = *s++)) {} return r; }
char16_t *__wrap_wmemcpy(char16_t *d, const char16_t *s, size_t n) { memcpy(d, s, 2 * n); return d; }
char16_t *__wrap_wmemmove(char16_t *d, const char16_t *s, size_t n) { memmove(d, s, 2 * n); return d; }
char16_t *__wrap_wmemset(char16_t *d, char16_t c, size_t n) { for (size_t i = 0; i < n; ++i) d[i] = c; return d; }
int __wrap_wmemcmp(const char16_t *a, const char16_t *b, size_t n) { for (size_t i = 0; i < n; ++i) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
const char16_t *__wrap_wmemchr(const char16_t *s, char16_t c, size_t n) { for (size_t i = 0; i < n; ++i) if (s[i] == c) return s + i; return nullptr; }
unsigned long __wrap_wcstoul(const char16_t *s, char16_t **e, int b) { std::string a; while (*s) a += (char)*s++; return strtoul(a.c_str(), nullptr, b); }

// ---- captured stdio (the debug server)
static std::string fmt16(const char *f, va_list ap) {
    std::string r;
    for (; *f; ++f) {
        if (*f != '%') { r += *f; continue; }
        ++f; if (*f == '%') { r += '%'; continue; }
        bool l = false; while (*f == 'l') { l = true; ++f; }
        if (*f == 's' && l) { const char16_t *p = va_arg(ap, const char16_t *); r += u8(U16(p)); }
        else if (*f == 's') r += va_arg(ap, const char *);
        else if (*f == 'u') r += std::to_string(l ? va_arg(ap, unsigned long) : va_arg(ap, unsigned));
        else if (*f == 'd') r += std::to_string(l ? va_arg(ap, long) : (long)va_arg(ap, int));
        else if (*f == 'c') r += (char)va_arg(ap, int);
        else { r += '?'; va_arg(ap, void *); }
    }
    return r;
}
static Stdio &io() { return sim::g->stdio[sim::g->cur->proc]; }
static void put(FILE *o, const std::string &s) { (o == stderr ? io().err : io().out) += s; }
int dbs_printf(const char *f, ...) { apiEnter("printf"); va_list ap; va_start(ap, f); std::string s = fmt16(f, ap); va_end(ap); put(stdout, s); return (int)s.size(); }
int dbs_fprintf(FILE *o, const char *f, ...) { apiEnter("fprintf"); va_list ap; va_start(ap, f); std::string s = fmt16(f, ap); va_end(ap); put(o, s); return (int)s.size(); }
size_t dbs_fwrite(const void *p, size_t s, size_t n, FILE *o) { apiEnter("fwrite"); put(o, std::string((const char *)p, s * n)); return n; }
int dbs_fflush(FILE *o) { apiEnter("fflush"); if (o != stderr) io().shown = io().out; return 0; }

void __wrap_exit(int code) {
    Process *p = sim::g->cur->proc;
    sim::g->killProcess(p, code, false);
    if (!fiberCurrent()) simFail("exit(%d) called in %s", code, p->name.c_str());
    for (;;) fiberYieldToMain();
}
void __wrap_abort(void) { simFail("abort() in %s %s", sim::g->cur->proc->name.c_str(), sim::g->cur->proc->lastAssert.c_str()); }
// agentAssertFail(const char*, int, const char*)
void __real__Z15agentAssertFailPKciS0_(const char *, int, const char *);
void simAgentAssert(const char *f, int l, const char *c) {
    const char *b = strrchr(f, '/'); char t[300]; snprintf(t, sizeof t, "%s:%d: %s", b ? b + 1 : f, l, c);
    sim::g->cur->proc->lastAssert = t; sim::g->agentAsserted = true; sim::g->agentAssertText = t;
    if (sim::g->onAgentAssert) sim::g->onAgentAssert(t);
}
// assertTrace in the DLL
void simAssertTrace(const char *f, int l, const char *c) {
    const char *b = strrchr(f, '/'); char t[300]; snprintf(t, sizeof t, "(assertion %s:%d: %s)", b ? b + 1 : f, l, c);
    sim::g->cur->proc->lastAssert = t;
}
} // extern "C"
