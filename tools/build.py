#!/usr/bin/env python3
"""Generates and runs the ninja build of the harness from the working tree of /repo.
usage: build.py [ID ...]   (no ID: everything, into build/all)   prints the path of the harness binary
Compiles the agent, the DLL and the adapter natively (clang, ASan + UBSan) against the simulator in sim/."""
import os, sys, re, glob, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("VERIF_REPO", "/repo")

def main():
    ids = sys.argv[1:]
    variant = os.environ.get("VERIF_VARIANT", "")
    checks = sorted(glob.glob(V + "/checks/*.cc"))
    if ids:
        def has(f):
            t = open(f).read()
            return any(re.search(r'"%s"' % i, t) for i in ids)
        checks = [f for f in checks if has(f)]
        if not checks:
            print("no check for " + " ".join(ids), file=sys.stderr); return 3
    name = ("-".join(ids) if ids else "all") + (("." + variant) if variant else "")
    B = os.environ.get("VERIF_BUILD", V + "/build/") + name
    os.makedirs(B, exist_ok=True)
    san = "-fsanitize=address,undefined -fno-sanitize=vptr,function,alignment,shift -fno-sanitize-recover=all"
    common = "-g1 -O1 -fno-omit-frame-pointer -fPIC -fshort-wchar -fdeclspec -Wno-everything " + san
    win = "-I%s/sim/inc -idirafter /usr/share/mingw-w64/include -DUNICODE -D_UNICODE" % V
    cov = "-fsanitize-coverage=inline-8bit-counters"
    repo = common + " -std=c++11 " + cov + " " + win + " -ftrivial-auto-var-init=pattern -D_WIN32_WINNT=0x0501 -I%s/src/include -I%s/src/shared" % (R, R)
    harn = common + " -std=c++17 -I%s -I%s/src/include" % (V, R)
    harnw = harn + " " + win + " -D_WIN32_WINNT=0x0601 -DNOMINMAX"
    wraps = ["exit", "_exit", "abort", "wcslen", "wcscmp", "wcsncmp", "wcschr", "wcsrchr", "wcscpy", "wmemcpy", "wmemmove", "wmemset", "wmemcmp", "wmemchr", "wcstoul", "wcsnlen", "wcsncpy", "wcscat", "wcsncat", "wcsstr", "wcspbrk", "wcsspn", "wcscspn", "wcstol"]
    out = ["ninja_required_version = 1.3", "",
           "rule cc", "  command = clang++ -MD -MF $out.d $flags -c $in -o $out", "  depfile = $out.d", "  deps = gcc", "  description = $out",
           "rule so", "  command = clang++ -shared $san -shared-libsan -o $out $in $ldflags".replace(" -shared-libsan", ""), "  description = $out",
           "rule exe", "  command = clang++ $san -rdynamic -o $out $in $ldflags", "  description = $out", "", "san = " + san, ""]
    n = {}
    def cc(src, flags, tag):
        o = "%s/%s_%s.o" % (tag, os.path.basename(os.path.dirname(src)), os.path.basename(src)[:-3])
        out.append("build %s: cc %s" % (o, src)); out.append("  flags = " + flags)
        return o
    def srcs(d): return [f for f in sorted(glob.glob(R + "/src/%s/*.cc" % d)) if not f.endswith("Test.cc")]
    wl = " ".join("-Wl,--wrap=" + w for w in wraps)
    # agent
    ao = [cc(f, repo + " -DWINPTY_AGENT_ASSERT -Dmain=agent_main", "agent") for f in srcs("agent") + srcs("shared")]
    ao.append(cc(V + "/sim/wrap_agent.cc", common + " -std=c++11", "agent"))
    open(B + "/agent.map.new", "w").write("{ global: _Z10agent_mainv; agent_main; local: *; };\n")
    open(B + "/lib.map.new", "w").write("{ global: winpty_*; local: *; };\n")
    for m in ("agent.map", "lib.map"):
        if not os.path.exists(B + "/" + m) or open(B + "/" + m).read() != open(B + "/" + m + ".new").read():
            os.replace(B + "/" + m + ".new", B + "/" + m)
        else:
            os.remove(B + "/" + m + ".new")
    out.append("build libagent.so: so %s | agent.map" % " ".join(ao))
    out.append("  ldflags = -Wl,--version-script=agent.map %s -Wl,--wrap=_Z15agentAssertFailPKciS0_" % wl)
    lo = [cc(f, repo + " -DCOMPILING_WINPTY_DLL", "lib") for f in srcs("libwinpty") + srcs("shared")]
    lo.append(cc(V + "/sim/wrap_lib.cc", common + " -std=c++11", "lib"))
    out.append("build libwinpty.so: so %s | lib.map" % " ".join(lo))
    out.append("  ldflags = -Wl,--version-script=lib.map %s -Wl,--wrap=_Z11assertTracePKciS0_" % wl)
    ho = [cc(V + "/engine/pbt.cc", harn, "h"), cc(V + "/sim/fiber.cc", harn, "h")]
    ho += [cc(f, harnw, "h") for f in (V + "/sim/core.cc", V + "/sim/console.cc", V + "/sim/misc.cc", V + "/sim/compat.cc", V + "/sim/unix.cc", V + "/sim/main.cc")]
    for f in sorted(glob.glob(V + "/model/*.cc")):
        ho.append(cc(f, harnw if "windows.h" in open(f).read() else harn, "m"))
    for f in checks:
        ho.append(cc(f, harnw if any(x in open(f).read() for x in ("windows.h", "rig.h\"")) else harn, "c"))
    # the adapter, against the simulated terminal
    so = ""
    if any("unix.h" in open(f).read() or "rig.h\"" in open(f).read() for f in checks):
        A = [R + "/src/unix-adapter/%s.cc" % x for x in ("InputHandler", "OutputHandler", "Util", "WakeupFd", "main")] + [R + "/src/shared/%s.cc" % x for x in ("DebugClient", "WinptyAssert", "WinptyVersion")]
        af = repo + " -include %s/adapter/shim.h -I%s/adapter/inc -Dmain=adapter_main" % (V, V)
        do = [cc(f, af, "adapter") for f in A + [f for f in srcs("unix-adapter") if f not in A]]
        do.append(cc(V + "/sim/wrap_lib.cc", common + " -std=c++11", "adapter"))
        open(B + "/adapter.map", "w").write("{ global: _Z12adapter_mainiPPc; adapter_main; local: *; };\n") if not os.path.exists(B + "/adapter.map") else None
        out.append("build libadapter.so: so %s libwinpty.so | adapter.map" % " ".join(do))
        out.append("  ldflags = -Wl,--version-script=adapter.map %s -Wl,--wrap=_Z11assertTracePKciS0_" % wl)
        so = " libadapter.so"
    if any("startDebugServer" in open(f).read() for f in checks):
        df = repo + " -include %s/dbgsrv/shim.h -Dmain=dbg_main" % V
        do = [cc(f, df, "dbgsrv") for f in srcs("debugserver")] + [cc(f, repo, "dbgsrv") for f in srcs("shared")]
        do.append(cc(V + "/sim/wrap_lib.cc", common + " -std=c++11", "dbgsrv"))
        open(B + "/dbgsrv.map", "w").write("{ global: _Z8dbg_mainiPPc; dbg_main; local: *; };\n") if not os.path.exists(B + "/dbgsrv.map") else None
        out.append("build libdbgsrv.so: so %s | dbgsrv.map" % " ".join(do))
        out.append("  ldflags = -Wl,--version-script=dbgsrv.map %s -Wl,--wrap=_Z11assertTracePKciS0_" % wl)
        so += " libdbgsrv.so"
    out.append("build harness: exe %s libwinpty.so | libagent.so" % " ".join(ho))
    out.append("  ldflags = -L. -Wl,-rpath,'$$ORIGIN' -Wl,--allow-shlib-undefined -Wl,-z,lazy -ldl -lpthread")
    out.append("default harness libagent.so" + so)
    txt = "\n".join(out) + "\n"
    p = B + "/build.ninja"
    if not os.path.exists(p) or open(p).read() != txt: open(p, "w").write(txt)
    r = subprocess.run(["ninja", "-C", B, "-k", "20"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        sys.stderr.write(r.stdout.decode(errors="replace")[-6000:]); return 3
    print(B + "/harness")
    return 0
sys.exit(main())
