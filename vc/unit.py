"""Build one verification unit: a contract file (which includes /repo's real sources) -> bitcode -> Module."""
import os, re, subprocess, sys, shutil, hashlib
import ir

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VC_REPO", "/repo")
CLANG = "/usr/bin/clang++"


class BuildError(Exception):
    pass


def genconf(work):
    """the two headers CMake generates; made from /repo's own templates"""
    d = os.path.join(work, "gen")
    os.makedirs(d, exist_ok=True)
    return d


def cflags(u, work):
    fl = ["-std=%s" % u.get("std", "c++11"), "-include", os.path.join(VERIF, "vc", "noextern.h"), "-DNDEBUG", "-DPOTHOS_DLL_EXPORTS", "-Wno-everything",
          "-I" + os.path.join(VERIF, "vc"), "-I" + os.path.join(VERIF, "contracts"), "-I" + os.path.join(REPO, "include"),
          "-I" + os.path.join(REPO, "lib"), "-I" + os.path.join(REPO, "lib/Framework"), "-I/usr/include/nlohmann", "-I" + genconf(work)]
    fl += u.get("cflags", [])
    return fl


def compile_bc(u, work):
    src = os.path.join(VERIF, "contracts", u["src"])
    bc = os.path.join(work, u["src"].replace("/", "_") + ".bc")
    cmd = [CLANG, "-O1", "-Xclang", "-disable-llvm-passes", "-gline-tables-only", "-fno-slp-vectorize", "-emit-llvm", "-c"]
    cmd += cflags(u, work)
    san = u.get("san", "signed-integer-overflow,shift-exponent,integer-divide-by-zero,unreachable,return,null")
    if san:
        cmd += ["-fsanitize=" + san, "-fsanitize-trap=" + san]
    cmd += [src, "-o", bc]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise BuildError("contract unit does not compile against /repo:\n" + p.stderr[-6000:])
    return bc


def load(u, work, proofs=None):
    bc = compile_bc(u, work)
    m = ir.Module(bc)
    m.spec = u["src"]
    L = ir.L
    # contract declarations
    names = m.all_function_names()
    prf = [n for n, f, d in names if n.startswith("vcproof_") and not d]
    m.td = L.LLVMGetModuleDataLayout(m.m)
    repl, opts, keep = [], [], []
    g = L.LLVMGetFirstGlobal(m.m)

    def s_of(c):
        # constant pointing to a string global
        while c[0] == "ce":
            c = c[2][0]
        i = m.const(L.LLVMGetInitializer(L.LLVMGetNamedGlobal(m.m, c[1].encode())))
        return i[1].rstrip(b"\0").decode() if i[0] == "bytes" else ""
    L.LLVMGetNamedGlobal.restype = ir.VP
    L.LLVMGetNamedGlobal.argtypes = [ir.VP, ir.C.c_char_p]
    while g:
        nm = m.vname(g)
        if nm.startswith("vcreplace_") or nm.startswith("vcopt_"):
            init = m.const(L.LLVMGetInitializer(g))
            els = init[1]
            if nm.startswith("vcreplace_"):
                repl.append((s_of(els[0]), s_of(els[1]), els[2][1]))
            else:
                opts.append((s_of(els[0]), s_of(els[1])))
        g = L.LLVMGetNextGlobal(g)
    # demangle everything once
    allnames = [n for n, f, d in names]
    p = subprocess.run(["c++filt"], input="\n".join(allnames) + "\n", capture_output=True, text=True)
    dem = dict(zip(allnames, p.stdout.split("\n")))
    rx = [re.compile(r[1]) for r in repl] + [re.compile(k) for k in u.get("noinline", [])]
    matched = {}
    for n, f, d in names:
        for r in rx:
            if r.search(dem[n]):
                if not d:
                    m.rm_fn_attr(f, "alwaysinline")
                    m.rm_fn_attr(f, "inlinehint")
                    m.add_fn_attr(f, "noinline")
                matched.setdefault(r.pattern, []).append(dem[n])
    reach, covers, asserts = reachability(m, names, dem, prf)
    m.run_passes(u.get("passes", "default<O1>"))
    m.finish()
    for fn in m.funcs.values():
        fn.dem = dem.get(fn.name, fn.dem)
    return dict(mod=m, proofs=sorted(prf), replace=repl, opts=opts, reach=reach, covers=covers, asserts=asserts, matched=matched, bc=bc)


def reachability(m, names, dem, proofs):
    """demangled Pothos functions reachable from each proof in the unoptimised call graph"""
    L = ir.L
    defs = {n: f for n, f, d in names if not d}
    cg = {}

    cov, asr = {}, {}

    def gstr(v):
        try:
            c = m.const(v)
            while c[0] == "ce":
                c = c[2][0]
            if c[0] != "g":
                return None
            i = m.const(L.LLVMGetInitializer(L.LLVMGetNamedGlobal(m.m, c[1].encode())))
            return i[1].rstrip(b"\0").decode() if i[0] == "bytes" else None
        except Exception:
            return None

    def callees(n):
        if n in cg:
            return cg[n]
        out = set()
        cov[n], asr[n] = set(), set()
        b = L.LLVMGetFirstBasicBlock(defs[n])
        while b:
            i = L.LLVMGetFirstInstruction(b)
            while i:
                for j in range(L.LLVMGetNumOperands(i)):
                    o = L.LLVMGetOperand(i, j)
                    if L.LLVMGetValueKind(o) == ir.VK_FUNC:
                        nm = m.vname(o)
                        out.add(nm)
                        if nm == "vc_cover":
                            cov[n].add(gstr(L.LLVMGetOperand(i, 0)))
                        elif nm == "vc_assert":
                            asr[n].add(gstr(L.LLVMGetOperand(i, 1)))
                i = L.LLVMGetNextInstruction(i)
            b = L.LLVMGetNextBasicBlock(b)
        cg[n] = out
        return out
    res, covers, asserts = {}, {}, {}
    for p in proofs:
        seen = {p}
        st = [p]
        while st:
            x = st.pop()
            if x not in defs:
                continue
            for c in callees(x):
                if c not in seen:
                    seen.add(c)
                    st.append(c)
        covers[p] = sorted(c for x in seen if x in cov for c in cov[x] if c)
        asserts[p] = sorted(c for x in seen if x in asr for c in asr[x] if c)
        res[p] = sorted(dem[x] for x in seen if x in defs and re.match(r"(\S+ )*(Pothos::|pothos)", re.sub(r"<.*", "", dem[x])) or "Pothos::" in dem[x].split("(")[0] and x in defs)
    return res, covers, asserts


def build_native(u, work, opt="-O1", san=True):
    src = os.path.join(VERIF, "contracts", u["src"])
    exe = os.path.join(work, u["src"].replace("/", "_") + ".native")
    fl = cflags(u, work)
    cmd = [CLANG, opt, "-g1", "-rdynamic", "-DVC_NATIVE"] + fl
    if san:
        cmd += ["-fsanitize=address", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
    base = exe[:-7]
    obj = [base + ".u.o", base + ".n.o"]
    comp = cmd + ["-ffunction-sections", "-fPIC", "-c"]
    jobs = [subprocess.Popen(comp + [f, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            for f, o in ((src, obj[0]), (os.path.join(VERIF, "vc", "native.cpp"), obj[1]))]
    for j in jobs:
        err = j.communicate()[1]
        if j.returncode:
            raise BuildError("native replay does not build: " + err[-4000:])
    libs = u.get("ldflags", []) + ["-lPocoFoundation", "-lPocoNet", "-lPocoUtil", "-lPocoXML", "-lpthread", "-ldl"]
    link = [CLANG, "-rdynamic"] + (["-fsanitize=address"] if san else []) + ["-Wl,--gc-sections", "-Wl,--no-demangle"]
    p = subprocess.run(link + ["-Wl,--warn-unresolved-symbols"] + obj + ["-o", exe] + libs, capture_output=True, text=True)
    und = sorted(set(re.findall(r"undefined reference to `([^'@]+)'", p.stderr)))
    if und:
        # functions of other source files that no contract calls: stubs that end the run as "not replayable"
        asm = base + ".stub.s"
        with open(asm, "w") as f:
            for x in und:
                if re.match("_ZT[ISV]|_ZGV", x):
                    f.write(".data\n.weak %s\n.balign 16\n%s: .zero 512\n" % (x, x))
                else:
                    f.write(".text\n.weak %s\n%s: lea .Lname_%s(%%rip), %%rdi\njmp vc_missing@PLT\n.Lname_%s: .string \"%s\"\n" % (x, x, x, x, x))
        p = subprocess.run(link + obj + [asm, "-o", exe] + libs, capture_output=True, text=True)
    if p.returncode:
        raise BuildError("native replay does not build: " + p.stderr[-4000:])
    return exe
