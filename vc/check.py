#!/opt/veriftools/pyvenv/bin/python3
"""check.py PROPERTY [--tier quick|thorough] [--proof REGEX] [-v]
Decide one property: extract the real code from /repo, generate and discharge every obligation."""
import os, sys, re, json, time, tempfile, shutil, subprocess, traceback, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import multiprocessing as mp
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "contracts"))


def parse_opts(text):
    o = {}
    for w in text.split():
        k, _, v = w.partition("=")
        if k in ("noaccel", "tactic"):
            o.setdefault(k, []).append(v) if k == "noaccel" else o.__setitem__(k, v)
        else:
            o[k] = int(v) if v.isdigit() else (v or 1)
    return o


def blank(proof, why):
    return dict(name=proof, obl=[], failures=[], undecided=[why], covers={}, asserts=[], paths=0, completed=0, instrs=0, queries=0,
                solver_s=0, wall=0, stubs={}, externals={}, loops=[], bounded=False, boundnotes=[], functions=[], excov=[], exasr=[])


def put(work, kind, src, proof, data):
    p = os.path.join(work, "res", "%s@%s@%s" % (kind, src.replace("/", "_"), proof))
    with open(p + ".tmp", "w") as f:
        json.dump([kind, src, proof, data], f)
    os.rename(p + ".tmp", p + ".json")


def run_proof(U, proof, tier, work):
    try:
        import engine
        o = dict(deadline=300 if tier == "quick" else 1500)
        noacc = []
        bounded = False
        for rx, text in U["opts"]:
            if re.search(rx, proof):
                po = parse_opts(text)
                noacc += po.pop("noaccel", [])
                if "bounded" in po:
                    bounded = po.pop("bounded")
                o.update(po)
        if os.environ.get("VC_DEBUG"):
            o["debug"] = 1
        e = engine.Engine(U["mod"], o)
        e.fixed_unroll = noacc
        if bounded:
            e.bounds["unroll"] = 1
        e.replace = [(fn, stub) for (prx, fn, stub) in U["replace"] if re.search(prx, proof)]
        r = e.run(proof)
        d = dict(name=proof, obl=[[k[0], k[1]] + v for k, v in r.obl.items()], failures=r.failures, undecided=r.undecided,
                 covers=r.covers, asserts=sorted(r.asserts_seen), paths=r.paths, completed=r.completed, instrs=r.instrs,
                 queries=r.queries, solver_s=r.solver_s, wall=r.wall, stubs=r.stubs, externals=r.externals, loops=r.loops,
                 bounded=bool(bounded), boundnotes=sorted(set(r.bounded)), functions=U["reach"].get(proof, []),
                 cvc5=getattr(r, "cvc5", 0), lia=getattr(r, "lia", 0), excov=U["covers"].get(proof, []), exasr=U["asserts"].get(proof, []))
        if e.opaque_ti:
            d["undecided"].append("exception types with unknown bases: %s" % sorted(e.opaque_ti))
        put(work, "proof", U["src"], proof, d)
    except Exception:
        put(work, "proof", U["src"], proof, blank(proof, "internal error: " + traceback.format_exc()[-1500:]))


def run_unit(u, work, tier, rx, sem):
    import unit, ir, engine
    try:
        t0 = time.time()
        with sem:
            U = unit.load(u, work)
    except Exception as e:
        put(work, "unitfail", u["src"], "", traceback.format_exc()[-4000:] if type(e).__name__ != "BuildError" else str(e))
        return
    U["src"] = u["src"]
    todo = [p for p in U["proofs"] if re.search(u.get("proofs", "."), p) and re.search(rx, p)]
    if tier == "quick":
        todo = [p for p in todo if not re.search("_thorough", p)]
    put(work, "unit", u["src"], "", dict(load_s=time.time() - t0, proofs=todo))
    live = {}

    def reap(block):
        while live:
            pid, status = os.waitpid(-1, 0 if block else os.WNOHANG)
            if pid == 0:
                return
            p = live.pop(pid)
            sem.release()
            if status != 0:
                put(work, "proof", u["src"], p, blank(p, "verifier process died (status %d)" % status))
            if block and live:
                continue
    for p in todo:
        while not sem.acquire(timeout=0.1):
            reap(False)
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                run_proof(U, p, tier, work)
            finally:
                sys.stdout.flush()
                os._exit(0)
        live[pid] = p
        reap(False)
    reap(True)


def write_values(path, vals):
    with open(path, "w") as f:
        for v in vals:
            if v[0] == "arr":
                f.write("arr %s %d %d %d %s\n" % (v[1], v[2], v[3], len(v[4]), " ".join(map(str, v[4]))))
            else:
                f.write("int %s %d\n" % (v[1], v[2]))


class Native:
    def __init__(self, units, work):
        self.units, self.work, self.exe, self.lock = {u["src"]: u for u in units}, work, {}, threading.Lock()

    def get(self, src):
        with self.lock:
            if src not in self.exe:
                import unit
                try:
                    self.exe[src] = unit.build_native(self.units[src], self.work)
                except Exception as e:
                    self.exe[src] = None
                    sys.stderr.write("native build of %s failed: %s\n" % (src, str(e)[-1500:]))
            return self.exe[src]

    def run(self, src, args, timeout):
        exe = self.get(src)
        if exe is None:
            return None, "native harness did not build"
        try:
            p = subprocess.run([exe] + args, capture_output=True, text=True, timeout=timeout, errors="replace", cwd=self.work)
            return p.returncode, p.stdout[-6000:] + p.stderr[-3000:]
        except subprocess.TimeoutExpired:
            return None, "timeout"


def main():
    args = sys.argv[1:]
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    rx, verbose = ".", False
    i = 1
    while i < len(args):
        if args[i] == "--tier":
            tier = args[i + 1]
            i += 1
        elif args[i] == "--proof":
            rx = args[i + 1]
            i += 1
        elif args[i] == "-v":
            verbose = True
        i += 1
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    import registry
    prop = registry.PROPS[pid]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="vc_%s_" % pid)
    try:
        rc = decide(pid, prop, tier, seed, rx, verbose, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) proof=(\S+) obligation=\"([^\"]*)\" (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append(m.groups()[1:])
    return out


def decide(pid, prop, tier, seed, rx, verbose, work, t0):
    units = prop["units"]
    sem = mp.Semaphore(int(os.environ.get("VC_JOBS", "8")))
    os.makedirs(os.path.join(work, "res"))
    pids = {}
    for u in units:
        pid_ = os.fork()
        if pid_ == 0:
            try:
                os.setpgid(0, 0)
                run_unit(u, work, tier, rx, sem)
            finally:
                os._exit(0)
        pids[pid_] = u["src"]
    allp = list(pids)
    expected, results, unitinfo, unitfail = {}, {}, {}, {}
    hard = t0 + (700 if tier == "quick" else 6000)
    seen = set()
    while True:
        finished = False
        while pids:
            p_, status = os.waitpid(-1, os.WNOHANG)
            if p_ == 0:
                break
            s_ = pids.pop(p_, None)
        finished = not pids
        for fnm in sorted(os.listdir(os.path.join(work, "res"))):
            if not fnm.endswith(".json") or fnm in seen:
                continue
            seen.add(fnm)
            m = json.load(open(os.path.join(work, "res", fnm)))
            if m[0] == "unit":
                expected[m[1]] = m[3]["proofs"]
                unitinfo[m[1]] = m[3]
            elif m[0] == "unitfail":
                unitfail[m[1]] = m[3]
                expected.setdefault(m[1], [])
            else:
                results[(m[1], m[2])] = r = m[3]
                if verbose:
                    dd = [sum(x[2 + k] for x in r["obl"]) for k in range(3)]
                    print("%-46s D/F/U %s paths %d q %d solver %.1f wall %.1f %s" % (m[2], dd, r["paths"], r["queries"], r["solver_s"], r["wall"],
                          "bounded" if r["bounded"] else ""))
                    for x in r["undecided"][:6]:
                        print("     UNDECIDED", x[:600])
                    for x in r["failures"][:6]:
                        print("     FAIL", x["kind"], x["name"], x["where"][:3], "weak" if x.get("weak") else "", str(x["values"])[:700])
                    sys.stdout.flush()
        if finished:
            break
        if time.time() > hard:
            for p_ in allp:
                try:
                    os.killpg(p_, 9)
                except OSError:
                    pass
            break
        time.sleep(0.05)
    for u in units:
        if u["src"] not in expected:
            unitfail[u["src"]] = "verifier process of the unit died or timed out"
            expected[u["src"]] = []
    for s in expected:
        for p in expected[s]:
            results.setdefault((s, p), blank(p, "not finished within the time limit"))
    # ---- verdicts
    nat = Native(units, work)
    known = known_findings(pid)
    violations, undecided, knownhit = [], [], []
    jobs = []
    for s, msg in unitfail.items():
        undecided.append("unit %s: %s" % (s, msg[-1500:]))
    for (src, proof), r in sorted(results.items()):
        vac = []
        if not r["undecided"] and not r["failures"]:
            if r["completed"] == 0:
                vac.append("no path of %s completes" % proof)
            if not any(x[0] == "post" for x in r["obl"]):
                vac.append("no postcondition reached in %s" % proof)
            for c in r["excov"]:
                if not r["covers"].get(c):
                    vac.append("cover %r of %s not reachable" % (c, proof))
        r["vacuous"] = vac
        fails = []
        for f in r["failures"]:
            k = [x for x in known if x[0] == proof.replace("vcproof_", "") and x[1] == f["name"]]
            if k:
                if k[0] not in knownhit:
                    knownhit.append(k[0])
            else:
                fails.append(f)
        r["newfails"] = fails
        if fails or r["undecided"] or vac:
            jobs.append((src, proof, r))
    search_s = 15 if tier == "quick" else 120
    rdir = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)

    def triage(job):
        src, proof, r = job
        confirmed = None
        out = ""
        noreplay = re.search(prop.get("noreplay", "^$"), proof)
        for n, f in enumerate(r["newfails"][:6]):
            if noreplay:
                break
            vf = os.path.join(rdir, "%s_%s_%d.values" % (pid, proof, n))
            write_values(vf, f["values"])
            rc, out = nat.run(src, ["replay", proof, vf], 60)
            if rc == 77:
                confirmed = (vf, f, out)
                break
        if confirmed is None and not noreplay:
            rc, out = nat.run(src, ["search", proof, str(seed), str(search_s)], search_s + 60)
            if rc == 77:
                vf = os.path.join(rdir, "%s_%s_search.values" % (pid, proof))
                with open(vf, "w") as fh:
                    fh.write("\n".join(l for l in out.split("\n") if l.startswith(("int ", "arr "))) + "\n")
                confirmed = (vf, dict(kind="native", name=out.split("\n")[0][:200], where=[]), out)
        return job, confirmed, out
    if jobs:
        import concurrent.futures
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            tri = list(ex.map(triage, jobs))
    else:
        tri = []
    for (src, proof, r), confirmed, out in tri:
        strong = [f for f in r["newfails"] if not f.get("weak")]
        if confirmed or strong:
            f = confirmed[1] if confirmed else strong[0]
            rp = os.path.join(rdir, "%s_%s.json" % (pid, proof))
            json.dump(dict(property=pid, unit=src, proof=proof, obligation="%s: %s" % (f["kind"], f["name"]), where=f.get("where"),
                           values=f.get("values"), values_file=(confirmed[0] if confirmed else None), all_failed=[(x["kind"], x["name"]) for x in r["newfails"]],
                           replayed_on_real_code=bool(confirmed), replay_output=(confirmed[2] if confirmed else out)[-3000:],
                           how="python3 vc/replay.py " + rp), open(rp, "w"), indent=1)
            violations.append((proof, f, rp, bool(confirmed)))
        else:
            for x in r["undecided"] + r["vacuous"] + ["weak failure " + f["name"] for f in r["newfails"]]:
                undecided.append("%s: %s" % (proof, x[:400]))
    # ---- bounded stand-ins
    bres = []
    run_b = prop.get("bounded")
    if run_b and (rx == "."):
        import bounded
        always = [b for b in run_b if b.get("always", True) or undecided]
        for b in always:
            br = bounded.run(b, work, tier, seed)
            bres.append(br)
            if br["status"] == "violation":
                rp = os.path.join(rdir, "%s_bounded_%s.txt" % (pid, b["name"]))
                open(rp, "w").write("property %s, bounded check %s\ncommand: %s\n\n%s\n" % (pid, b["name"], br["cmd"], br["output"]))
                violations.append((b["name"], dict(kind="bounded", name=br["summary"], where=[]), rp, True))
            elif br["status"] == "error":
                undecided.append("bounded stand-in %s: %s" % (b["name"], br["summary"]))
    # ---- report
    obl = dis = unk = fai = 0
    nb_obl = nb_dis = 0
    kinds = {}
    fns, stubs, exts, loops = set(), {}, {}, []
    for (src, proof), r in results.items():
        d, f, k = [sum(x[2 + j] for x in r["obl"]) for j in range(3)]
        if r["bounded"]:
            nb_obl += d + f + k
            nb_dis += d
        else:
            obl += d + f + k
            dis += d
            unk += k
            fai += f
        for x in r["obl"]:
            kinds[x[0]] = kinds.get(x[0], 0) + x[2]
        fns.update(r["functions"])
        stubs.update(r["stubs"])
        exts.update(r["externals"])
        for l in r["loops"]:
            if l not in loops:
                loops.append(l)
    ev = dict(property=pid, tier=tier, seed=seed, level=prop.get("level", "proof"),
              coverage=dict(obligations=obl, discharged=dis, checker_cmd="python3 vc/check.py %s --tier %s" % (pid, tier),
                            trusted_base=["clang 18 front end and LLVM -O1 passes (C++ to IR)", "vc/engine.py VC generator", "z3 " + z3v(), "cvc5 1.1.2 (--solve-bv-as-int=sum)"] + prop.get("trusted", []),
                            backend="z3 " + z3v() + " and cvc5 1.1.2", queries_answered_by_cvc5=sum(r.get("cvc5", 0) for r in results.values()), queries_answered_by_integer_translation=sum(r.get("lia", 0) for r in results.values()), solver_seconds=round(sum(r["solver_s"] for r in results.values()), 2),
                            queries=sum(r["queries"] for r in results.values()), paths=sum(r["paths"] for r in results.values()),
                            ir_instructions=sum(r["instrs"] for r in results.values()),
                            proofs=[dict(unit=s, proof=p.replace("vcproof_", ""), obligations=sum(sum(x[2:]) for x in r["obl"]),
                                         discharged=sum(x[2] for x in r["obl"]), paths=r["paths"], seconds=round(r["wall"], 2),
                                         bounded=r["bounded"], bound_notes=r["boundnotes"], undecided=r["undecided"][:3] + r["vacuous"],
                                         covers=r["covers"]) for (s, p), r in sorted(results.items())],
                            obligations_by_kind=kinds, failed=fai, unknown=unk,
                            bounded_obligations=nb_obl, bounded_discharged=nb_dis,
                            functions_under_contract=sorted(x[:200] for x in fns)[:400], contracts_used_at_call_sites=stubs,
                            loop_invariants_inferred=loops[:60], external_noops=sorted(exts)[:60],
                            undecided=undecided[:40], bounded_standins=bres),
              assumptions=prop.get("assumptions", []) + registry_assumptions(), wall_s=round(time.time() - t0, 2), violations=len(violations))
    if prop.get("level") == "other":
        ev["coverage"]["explanation"] = prop["note"]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if rx == ".":
        json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for k in knownhit:
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, k[0], k[2]))
    print("%s: %d proofs, %d obligations, %d discharged, %d failed, %d unknown; bounded %d/%d; %.1fs" % (
        pid, len(results), obl, dis, fai, unk, nb_dis, nb_obl, time.time() - t0))
    for u in undecided[:10]:
        print("UNDECIDED: " + u[:500])
    for b in bres:
        print("bounded stand-in %s: %s" % (b["name"], b["summary"]))
    if violations:
        violations.sort(key=lambda v: not v[3])
        proof, f, rp, conf = violations[0]
        for v in violations[:6]:
            print("failed obligation [%s] %s: %s%s" % (v[0], v[1]["kind"], v[1]["name"], "" if v[3] else " (not replayed)"))
        print("VIOLATION property=%s replay=%s%s" % (pid, rp, "" if conf else " no-failing-input-found"))
        return 1
    return 0


def z3v():
    import z3
    return z3.get_version_string()


def registry_assumptions():
    import registry
    return registry.COMMON_ASSUMPTIONS


if __name__ == "__main__":
    main()
