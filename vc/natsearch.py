#!/opt/veriftools/pyvenv/bin/python3
"""natsearch.py PROPERTY [SECONDS] [PROOF-REGEX]: development aid. Runs every proof of a property natively on random inputs:
a proof that holds must never fail here (cross-check of the verifier against the compiled code)."""
import sys, os, re, tempfile, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "contracts"))
import registry, unit
pid = sys.argv[1]
secs = sys.argv[2] if len(sys.argv) > 2 else "2"
rx = sys.argv[3] if len(sys.argv) > 3 else "."
work = tempfile.mkdtemp(prefix="vc_nat_")
bad = 0
try:
    for u in registry.PROPS[pid]["units"]:
        exe = unit.build_native(u, work)
        txt = open(os.path.join(VERIF, "contracts", u["src"])).read()
        syms = subprocess.run(["nm", "-D", "--defined-only", exe], capture_output=True, text=True).stdout
        proofs = sorted(set(re.findall(r"vcproof_\w+", syms)))
        proofs = [p for p in proofs if re.search(u.get("proofs", "."), p) and re.search(rx, p)]

        def go(p):
            try:
                r = subprocess.run([exe, "search", p, "1", secs], capture_output=True, text=True, timeout=float(secs) + 60, cwd=work, errors="replace")
                return p, r.returncode, (r.stdout + r.stderr)
            except subprocess.TimeoutExpired:
                return p, -1, "timeout"
        with ThreadPoolExecutor(8) as ex:
            for p, rc, out in ex.map(go, proofs):
                print("%-44s rc=%s %s" % (p, rc, out.strip().replace("\n", " | ")[:700 if rc else 120]))
                bad += rc != 0
finally:
    shutil.rmtree(work, ignore_errors=True)
sys.exit(bad != 0)
