#!/opt/veriftools/pyvenv/bin/python3
"""replay.py REPLAY.json: run the counterexample of a failed obligation against the real code, natively."""
import sys, os, json, tempfile, shutil, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "contracts"))
import registry, unit, check
r = json.load(open(sys.argv[1]))
u = [u for u in registry.PROPS[r["property"]]["units"] if u["src"] == r["unit"]][0]
work = tempfile.mkdtemp(prefix="vc_replay_")
try:
    exe = unit.build_native(u, work)
    vf = os.path.join(work, "values")
    if r.get("values_file") and os.path.exists(r["values_file"]):
        shutil.copy(r["values_file"], vf)
    else:
        check.write_values(vf, r.get("values") or [])
    p = subprocess.run([exe, "replay", r["proof"], vf], cwd=work)
    print("exit", p.returncode, "(77 or a signal: the real code breaks the obligation; 0: it holds; 78: the input is outside the precondition)")
finally:
    shutil.rmtree(work, ignore_errors=True)
