"""setup: nothing to build ahead (checks build from /repo each run); verifies that the tools are present."""
import sys, os, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3, ir
r = subprocess.run(["/usr/bin/clang++", "--version"], capture_output=True, text=True)
print(r.stdout.split("\n")[0], "| z3", z3.get_version_string(), "| LLVM-C loaded")
sys.exit(r.returncode)
