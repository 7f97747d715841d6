"""Setup: checks that the tools are there and the specifications parse. Every check builds what it needs itself."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for c in (["cargo", "--version"], ["java", "-version"]):
    subprocess.run(c, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
bad = 0
for f in sorted(os.listdir(os.path.join(V, "spec"))):
    if f.endswith(".tla"):
        r = subprocess.run(["tla-sany", f], cwd=os.path.join(V, "spec"), capture_output=True, text=True)
        ok = r.returncode == 0 and "Error" not in r.stdout
        print(f, "ok" if ok else "FAILED\n" + r.stdout[-2000:])
        bad |= not ok
sys.exit(bad)
