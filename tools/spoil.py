"""The contract of the shared pointers must notice a spoiled protocol: runs MCConc with one step weakened
(or its logic removed) at a time and says what TLC finds. Expected to be noticed: all but those marked
harmless, which change nothing a program can see."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from vlib import core
HARMLESS = {("arc", "gm"), ("arc", "mw"), ("urc", "mw")}
ok = True
for fam, steps in (("arc", "rs vdf frf rw gm gs ms mw uw nolock inplace"), ("urc", "rs vdf frf rw ug ms mw uw toweak inplace")):
    for w in steps.split():
        try:
            core.model_scripts("MCConc", dict(Fam='"%s"' % fam, PerThread="2", Total="3", Weak='{"%s"}' % w), 8)
            seen = False
        except core.ToolError as e:
            seen = "is violated" in str(e)
        want = (fam, w) not in HARMLESS
        ok &= seen == want
        print(fam, w, "noticed" if seen else "unnoticed", "" if seen == want else "UNEXPECTED", flush=True)
sys.exit(0 if ok else 1)
