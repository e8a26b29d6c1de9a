"""One contract per analysed function: its reference definition and cases."""
import glob
import os
import re

from sa.contracts import Contract, SPECDIR

WAVES = [("P waves", {"isPWave": True}), ("S waves", {"isPWave": False})]

# further case splits, by qualified name
CASES = {}


def references():
    """qualified name -> 'file:definition' for everything in specs/."""
    out = {}
    for path in sorted(glob.glob(os.path.join(SPECDIR, "*.py"))):
        mod = os.path.basename(path)[:-3]
        with open(path, encoding="utf-8") as fh:
            for q, n in re.findall(r"^# (\S+)\ndef (\w+)", fh.read(), re.M):
                out[q] = "%s:%s" % (mod, n)
    return out


def contract(qual, ref, params):
    cases = CASES.get(qual)
    if cases is None and "isPWave" in params:
        cases = WAVES
    return Contract(qual, ref, cases=cases)
