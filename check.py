#!/usr/bin/env python3
"""Decide one property of taupy by static analysis of /repo.

    check.py P07 [--tier quick|thorough] [--list]
"""
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)

import argparse
import json
import multiprocessing
import re
import signal
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

import props
import registry
from sa.program import Program, AnalysisError
from sa.contracts import Checker
from sa.equiv import EQUAL, DIFFERENT, UNDECIDED

LIMIT = {"quick": 400, "thorough": 600}


class TimeUp(Exception):
    pass


def alarm(*_):
    raise TimeUp()


_ctx = {}


def run_contract(job):
    """All components of one contract, as plain data."""
    qual, ref, seed, limit = job
    program = _ctx["program"]
    t0 = time.time()
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(limit)
    try:
        f = program.func(qual)
        ck = Checker(program, seed)
        rs = ck.check(registry.contract(qual, ref, f.params()))
        out = [dict(function=r.qual, case=r.case, what=r.what,
                    status=r.status, why=r.why, where=r.where,
                    witness=r.witness) for r in rs]
        stats = ck.stats
    except AnalysisError as e:
        out, stats = [dict(function=qual, case="", what="all",
                           status="missing", why=str(e), where="",
                           witness=None)], {}
    except TimeUp:
        out, stats = [dict(function=qual, case="", what="all",
                           status=UNDECIDED, why="out of time", where="",
                           witness=None)], {}
    except Exception as e:          # an idiom the engine does not know
        out, stats = [dict(function=qual, case="", what="all",
                           status=UNDECIDED, why="%s: %s" % (
                               type(e).__name__, e), where="",
                           witness=None,
                           trace=traceback.format_exc())], {}
    finally:
        signal.alarm(0)
    return qual, out, stats, time.time() - t0


def load_known():
    """Known findings: (property, function, reference of the known defect)."""
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    with open(path, encoding="utf-8") as fh:
        for line in fh:
            m = re.match(r"KNOWN-FINDING: property=(\S+) function=(\S+) "
                         r"known=(\S+) (.*)", line)
            if m:
                out.append(m.groups())
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = ap.parse_args(argv)
    pr = {p["id"]: p for p in props.P}[a.property]
    t0 = time.time()
    program = Program.from_repo()
    _ctx["program"] = program
    refs = registry.references()
    obligations = [(o, None) if isinstance(o, str) else o
                   for o in pr["obligations"]]
    jobs = [(q, refs[q], a.seed, LIMIT[a.tier]) for q, _ in obligations]
    ctx = multiprocessing.get_context("fork")
    # one process per function: no answer depends on what else is asked
    with ctx.Pool(min(8, max(1, len(jobs))), maxtasksperchild=1) as pool:
        results = list(pool.imap(run_contract, jobs, chunksize=1))
    findings, undecided, missing, equal, known = [], [], [], [], []
    stats = {}
    for (q, only), (_, out, st, _t) in zip(obligations, results):
        for k, v in st.items():
            stats[k] = stats.get(k, 0) + v
        for r in out:
            if r["status"] == "missing":
                missing.append(r)
                continue
            if only is not None and not re.search(only, r["what"]) and \
                    r["what"] != "all":
                continue
            {EQUAL: equal, DIFFERENT: findings,
             UNDECIDED: undecided}[r["status"]].append(r)
    for name in pr["analyses"]:
        mod = __import__("analyses." + name, fromlist=["run"])
        ok, bad, open_ = mod.run(program, a.tier, a.seed)
        equal += ok
        findings += bad
        undecided += open_
    # known defects: the function must be exactly the recorded one
    kept = []
    for r in findings:
        for pid, q, ref, text in load_known():
            if pid == a.property and q == r["function"]:
                out = run_contract((q, ref, a.seed, LIMIT[a.tier]))[1]
                if all(x["status"] != DIFFERENT for x in out) and \
                        any(x["status"] == EQUAL for x in out):
                    known.append(text)
                    break
        else:
            kept.append(r)
    findings = kept
    selftest = None
    if a.tier == "thorough":
        import selftest as st
        selftest = st.run(program, [q for q, _ in obligations], refs, a.seed)
    wall = time.time() - t0
    evidence(a, pr, program, obligations, equal, undecided, missing,
             findings, known, stats, wall, selftest)
    print("%s: %s" % (pr["id"], pr["title"]))
    print("analysed %d modules, %d functions; %d obligations: %d hold, "
          "%d undecided, %d violated, %d functions gone (%.1f s)" % (
              len(program.modules), len(set(q for q, _ in obligations)),
              len(equal) + len(undecided) + len(findings) + len(known),
              len(equal), len(undecided), len(findings), len(missing),
              wall))
    for r in undecided:
        print("  undecided: %s%s %s: %s" % (
            r["function"], " [%s]" % r["case"] if r["case"] else "",
            r["what"][:100], r["why"][:200]))
    for text in sorted(set(known)):
        print("KNOWN-FINDING: property=%s %s" % (pr["id"], text))
    if findings:
        path = os.path.join(HERE, "evidence", "%s.violation.txt" % pr["id"])
        with open(path, "w", encoding="utf-8") as fh:
            told = set()
            for r in findings:
                text = report(pr, r)
                fh.write(text + "\n")
                if (r["where"], r["why"]) not in told:
                    print(text)
                told.add((r["where"], r["why"]))
        print("VIOLATION property=%s replay=%s" % (pr["id"], path))
        return 1
    if len(missing) * 2 > len(obligations):
        print("analysis broken: the functions this property is about are "
              "gone: %s" % ", ".join(r["function"] for r in missing))
        return 2
    return 0


def report(pr, r):
    out = ["%s: %s%s" % (r["where"], r["function"],
                         " [%s]" % r["case"] if r["case"] else ""),
           "  rule: %s" % r.get(
               "rule", "the %s of the function has the value its reference "
               "definition gives" % ("result" if r["what"] == "result"
                                     else "component '%s'" % r["what"][:200])),
           "  found: %s" % r["why"][:400]]
    if r.get("witness"):
        out.append("  for example with: %s" % ", ".join(
            "%s = %s" % (k[:80], v) for k, v in
            list(r["witness"].items())[:12]))
    return "\n".join(out)


def evidence(a, pr, program, obligations, equal, undecided, missing,
             findings, known, stats, wall, selftest):
    cov = {
        "explanation":
            "Every listed function of the current source is summarised "
            "(all paths, symbolically, by global value numbering; nothing "
            "is executed) and its result, refusals, writes and calls are "
            "compared, one obligation each, with its reference definition "
            "in specs/. " + pr["note"],
        "modules": len(program.modules),
        "functions_analysed": sorted(set(q for q, _ in obligations)),
        "cases": stats.get("cases", 0),
        "loops_summarised": stats.get("loops", 0),
        "terms_compared": stats.get("terms", 0),
        "obligations": len(equal) + len(undecided) + len(findings) +
        len(known),
        "hold": len(equal),
        "undecided": len(undecided),
        "violated": len(findings),
        "known_findings": len(known),
        "functions_gone": [r["function"] for r in missing],
        "undecided_list": ["%s %s %s: %s" % (
            r["function"], r["case"], r["what"][:120], r["why"][:160])
            for r in undecided],
        "samples": ["%s %s %s (%s)" % (r["function"], r["case"],
                                       r["what"][:120], r["where"])
                    for r in (equal[:6] + equal[-2:])],
    }
    if selftest is not None:
        cov["selftest"] = selftest
    doc = {
        "property": pr["id"], "tier": a.tier, "seed": a.seed,
        "level": "other", "coverage": cov,
        "assumptions": [
            "arithmetic is compared over the reals (rounding, overflow and "
            "the order of floating-point operations are not modelled)",
            "attributes hold the kinds of values the constructors give them",
            "a component that cannot be decided is reported as undecided "
            "and raises no alarm"],
        "wall_s": round(wall, 3), "violations": len(findings)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pr["id"] + ".json"), "w",
              encoding="utf-8") as fh:
        json.dump(doc, fh, indent=1, sort_keys=True)


if __name__ == "__main__":
    sys.exit(main())
