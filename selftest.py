"""How sharp are the contracts?  Every analysed function is changed in small
ways (in memory, in the syntax tree only; nothing is run) and each changed
function is compared with its reference."""
import ast
import copy
import multiprocessing
import random
import signal
import time

import registry
from sa.program import Program, Func
from sa.contracts import Checker
from sa.equiv import EQUAL, DIFFERENT

PER_FUNCTION = 24
LIMIT = 60

CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
       ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}
ARITH = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div,
         ast.Div: ast.Mult}
SWAP = {}
for _a, _b in (("topDepth", "botDepth"), ("topP", "botP"),
               ("PLayers", "SLayers"), ("time", "dist"),
               ("topPVelocity", "botPVelocity"),
               ("topSVelocity", "topPVelocity"),
               ("pLayerNum", "sLayerNum"), ("maxRayParam", "minRayParam"),
               ("mohoBranch", "cmbBranch"), ("cmbDepth", "iocbDepth"),
               ("layerNumberAbove", "layerNumberBelow")):
    SWAP[_a], SWAP[_b] = _b, _a


def mutants(fn):
    """(kind, line, changed copy of the function)"""
    nodes = list(ast.walk(fn))

    def at(c, i):
        return list(ast.walk(c))[i]

    for i, n in enumerate(nodes):
        line = getattr(n, "lineno", 0)
        if isinstance(n, ast.Compare):
            for k, op in enumerate(n.ops):
                if type(op) in CMP:
                    c = copy.deepcopy(fn)
                    at(c, i).ops[k] = CMP[type(op)]()
                    yield "comparison", line, c
        elif isinstance(n, ast.BinOp) and type(n.op) in ARITH and not (
                isinstance(n.left, ast.Constant)
                and isinstance(n.left.value, str)):
            c = copy.deepcopy(fn)
            at(c, i).op = ARITH[type(n.op)]()
            yield "arithmetic", line, c
        elif isinstance(n, ast.BoolOp):
            c = copy.deepcopy(fn)
            x = at(c, i)
            x.op = ast.Or() if isinstance(x.op, ast.And) else ast.And()
            yield "connective", line, c
        elif isinstance(n, ast.Constant) and isinstance(
                n.value, (bool, int, float)):
            c = copy.deepcopy(fn)
            at(c, i).value = (not n.value) if isinstance(
                n.value, bool) else n.value + 1
            yield "constant", line, c
        elif isinstance(n, ast.Attribute) and n.attr in SWAP:
            c = copy.deepcopy(fn)
            at(c, i).attr = SWAP[n.attr]
            yield "attribute", line, c
        elif isinstance(n, ast.Call) and len(n.args) >= 2:
            c = copy.deepcopy(fn)
            x = at(c, i)
            x.args[0], x.args[1] = x.args[1], x.args[0]
            yield "arguments", line, c
        if isinstance(getattr(n, "body", None), list):
            for fld in ("body", "orelse"):
                for k, s in enumerate(getattr(n, fld, []) or []):
                    if isinstance(s, (ast.Expr, ast.Pass, ast.Raise)) and \
                            not (isinstance(s, ast.Expr) and isinstance(
                                s.value, ast.Call) and getattr(
                                    s.value.func, "id", "") != "print"):
                        continue
                    c = copy.deepcopy(fn)
                    b = getattr(at(c, i), fld)
                    b[k] = ast.copy_location(ast.Pass(), s)
                    yield "removed statement", s.lineno, c


class _Up(Exception):
    pass


def _alarm(*_):
    raise _Up()


_ctx = {}


def _one(job):
    qual, ref, kind, line, node, seed = job
    program = Program(_ctx["program"].sources)
    f = program.func(qual)
    g = Func(f.module, f.cls, ast.fix_missing_locations(node), f.kind)
    if f.cls is not None:
        f.cls.methods[f.name] = g
    else:
        f.module.functions[f.name] = g
        program.functions[f.name] = g
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(LIMIT)
    try:
        rs = Checker(program, seed).check(
            registry.contract(qual, ref, g.params()))
        st = {r.status for r in rs}
    except _Up:
        return qual, kind, line, "out of time"
    except Exception as e:
        return qual, kind, line, "undecided"
    finally:
        signal.alarm(0)
    if DIFFERENT in st:
        return qual, kind, line, "detected"
    if st == {EQUAL}:
        return qual, kind, line, "equal"
    return qual, kind, line, "undecided"


def run(program, quals, refs, seed, budget=420):
    """Counts of the small changes that the contracts tell apart."""
    t0 = time.time()
    _ctx["program"] = program
    jobs = []
    rnd = random.Random(seed)
    for q in sorted(set(quals)):
        try:
            f = program.func(q)
        except Exception:
            continue
        ms = list(mutants(f.node))
        if len(ms) > PER_FUNCTION:
            ms = rnd.sample(ms, PER_FUNCTION)
        jobs += [(q, refs[q], k, ln, n, seed) for k, ln, n in ms]
    rnd.shuffle(jobs)
    out = {"detected": 0, "equal": 0, "undecided": 0, "out of time": 0,
           "generated": len(jobs), "not reached in time": 0}
    rest = []
    with multiprocessing.get_context("fork").Pool(8) as pool:
        it = pool.imap_unordered(_one, jobs, chunksize=1)
        for _ in jobs:
            left = budget - (time.time() - t0)
            if left <= 0:
                break
            try:
                q, k, ln, st = it.next(timeout=left)
            except multiprocessing.TimeoutError:
                break
            out[st] += 1
            if st != "detected":
                rest.append("%s:%d %s: %s" % (q, ln, k, st))
        pool.terminate()
    out["not reached in time"] = len(jobs) - sum(
        out[k] for k in ("detected", "equal", "undecided", "out of time"))
    out["not told apart"] = sorted(rest)[:60]
    return out
