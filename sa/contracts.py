"""Reference contracts: the summary of a function of the analysed program is
related to the summary of a small reference definition (specs/*.py), computed
by the same analysis."""
import ast
import os
import time

from . import terms as tm
from .terms import T, mk, sym, const, TRUE, FALSE, NONE, ite
from .program import Program, Module, Func, AnalysisError
from .engine import Interp, COPIES, DEBUG_ATTRS, TRACE, Unsupported
from . import equiv, unroll
from .equiv import (EQUAL, DIFFERENT, UNDECIDED, Relation, compare, NUMCALLS,
                    Verdict)

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECDIR = os.path.join(HERE, "specs")

# Small query methods: their calls may be replaced by their bodies and the
# other way round without anybody noticing.
INLINEABLE = frozenset("""
SlownessModel.getSlownessLayer SlownessModel.getNumLayers
SlownessModel.getMinRayParam SlownessModel.getMinTurnRayParam
SlownessModel.depthInFluid SlownessModel.depthInHighSlowness
SlownessModel.layerNumberAbove SlownessModel.layerNumberBelow
SlownessModel.layerNumForDepth SlownessModel.findDepth_from_depths
SlownessModel.toSlowness SlownessModel.interpolate
SlownessModel.approxDistance
TauModel.getTauBranch TauModel.findBranch TauModel.getBranchDepths
VelocityLayer.thickness VelocityLayer.evaluateAtBottom
VelocityLayer.evaluateAtTop VelocityLayer.evaluateAt
VelocityModel.layerNumberAbove VelocityModel.layerNumberBelow
VelocityModel.evaluateAbove VelocityModel.evaluateBelow
VelocityModel.depthAtTop VelocityModel.depthAtBottom
VelocityModel.getNumLayers VelocityModel.getDisconDepths
SlownessLayer.hasZeroThickness TimeDist.getDistDeg Arrival.getDistDeg
Arrival.getModuloDistDeg SlownessLayer.evaluateAtBullen
VelocityModel.__len__ Arrival.rayParam_sec_degree Arrival.purist_distance
""".split())

# The public methods and functions of the package that have a contract of
# their own and therefore stay calls.  Everything else is analysed in place.
ANCHORS = frozenset("""
SeismicPhase.calcTime SeismicPhase.calcPierce SeismicPhase.calcPath
SeismicPhase.calcPierceFromArrival SeismicPhase.calcPathFromArrival
SeismicPhase.handleHeadOrDiffractedWave SeismicPhase.linearInterpArrival
SeismicPhase.addToBranch SeismicPhase.sumBranches SeismicPhase.parseName
SeismicPhase.createPuristName SeismicPhase.phaseConversion
SeismicPhase.getEarliestArrival
legPuller closestBranchToDepth getPhaseNames parsePhaseList
great_circle_dist load create_from_vlayer create_taup_model
SlownessLayer.validate SlownessLayer.bullenRadialSlowness
SlownessLayer.bullenDepthFor
SlownessModel.createSample SlownessModel.findCriticalPoints
SlownessModel.findDepth SlownessModel.coarseSample
SlownessModel.addSlowness SlownessModel.rayParamIncCheck
SlownessModel.depthIncCheck SlownessModel.distanceCheck
SlownessModel.layerTimeDist SlownessModel.fixCriticalPoints
SlownessModel.validate SlownessModel.splitLayer
SlownessModel.fixCriticalDepths SlownessModel.fixOtherLayers
TauBranch.createBranch TauBranch.calcTimeDist TauBranch.insert
TauBranch.shiftBranch TauBranch.difference TauBranch.path
TauModel.calcTauIncFrom TauModel.writeModel TauModel.validate
TauModel.depthCorrect TauModel.loadFromDepthCache TauModel.splitBranch
TauP_Create.loadVMod TauP_Create.createTauModel TauP_Create.run
TauP_Time.run TauP_Time.depthCorrect TauP_Time.recalcPhases
TauP_Time.calculate TauP_Time.calcTime TauP_Time.sortArrivals
TauP_Time.printResult TauP_Time.readcmdLineArgs
TauP_Path.calculate TauP_Path.calcPath TauP_Path.printResult
TauP_Pierce.depthCorrect TauP_Pierce.calculate TauP_Pierce.calcPierce
TauP_Pierce.printResult
VelocityModel.validate VelocityModel.readVelocityFile
VelocityModel.readTVelFile VelocityModel.fixDisconDepths
_get_model_filename
""".split())

# calls that change their receiver or an argument
EFFECTS = frozenset("""
SlownessModel.findCriticalPoints SlownessModel.coarseSample
SlownessModel.addSlowness SlownessModel.rayParamIncCheck
SlownessModel.depthIncCheck SlownessModel.distanceCheck
SlownessModel.fixCriticalPoints SlownessModel.createSample
SlownessModel.fixCriticalDepths
SlownessModel.validate TauBranch.createBranch TauBranch.insert
TauBranch.shiftBranch TauModel.calcTauIncFrom TauModel.validate
SeismicPhase.addToBranch SeismicPhase.sumBranches SeismicPhase.parseName
TauP_Time.depthCorrect TauP_Time.recalcPhases TauP_Time.calculate
TauP_Time.calcTime TauP_Time.sortArrivals TauP_Time.run
TauP_Time.readcmdLineArgs
TauP_Path.calculate TauP_Path.calcPath TauP_Pierce.depthCorrect
TauP_Pierce.calculate TauP_Pierce.calcPierce VelocityModel.validate
VelocityModel.fixDisconDepths TauP_Create.run TauModel.writeModel
SlownessLayer.validate
SeismicPhase.calcPierceFromArrival SeismicPhase.calcPathFromArrival
TauP_Time.printResult TauP_Path.printResult TauP_Pierce.printResult
""".split())

# what these print is part of what they do
PRINTING = frozenset("""
TauP_Time.printResult TauP_Path.printResult TauP_Pierce.printResult
TauP_Path.printDistRadius
""".split())


_specs = {}


def spec_module(program, fname):
    """Reference definitions, made visible next to the program's classes."""
    path = os.path.join(SPECDIR, fname + ".py")
    with open(path, encoding="utf-8") as fh:
        m = Module("specs/%s.py" % fname, fh.read())
    m.is_spec = True
    return m


def listcontent(t):
    if t.op == "ite":
        return ite(t.args[0], listcontent(t.args[1]), listcontent(t.args[2]))
    if t.op in ("seq", "store"):
        return t
    return mk("seq", mk("lst", t))


class Result(object):
    """One obligation: a component of one contract in one case."""

    def __init__(self, qual, case, what, status, why="", where="",
                 witness=None):
        self.qual, self.case, self.what = qual, case, what
        self.status, self.why, self.where = status, why, where
        self.witness = witness

    def __repr__(self):
        return "%s%s %s: %s %s %s" % (
            self.qual, "[%s]" % self.case if self.case else "", self.what,
            self.status, self.why, self.where)


class Contract(object):
    def __init__(self, qual, spec, cases=None, fields=None, outcome=True,
                 inline=(), opaque=(), trace=True, facts=None, types=None,
                 ignore=(), only_exits=None, project=None, keep=()):
        self.qual, self.spec = qual, spec
        self.cases = cases or [("", {})]
        self.fields, self.outcome, self.inline = fields, outcome, set(inline)
        self.opaque, self.trace = set(opaque), trace
        self.facts, self.types = facts, types
        self.ignore = set(ignore)
        self.project = project
        self.keep = set(keep)


def declared(program):
    """{Class.attribute: expression}: the class attributes as the reference
    definitions understand them.  Codes keep the values they have in the
    program as long as they are told apart."""
    if getattr(program, "_declared", None) is None:
        with open(os.path.join(SPECDIR, "constants.py"),
                  encoding="utf-8") as fh:
            m = Module("specs/constants.py", fh.read())
        table = {k.value: ast.parse(v.value, mode="eval").body for k, v in
                 zip(m.consts["DECLARED"].keys, m.consts["DECLARED"].values)}
        for group in m.consts["CODES"].elts:
            now = {}
            for q in group.elts:
                c, n = q.value.split(".")
                c = program.classes.get(c)
                r = program.find_class_attr(c, n) if c else None
                if r and isinstance(r[1], ast.Constant):
                    now[q.value] = r[1]
            if len(now) == len(group.elts) and len(set(
                    (type(e.value), e.value) for e in now.values())) == \
                    len(now):
                table.update(now)
        program._declared = table
    return program._declared


def fallible(program, quals, sf):
    """{function: exceptions it may raise that a reference handles}"""
    types = []
    for n in ast.walk(sf.node):
        if isinstance(n, ast.ExceptHandler):
            ts = n.type.elts if isinstance(n.type, ast.Tuple) else [n.type]
            types += [getattr(x, "id", None) for x in ts]
    out = {}
    if any(t in program.classes for t in types):
        for q in quals:
            try:
                f = program.func(q)
            except AnalysisError:
                continue
            names = [n for n in sorted(program.raised(f))
                     if Interp.exc_match(Interp, n, types)]
            if names:
                out[q] = names
    return out


def make_interp(program, target, c, extra_inline, sf=None):
    op = set(ANCHORS | INLINEABLE | c.opaque) - set(c.inline) - \
        set(extra_inline) - {target}
    it = Interp(program, opaque_calls=op,
                effects=(EFFECTS - set(c.inline)) & op, types=c.types,
                fallible=fallible(program, sorted(op), sf) if sf else {})
    it.declared = declared(program)
    it.prints = c.qual in PRINTING
    return it


def bindings(params, spec_func, case):
    """Terms for the parameters: by position, named as in the reference."""
    out = {}
    for i, pn in enumerate(spec_func.params()):
        if pn in case:
            out[i] = case[pn] if isinstance(case[pn], T) else const(case[pn])
        elif i == 0 and pn in ("self", "cls"):
            continue
        else:
            out[i] = sym(pn)
    return out


def call_names(summary):
    """Names of the uninterpreted calls reachable from a summary."""
    seen = set()
    for r in roots(summary):
        tm.subterms(r, seen)
    return {t.args[0] for t in seen if t.op == "call"}


def roots(s):
    return live(s)[0]


def live(s):
    """(terms of a summary that matter, ids of the loops they refer to)"""
    if getattr(s, "_live", None) is None:
        out = [e.value for e in s.exits] + [e.guard for e in s.exits]
        out += list(s.heap.values())
        done, seen, todo = set(), set(), list(out)
        while todo:
            for x in _newsub(todo.pop(), seen):
                if x.op in ("loopout", "loopexit", "atexit", "atend") and \
                        x.args[0] in s.loops and x.args[0] not in done:
                    done.add(x.args[0])
                    L = s.loops[x.args[0]]
                    r = [v for c in L.carried.values() for v in c]
                    r += [L.leave, L.cond]
                    if L.n is not None:
                        r.append(L.n)
                    out += r
                    todo += r
        s._live = (out, done)
    return s._live


def _newsub(t, seen):
    new = []
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        new.append(x)
        for a in x.args:
            if isinstance(a, T):
                stack.append(a)
    return new


def leaves(t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            if x.op == "ite":
                todo += x.args[1:]
            else:
                yield x


def struct_fields(t):
    """Fields of the records a result consists of, if it is one of those."""
    out = set()
    for x in leaves(t):
        if x.op == "struct":
            out |= set(x.args[1::2])
    return out


def field_of(t, f, memo=None):
    """A field of a record result; with f None, the result without fields."""
    memo = {} if memo is None else memo
    if t.op == "ite":
        if t not in memo:
            memo[t] = ite(t.args[0], field_of(t.args[1], f, memo),
                          field_of(t.args[2], f, memo))
        return memo[t]
    if t.op == "struct":
        if f is None:
            return mk("struct", t.args[0])
        if f in t.args[1::2]:
            return t.args[2 + 2 * list(t.args[1::2]).index(f)]
    return t


# calls that cannot be expressed by other things the analysed code does
PRIMITIVE = frozenset(["count", "len", "lower", "print", "fmt", "str", "repr",
                       "strrep"])


class Checker(object):
    def __init__(self, program, seed=1):
        self.p = program
        self.seed = seed
        self.mods = {}
        self.stats = {"functions": 0, "cases": 0, "terms": 0, "loops": 0,
                      "obligations": 0}

    def spec(self, ref):
        fname, name = ref.split(":")
        if fname not in self.mods:
            self.mods[fname] = spec_module(self.p, fname)
        m = self.mods[fname]
        f = m.functions.get(name)
        if f is None:
            raise AnalysisError("no reference %s" % ref)
        return f

    def check(self, c):
        try:
            func = self.p.func(c.qual)
        except AnalysisError as e:
            raise
        sf = self.spec(c.spec)
        self.judged, self.budget = {}, 100
        self.stats["functions"] += 1
        out = []
        for cname, case in c.cases:
            self.stats["cases"] += 1
            try:
                out += self.check_case(c, func, sf, cname, case)
            except Unsupported as e:
                out.append(Result(c.qual, cname, "summary", UNDECIDED,
                                  "unsupported construct %s" % e,
                                  func.where()))
        out += self.check_defaults(c, func, sf)
        self.stats["obligations"] += len(out)
        return out

    def check_defaults(self, c, func, sf):
        """A call that leaves an argument out means what it should."""
        it = make_interp(self.p, c.qual, c, ())
        da, db = func.defaults(), sf.defaults()
        pa, out = func.params(), []
        for i, pn in enumerate(sf.params()):
            if pn not in db or i >= len(pa) or pn in DEBUG_ATTRS:
                continue
            what = "default of %s" % pn
            y = it.static_expr(db[pn], sf.module, func.cls)
            if pa[i] not in da:
                out.append(Result(c.qual, "", what, UNDECIDED,
                                  "the parameter has no default",
                                  func.where()))
                continue
            x = it.static_expr(da[pa[i]], func.module, func.cls)
            if x is y:
                out.append(Result(c.qual, "", what, EQUAL,
                                  "same value number", func.where()))
                continue
            try:
                rs = self.check_case(c, func, sf, what,
                                     {pn: (x, y)})
            except Unsupported as e:
                rs = []
            bad = [r for r in rs if r.status == DIFFERENT]
            if bad:
                r = bad[0]
                out.append(Result(
                    c.qual, "", "%s: %s" % (what, r.what), DIFFERENT,
                    r.why, func.where(da[pa[i]]), r.witness))
            else:
                out.append(Result(
                    c.qual, "", what, EQUAL if rs and all(
                        r.status == EQUAL for r in rs) else UNDECIDED,
                    "", func.where()))
        return out

    def summaries(self, c, func, sf, case, extra):
        a = make_interp(self.p, c.qual, c, extra, sf)
        b = make_interp(self.p, c.qual, c, extra, sf)
        both = case
        case = {k: v[0] if isinstance(v, tuple) else v
                for k, v in both.items()}
        bind = bindings(func.params(), sf, case)
        if func.cls is not None and func.kind in ("method", "property"):
            b.types[sym("self")] = func.cls.name
            a.types[sym("self")] = func.cls.name
        elif func.kind == "classmethod":
            bind.pop(0, None)
        for t, v in (c.types or {}).items():
            tt = t if isinstance(t, T) else sym(t)
            a.types[tt] = b.types[tt] = v
        for t, v in (c.facts or {}).items():
            a.facts[t] = v
            b.facts[t] = v
        sa = a.summarise(func, dict(bind))
        bind2 = dict(bind)
        bind2.update((i, v) for i, v in bindings(func.params(), sf, {
            k: v[1] if isinstance(v, tuple) else v
            for k, v in both.items()}).items() if i in bind)
        if func.kind == "classmethod":
            bind2[0] = mk("class", func.cls.name)
        elif func.cls is not None and func.kind != "staticmethod":
            bind2[0] = sym("self")
        # the reference runs in the class of the function it describes
        sf.cls = func.cls
        sb = b.summarise(sf, bind2)
        return sa, sb

    def check_case(self, c, func, sf, cname, case):
        extra = set()
        for _ in range(3):
            sa, sb = self.summaries(c, func, sf, case, extra)
            na, nb = call_names(sa), call_names(sb)
            more = ((na ^ nb) & INLINEABLE) - extra - c.keep
            if not more:
                break
            extra |= more
        out = self.relate(c, func, cname, sa, sb)
        more = ((na | nb) & INLINEABLE) - extra - c.keep
        if more and any(r.status == DIFFERENT for r in out):
            # perhaps one of several calls was replaced by what it does
            again = self.relate(c, func, cname, *self.summaries(
                c, func, sf, case, extra | more))
            if all(r.status == EQUAL for r in again):
                return again
        return out

    def relate(self, c, func, cname, sa, sb):
        na, nb = call_names(sa), call_names(sb)
        rel = Relation(sa, sb, live(sb)[1], self.seed, live(sa)[1])
        one = na ^ nb
        if not (na - nb - NUMCALLS) and len(sa.loops) <= len(sb.loops):
            # nothing in the code could stand in for these
            one -= PRIMITIVE
        rel.oneside = {n for n in one
                       if n not in ANCHORS and n not in INLINEABLE and
                       n not in c.keep and n not in self.p.classes}
        rel.told = {t for r in roots(sb) for t in tm.subterms(r)} \
            if "len" in rel.oneside else None
        self.stats["terms"] += len(call_names(sa)) + sum(
            len(tm.subterms(r)) for r in roots(sa)[:200])
        self.stats["loops"] += len(sa.loops)
        if sa.interp.notes:
            rel.notes = list(sa.interp.notes)
        out = []
        comps = []
        if c.outcome:
            x, y = sa.outcome(), sb.outcome()
            fields = struct_fields(y)
            if fields:
                for f in sorted(fields):
                    comps.append(("result." + f, field_of(x, f),
                                  field_of(y, f), None))
                x, y = field_of(x, None), field_of(y, None)
            comps.append(("result", x, y, None))
        rel.in_order(None)
        # locations of objects that are reached through a loop of the code
        # are named by the corresponding loop of the reference
        ha = {}
        for k, v in sa.heap.items():
            base = rel.tr(k[1])
            if any(x.op == "unmatched" for x in tm.subterms(base)):
                continue
            ha[(k[0], base) + k[2:]] = v
        sa.heap = ha
        sb.heap = {k: v for k, v in sb.heap.items() if not any(
            x.op in ("loopout", "loopexit", "atexit", "atend")
            and x.args[0] not in rel.used for x in tm.subterms(k[1]))}
        keys = set(sa.heap) | set(sb.heap)
        initial = self.initial(func, sa.interp) \
            if func.name == "__init__" else {}
        for k in sorted(keys, key=lambda k: equiv.kn(k)):
            if k[1].op == "ref" or k[1] is COPIES:
                continue
            if k[1] is TRACE:
                if not c.trace:
                    continue
            elif k[0] == "f" and c.fields is not None and \
                    k[2] not in c.fields:
                continue
            elif k[0] == "c" and c.fields is not None and not (
                    k[1].op == "attr" and k[1].args[1] in c.fields):
                continue
            if k[0] == "f" and k[2] in c.ignore:
                continue
            d = e = sa.interp.default(k)
            if k in initial:
                d, e = [d if z is None else z for z in initial.pop(k)]
            comps.append((
                "calls made" if k[1] is TRACE else equiv.kn(k),
                sa.heap.get(k, tm.restrict(d, sa.ok)),
                sb.heap.get(k, tm.restrict(e, sb.ok)), k))
        for k, (d, e) in initial.items():
            # what instances start with, set by neither of the two
            if d is not None and e is not None:
                comps.append(("initial " + equiv.kn(k), d, e, None))
        late = []
        comps = self.rebound_lists(rel, sa, sb, comps)
        for what, x, y, k in comps:
            if c.project is not None:
                x, y = c.project(what, x), c.project(what, y)
                if x is None:
                    continue
            where = self.where(func, sa, what, x, k)
            given = TRUE
            if k is not None:
                given = sb.ok
            if getattr(self, "force", False):
                r = Result(c.qual, cname, what, EQUAL)
                late.append((len(out), what, x, y, given))
                out.append(r)
                continue
            if x is y:
                out.append(Result(c.qual, cname, what, EQUAL,
                                  "same value number", where))
                continue
            rel.failed = {}
            rel.memo = {}
            v = rel.eq(x, y, given)
            if v.status == UNDECIDED:
                bl = rel.blame()
                if bl and self.harmless(sa, sb, (x, y, given), one,
                                        bl[0]):
                    # the loops are not the same, but amount to the same
                    v.why = "loop at line %d" % bl[0][0].line
                    bl = []
                if bl:
                    L, w, bv, _ = bl[0]
                    out.append(Result(
                        c.qual, cname, "%s: %s the loop" % (what, w),
                        DIFFERENT, bv.why, "%s:%d" % (
                            func.module.path, L.line), bv.witness))
                    continue
                gone = rel.dropped(x, y, given)
                if gone:
                    out.append(Result(
                        c.qual, cname, what, DIFFERENT,
                        "nothing does what the loop of the reference at its "
                        "line %d does to %s" % (gone[0].line,
                                                equiv.kn(gone[1])), where))
                    continue
                late.append((len(out), what, x, y, given))
            if v.status == DIFFERENT and what == "result":
                where = self.exit_where(func, sa, sb, rel, v) or where
            out.append(Result(c.qual, cname, what, v.status, v.why, where,
                              v.witness))
        if late and not any(r.status == DIFFERENT for r in out):
            sep = self.separate(sa, sb, [x[2:] for x in late], one, [
                i for i, x in enumerate(late) if x[1] == "calls made"])
            for i, v in sep.items():
                r = out[late[i][0]]
                r.status, r.why, r.witness = v.status, v.why, v.witness
        return out

    def initial(self, func, interp):
        """What the attributes of a new instance are before __init__: the
        values in its class, in the program and in the reference."""
        out = {}
        for q, expr in declared(self.p).items():
            c, n = q.split(".")
            if func.cls is None or c != func.cls.name or n in DEBUG_ATTRS \
                    or n.startswith("__") or n not in interp.stored_attrs():
                continue
            x, y = None, interp.static_expr(expr, func.module, func.cls)
            r = self.p.find_class_attr(func.cls, n)
            if r is not None:
                x = interp.static_expr(r[1], r[0].module, r[0])
            out["f", sym("self"), n] = x, y
        return out

    def rebound_lists(self, rel, sa, sb, comps):
        """self.x = self.x + y  where the reference has  self.x += y:  what
        the list named self.x holds is the same, and the list that had this
        name before is left alone."""
        by = {k: i for i, (_w, _x, _y, k) in enumerate(comps)
              if k is not None}
        drop = set()
        for k, i in by.items():
            if k[0] != "f":
                continue
            c = ("c", sa.interp.default(k))
            j = by.get(c)
            if j is None or k in sb.heap or c in sa.heap:
                continue
            what = "content of %s" % comps[i][0]
            x, y = listcontent(comps[i][1]), comps[j][2]
            if x is y or rel.eq(x, y, sb.ok).status == EQUAL:
                comps[i] = (what, x, y, k)
                drop.add(j)
        return [c for i, c in enumerate(comps) if i not in drop]

    def separate(self, sa, sb, parts, oneside, logs):
        """Witnesses that components differ, with peeled loops: {number of
        the component: verdict}."""
        if not sa.loops and not sb.loops:
            return {}

        def foreign(t):
            return t.op == "call" and t.args[0] in oneside and \
                t.args[0] not in NUMCALLS and \
                t.args[0] not in unroll.STRINGCALLS and \
                t.args[0] not in unroll.LISTCALLS
        return unroll.separate(
            parts, unroll.Loops(sa.loops, sb.loops), roots(sa) + roots(sb),
            foreign, self.seed, self.seconds, logs=logs)

    def harmless(self, sa, sb, part, oneside, blamed):
        def foreign(t):
            return t.op == "call" and t.args[0] in oneside and \
                t.args[0] not in NUMCALLS and \
                t.args[0] not in unroll.STRINGCALLS
        L, w, _, site = blamed
        k = (L.line, w, site[1], site[2])
        known = self.judged.get(k)
        if known is None and k in self.judged or self.budget < 1:
            return known
        t0 = time.process_time()
        r = unroll.harmless(
            part, unroll.Loops(sa.loops, sb.loops), roots(sa) + roots(sb),
            foreign, (w, L.id, site), self.seed, min(30, self.budget))
        self.budget -= time.process_time() - t0
        self.judged[k] = r or None
        return r

    seconds = 20.0

    def where(self, func, s, what, x, k):
        if k is not None and k[0] == "f":
            w = s.interp.wlines.get((k[1], k[2]))
            if w:
                return "%s:%d" % w
        return func.where()

    def exit_where(self, func, sa, sb, rel, v):
        for e in sa.exits:
            r = compare(ite(rel.tr(e.guard), rel.tr(e.value), NONE),
                        ite(rel.tr(e.guard), sb.outcome(), NONE),
                        self.seed, foreign=rel.foreign)
            if r.status == DIFFERENT:
                return "%s:%d" % (func.module.path, e.line)
        return None
