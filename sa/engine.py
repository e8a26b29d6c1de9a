"""Gated value-numbering abstract interpreter.

`Interp.summarise(func, args)` walks the syntax tree of one function once and
computes, for every exit and every heap location it writes, a gated term over
the function's inputs.  Branches are joined with gates (ite), loops are
summarised by one symbolic iteration (an initial value, a value for the next
iteration and guards for leaving, per loop-carried location); nothing is ever
iterated or executed.  Helpers of the analysed program are inlined, constants
are propagated, infeasible constant branches are pruned.
"""
import ast
import itertools
import re
import string

from . import terms as tm
from .terms import (T, mk, const, sym, opaque, TRUE, FALSE, NONE, ZERO, ONE,
                    is_const, is_num, cval, add, sub, mul, div, neg, cmp_,
                    not_, and_, or_, ite, truth, fcall, isbool)

MAXDEPTH = 12
UNROLL = 400
LOOPIDS = [0]
REFIDS = itertools.count(1)
COPIES = sym("<copies>")       # ghost counters: copies made of an object
TRACE = sym("<effects>")        # ghost list: the effectful calls in order
# lists of one object that are parallel to each other: their lengths get the
# same value number (that they are kept in lockstep is a property of its own)
PARALLEL = {"time": "dist", "tau": "dist", "rayParams": "dist",
            "waveType": "branchSeq", "downGoing": "branchSeq",
            "legAction": "branchSeq"}

ATTR_TYPES = {
    "sMod": "SlownessModel", "vMod": "VelocityModel", "tMod": "TauModel",
    "tModDepth": "TauModel", "model": "TauModel", "phase": "SeismicPhase",
}
ELEM_TYPES = {
    "PLayers": "SlownessLayer", "SLayers": "SlownessLayer",
    "layers": "VelocityLayer", "criticalDepths": "CriticalDepth",
    "highSlownessLayerDepthsP": "DepthRange",
    "highSlownessLayerDepthsS": "DepthRange",
    "fluidLayerDepths": "DepthRange", "phases": "SeismicPhase",
    "arrivals": "Arrival", "tauBranches": ("list", "TauBranch"),
    "pierce": "TimeDist", "path": "TimeDist",
}
CALL_TYPES = {
    "TauModel.getTauBranch": "TauBranch",
    "SlownessModel.getSlownessLayer": "SlownessLayer",
    "SlownessModel.layerTimeDist": "TimeDist",
    "SlownessModel.approxDistance": "TimeDist",
    "SlownessLayer.bullenRadialSlowness": "TimeDist",
    "TauBranch.calcTimeDist": "TimeDist",
    "TauBranch.difference": "TauBranch",
    "SlownessModel.splitLayer": "SplitLayerInfo",
    "TauModel.splitBranch": "TauModel",
    "TauModel.depthCorrect": "TauModel",
    "create_from_vlayer": "SlownessLayer",
    "load": "TauModel",
    "SeismicPhase.linearInterpArrival": "Arrival",
    "TauP_Create.createTauModel": "TauModel",
    "VelocityModel.readTVelFile": "VelocityModel",
    "VelocityModel.readVelocityFile": "VelocityModel",
}
ELEM_CALLS = {
    "TauBranch.path": "TimeDist", "SeismicPhase.calcTime": "Arrival",
    "SeismicPhase.calcPierce": "Arrival", "SeismicPhase.calcPath": "Arrival",
    "SlownessModel.fixOtherLayers": "SlownessLayer",
}
DEBUG_ATTRS = ("DEBUG", "debug", "verbose")


class State(object):
    __slots__ = ("env", "heap", "guard", "events")

    def __init__(self, env, heap, guard, events):
        self.env, self.heap, self.guard, self.events = \
            env, heap, guard, events

    def copy(self):
        return State(dict(self.env), dict(self.heap), self.guard,
                     list(self.events))


class Exit(object):
    __slots__ = ("guard", "kind", "value", "state", "line")

    def __init__(self, guard, kind, value, state, line):
        self.guard, self.kind, self.value = guard, kind, value
        self.state, self.line = state, line


class Event(object):
    """An opaque effectful call, or a nested loop."""
    __slots__ = ("guard", "name", "args", "loop", "line", "term")

    def __init__(self, guard, name, args, loop, line, term=None):
        self.guard, self.name, self.args = guard, name, args
        self.loop, self.line, self.term = loop, line, term


class Loop(object):
    def __init__(self, lid, line):
        self.id, self.line = lid, line
        self.n = None           # number of iterations (term), or None
        self.cond = TRUE        # for general while loops
        self.entry = TRUE       # when it is reached (in the loop around it)
        self.idx = mk("lidx", lid)
        self.carried = {}       # key -> [init, phi, next]
        self.exits = []         # [guard, kind, line]
        self.events = []

    def __repr__(self):
        return "<loop%d n=%s exits=%d %s>" % (
            self.id, self.n, len(self.exits),
            {keyname(k): v[2] for k, v in self.carried.items()})


def written(t):
    """A ghost list: what loops write into the objects they go through."""
    return t.op == "sym" and t.args[0].startswith("<written ")


def keyname(k):
    if k[0] == "l":
        return k[1]
    if k[0] == "f":
        return "%s.%s" % (tm.show(k[1]), k[2])
    return "content(%s)" % tm.show(k[1])


class Frame(object):
    def __init__(self, func, module):
        self.func, self.module = func, module
        self.exits = []
        self.loopstack = []     # [breaks, continues]
        self.catch = []


class Unsupported(Exception):
    pass


class Summary(object):
    def __init__(self):
        self.exits, self.heap, self.loops = [], {}, {}
        self.events, self.interp = [], None

    def outcome(self):
        """The gated result over all exits."""
        t = None
        for e in reversed(self.exits):
            t = e.value if t is None else ite(e.guard, e.value, t)
        return t


class Exposed(object):
    """Upward exposed reads of the attributes of a method's receiver, and
    the attributes it sets on every path."""

    def __init__(self, interp, func):
        self.it, self.func = interp, func
        ps = func.params()
        self.me = ps[0] if ps else None
        self.reads = set()
        done = self.block(func.node.body, set())
        self.result = self.reads, done or set()

    def block(self, body, done):
        """Attributes set for certain after some statements, None when
        these never end."""
        for s in body:
            if done is None:
                break
            done = self.stmt(s, done)
        return done

    def both(self, a, b):
        return b if a is None else a if b is None else a & b

    def stmt(self, s, done):
        if isinstance(s, ast.If):
            self.expr(s.test, done)
            return self.both(self.block(s.body, set(done)),
                             self.block(s.orelse, set(done)))
        if isinstance(s, (ast.For, ast.While)):
            self.expr(s.iter if isinstance(s, ast.For) else s.test, done)
            self.block(s.body, set(done))
            self.block(s.orelse, set(done))
            return done
        if isinstance(s, ast.Try):
            d = self.block(s.body, set(done))
            if d is not None:
                d = self.block(s.orelse, d)
            for h in s.handlers:
                d = self.both(d, self.block(h.body, set(done)))
            if s.finalbody:
                e = self.block(s.finalbody, set(done))
                d = d if d is None or e is None else d | e
            return d
        if isinstance(s, ast.With):
            for i in s.items:
                self.expr(i.context_expr, done)
            return self.block(s.body, done)
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            self.expr(s, done)
            return done
        if isinstance(s, ast.Assign):
            self.expr(s.value, done)
            for t in s.targets:
                self.target(t, done)
            return done
        if isinstance(s, ast.AugAssign):
            self.expr(s.value, done)
            self.read(s.target, done)
            self.target(s.target, done)
            return done
        self.expr(s, done)
        if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
            return None
        return done

    def target(self, t, done):
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.target(x, done)
        elif self.mine(t):
            done.add(t.attr)
        elif not isinstance(t, ast.Name):
            self.expr(t, done)

    def mine(self, n):
        return isinstance(n, ast.Attribute) and isinstance(
            n.value, ast.Name) and n.value.id == self.me

    def read(self, n, done):
        if self.mine(n) and n.attr not in done and \
                n.attr not in DEBUG_ATTRS and \
                n.attr in self.it.stored_attrs():
            self.reads.add(n.attr)

    def expr(self, n, done):
        if isinstance(n, ast.Call) and self.mine(n.func) and self.func.cls:
            for x in n.args + [k.value for k in n.keywords]:
                self.expr(x, done)
            f = self.it.p.find_method(self.func.cls, n.func.attr)
            if f is not None:
                self.it.exposed(f)
                r, w = self.it.p._exposed[f.qual]
                self.reads |= r - done
                done |= w
            return
        if self.mine(n) and self.func.cls:
            f = self.it.p.find_method(self.func.cls, n.attr)
            if f is not None and f.kind == "property":
                self.it.exposed(f)
                self.reads |= self.it.p._exposed[f.qual][0] - done
            elif f is None:
                self.read(n, done)
            return
        for x in ast.iter_child_nodes(n):
            self.expr(x, done)


class Interp(object):
    def __init__(self, program, opaque_calls=(), effects=(), facts=None,
                 types=None, inline_all=True, classconst=True,
                 fallible=()):
        self.p = program
        self.opaque = set(opaque_calls)
        self.effects = set(effects)
        self.facts = dict(facts or {})
        self.types = dict(types or {})
        self.fallible = dict(fallible)      # qual -> exceptions it may raise
        self.loops = {}
        self.refinfo = {}
        self.stack = []
        self.frames = []
        self.closures = {}
        self.notes = []
        self.calls = []         # (call term, qual, args dict, guard, line)
        self._stored_attrs = None
        self.declared = {}      # class attributes of the reference
        self.nref = 0
        self.nloop = 0
        self.keep_events = False
        self.prints = False     # is printing an effect?
        self.splits = {}        # results of split: (string, separator)
        self.stable = set()
        self.ownstore = {}      # see own_elements
        self.loopctx = []
        self.wlines = {}
        self.origin = {}        # term -> (file, line) that first computed it

    # ---- summary ---------------------------------------------------------
    def summarise(self, func, args=None, heap=None, env=None):
        """Summarise func; args gives terms for (some) parameters by position
        index or name; the rest become symbols named by position."""
        args = dict(args or {})
        st = State({}, dict(heap or {}), TRUE, [])
        ps = func.params()
        for i, pn in enumerate(ps):
            if pn in args:
                v = args[pn]
            elif i in args:
                v = args[i]
            elif i == 0 and func.kind in ("method", "property"):
                v = sym("self")
                self.types.setdefault(v, func.cls.name)
            elif i == 0 and func.kind == "classmethod":
                v = mk("class", func.cls.name)
            else:
                v = sym(pn)
            st.env[pn] = v
        va = func.node.args
        for x in va.kwonlyargs:
            st.env[x.arg] = args.get(x.arg, sym(x.arg))
        if va.vararg:
            st.env[va.vararg.arg] = args.get(va.vararg.arg,
                                             sym(va.vararg.arg))
        if va.kwarg:
            st.env[va.kwarg.arg] = args.get(va.kwarg.arg, sym(va.kwarg.arg))
        fr = Frame(func, func.module)
        self.frames.append(fr)
        self.stack.append(func)
        try:
            end = self.block(func.node.body, st)
        finally:
            self.frames.pop()
            self.stack.pop()
        if end is not None:
            fr.exits.append(Exit(end.guard, "return", NONE, end,
                                 func.node.lineno))
        s = Summary()
        s.interp = self
        s.func = func
        s.loops = self.loops
        for e in fr.exits:
            v = tm.restrict(self.freeze(e.value, e.state), e.guard)
            s.exits.append(Exit(e.guard, e.kind, v, e.state, e.line))
        rets = [e for e in fr.exits if e.kind == "return"]
        s.ok = or_(*[e.guard for e in rets])
        if rets:
            st = self.merge_exits(rets)
            for k, v in st.heap.items():
                if k[1].op == "ref":
                    continue
                s.heap[k] = tm.restrict(self.freeze(v, st), s.ok)
            s.events = st.events
            s.final = st
        return s

    def merge_exits(self, exits):
        st = exits[-1].state.copy()
        for e in reversed(exits[:-1]):
            st = self.merge(e.guard, e.state, st)
        return st

    # ---- heap helpers ----------------------------------------------------
    def newref(self, info):
        self.nref += 1
        r = mk("ref", "r%d" % next(REFIDS))
        self.refinfo[r] = info
        return r

    def newlist(self, st, content):
        r = self.newref(("list",))
        st.heap[("c", r)] = content
        return r

    def default(self, key):
        if key[0] == "f":
            return mk("attr", key[1], key[2])
        if key[0] == "c":
            if key[1].op == "ref" or key[1] is TRACE or written(key[1]):
                return mk("seq")
            return mk("seq", mk("lst", key[1]))
        return sym("<undef %s>" % key[1])

    def content(self, t, st):
        """List content term of a list-valued term."""
        if ("c", t) in st.heap:
            return st.heap[("c", t)]
        if t.op == "seq" or t.op == "store":
            return t
        if t.op in ("listc", "tuple"):
            return mk("seq", *[mk("e", x) for x in t.args])
        if t.op == "ite":
            return ite(t.args[0], self.content(t.args[1], st),
                       self.content(t.args[2], st))
        if t.op == "ref":
            return mk("seq")
        if t.op == "slice":
            return self.slice_of(self.content(t.args[0], st), t.args[1],
                                 t.args[2])
        if t.op == "copy":
            if ("c", t.args[1]) in st.heap:
                return st.heap[("c", t.args[1])]
        return mk("seq", mk("lst", t))

    def mutate(self, t, st, fn, cond=TRUE):
        if t.op == "ite":
            self.mutate(t.args[1], st, fn, and_(cond, t.args[0]))
            self.mutate(t.args[2], st, fn, and_(cond, not_(t.args[0])))
            return
        old = self.content(t, st)
        new = fn(old)
        st.heap[("c", t)] = ite(cond, new, old)

    @staticmethod
    def seqof(c):
        return c.args if c.op == "seq" else (mk("lst", c),)

    def concat_lists(self, a, b):
        return self.normseq(self.seqof(a) + self.seqof(b))

    def normseq(self, pieces):
        """Merge adjacent segments of the same list, drop empty ones."""
        out = []
        for p in pieces:
            if p.op == "seg" and p.args[1] is p.args[2]:
                continue
            if p.op == "seg" and out and out[-1].op == "seg" and \
                    out[-1].args[0] is p.args[0] and \
                    out[-1].args[2] is p.args[1]:
                p = mk("seg", p.args[0], out[-1].args[1], p.args[2])
                out.pop()
            if p.op == "seg" and p.args[1] is ZERO and \
                    p.args[2] is mk("call", "len", p.args[0]):
                p = mk("lst", p.args[0])
            out.append(p)
        return mk("seq", *out)

    def plen(self, p):
        if p.op == "e":
            return ONE
        if p.op == "seg":
            return sub(p.args[2], p.args[1])
        return self.lenof_value(p.args[0])

    def lenof_value(self, v):
        if v.op == "attr" and v.args[1] in PARALLEL:
            v = mk("attr", v.args[0], PARALLEL[v.args[1]])
        if v.op == "loopout":
            n = self.grown(v)
            if n is not None:
                return n
        return mk("call", "len", v)

    def grown(self, v):
        """The length of a list to which every iteration of a loop added as
        many elements as any other, and no iteration was left early."""
        L = self.loops.get(v.args[0])
        if L is None or getattr(L, "leave", None) is not FALSE or \
                L.cond is not TRUE or L.n is None or not (
                    L.n.op == "call" and L.n.args[0] == "len"
                    or is_num(L.n) and cval(L.n) >= 0):
            return None
        for k, (init, phi, nxt) in L.carried.items():
            if k[0] == "c" and keyname(k) == v.args[1]:
                c = sub(self.length(nxt), mk("call", "len", phi))
                if not is_num(c):
                    return None
                return add(self.length(init), mul(c, L.n))
        return None

    def length(self, c):
        if c.op == "seq":
            return add(*[self.plen(p) for p in c.args]) if c.args else ZERO
        if c.op == "store":
            return self.length(c.args[0])
        if c.op == "ite":
            return ite(c.args[0], self.length(c.args[1]),
                       self.length(c.args[2]))
        return mk("call", "len", c)

    def split(self, c, i):
        """Split content c at index term i -> (left pieces, right pieces) or
        None when the position cannot be resolved symbolically."""
        pieces = list(self.seqof(c)) if c.op in ("seq",) else [mk("lst", c)]
        if is_num(i) and isinstance(cval(i), int) and cval(i) < 0:
            # from the end
            k = -cval(i)
            right = []
            while k and pieces:
                p = pieces[-1]
                if p.op == "e":
                    right.insert(0, pieces.pop())
                    k -= 1
                else:
                    base, lo, hi = self.segparts(p)
                    cut = sub(hi, const(k))
                    pieces[-1] = mk("seg", base, lo, cut)
                    right.insert(0, mk("seg", base, cut, hi))
                    k = 0
            return pieces, right
        pos = ZERO
        left = []
        while pieces:
            if pos is i:
                return left, pieces
            p = pieces[0]
            if p.op == "e":
                # only continue when we know that i is beyond
                left.append(pieces.pop(0))
                pos = add(pos, ONE)
                continue
            base, lo, hi = self.segparts(p)
            end = add(pos, sub(hi, lo))
            d = sub(i, end)
            if is_num(d) and cval(d) >= 0:
                left.append(pieces.pop(0))
                pos = end
                continue
            if len(pieces) > 1 and not (is_num(d) and cval(d) < 0):
                # assume the cut falls into this segment if it is the last
                # segment piece
                if any(q.op != "e" for q in pieces[1:]):
                    return None
            cut = add(lo, sub(i, pos))
            left.append(mk("seg", base, lo, cut))
            return left, [mk("seg", base, cut, hi)] + pieces[1:]
        if pos is i:
            return left, []
        return None

    def segparts(self, p):
        if p.op == "seg":
            return p.args
        return p.args[0], ZERO, self.lenof_value(p.args[0])

    def slice_of(self, c, lo, hi):
        if c.op == "ite":
            return ite(c.args[0], self.slice_of(c.args[1], lo, hi),
                       self.slice_of(c.args[2], lo, hi))
        if c.op not in ("seq",):
            c = mk("seq", mk("lst", c))
        if hi is not NONE:
            s = self.split(c, hi)
            if s is None:
                return mk("seq", mk("lst", mk("slice", c, lo, hi)))
            c = self.normseq(s[0])
        if lo is not NONE and lo is not ZERO:
            s = self.split(c, lo)
            if s is None:
                return mk("seq", mk("lst", mk("slice", c, lo, hi)))
            c = self.normseq(s[1])
        return self.normseq(c.args) if c.op == "seq" else c

    def list_insert(self, c, i, x):
        s = self.split(c, i) if c.op == "seq" else None
        if s is None:
            return mk("seq", mk("lst", mk("call", "inserted", c, i, x)))
        return self.normseq(s[0] + [mk("e", x)] + s[1])

    def list_delete(self, c, i):
        s = self.split(c, i) if c.op == "seq" else None
        if s is not None and s[1]:
            p = s[1][0]
            if p.op == "e":
                return self.normseq(s[0] + s[1][1:])
            base, lo, hi = self.segparts(p)
            return self.normseq(
                s[0] + [mk("seg", base, add(lo, ONE), hi)] + s[1][1:])
        return mk("seq", mk("lst", mk("call", "deleted", c, i)))

    def list_store(self, c, i, x):
        if c.op == "seq":
            if is_num(i) and all(p.op == "e" for p in c.args) and \
                    -len(c.args) <= cval(i) < len(c.args):
                a = list(c.args)
                a[cval(i)] = mk("e", x)
                return mk("seq", *a)
            s = self.split(c, i)
            if s is not None and s[1] and s[1][0].op == "e":
                return self.normseq(s[0] + [mk("e", x)] + s[1][1:])
        if c.op == "store" and c.args[1] is i:
            c = c.args[0]
        return mk("store", c, i, x)

    def spread(self, c):
        """A sequence that starts with one of two literal sequences."""
        if c.op == "seq" and c.args and c.args[0].op == "lst":
            x = c.args[0].args[0]
            if x.op == "ite" and all(
                    y.op == "seq" and all(p.op == "e" or (
                        p.op == "lst" and p.args[0].op == "ite")
                        for p in y.args)
                    for y in self.leaves(x)):
                rest = list(c.args[1:])
                return tm.ite(x.args[0],
                              self.normseq(list(self.seqof(x.args[1])) + rest),
                              self.normseq(list(self.seqof(x.args[2])) + rest))
        return c

    @staticmethod
    def leaves(t):
        todo, out = [t], []
        while todo and len(out) < 40:
            x = todo.pop()
            if x.op == "ite":
                todo += [x.args[1], x.args[2]]
            else:
                out.append(x)
        return out

    def elem(self, base, i):
        """Element i of a list: of one a loop built, what the iteration that
        added it put there."""
        if base.op == "loopout":
            L = self.loops.get(base.args[0])
            n = self.grown(base)
            for k, (init, phi, nxt) in (L.carried if n is not None else
                                        {}).items():
                if k[0] == "c" and keyname(k) == base.args[1]:
                    if init.op == "seq" and not init.args and \
                            nxt.op == "seq" and len(nxt.args) == 2 and \
                            nxt.args[0].op == "lst" and \
                            nxt.args[0].args[0] is phi and \
                            nxt.args[1].op == "e":
                        x = nxt.args[1].args[0]
                        if is_num(i) and cval(i) < 0:
                            i = add(n, i)
                        if not any(t.op == "ref" or t.op in (
                                "phi", "loopout", "loopexit", "atexit",
                                "atend") and t.args[0] >= L.id
                                for t in tm.subterms(x)):
                            return tm.substitute(x, {L.idx: i})
        return tm.index(base, i)

    def list_get(self, c, i):
        if c.op == "ite":
            return ite(c.args[0], self.list_get(c.args[1], i),
                       self.list_get(c.args[2], i))
        if c.op == "store":
            base, j, v = c.args
            same = cmp_("==", i, j)
            if same is TRUE:
                return v
            if same is FALSE:
                return self.list_get(base, i)
            return ite(same, v, self.list_get(base, i))
        if c.op != "seq":
            return self.elem(c, i)
        c = self.spread(c)
        if c.op == "ite":
            return self.list_get(c, i)
        ps = c.args
        if is_num(i) and isinstance(cval(i), int):
            k = cval(i)
            if k >= 0:
                for q, p in enumerate(ps):
                    if p.op != "e":
                        break
                    if q == k:
                        return p.args[0]
                else:
                    return mk("call", "indexerror", c, i)
                if ps and ps[0].op != "e" and len(ps) == 1:
                    base, lo, hi = self.segparts(ps[0])
                    return self.elem(base, add(lo, i))
                m = q
                if m < len(ps) and ps[m].op != "e":
                    base, lo, hi = self.segparts(ps[m])
                    n = sub(hi, lo)
                    if not is_num(n):
                        return self.elem(base, add(lo, sub(i, const(m))))
            else:
                k = -k
                for q in range(1, len(ps) + 1):
                    p = ps[-q]
                    if p.op != "e":
                        base, lo, hi = self.segparts(p)
                        return self.elem(base, sub(hi, const(k - q + 1)))
                    if q == k:
                        return p.args[0]
                return mk("call", "indexerror", c, i)
        if len(ps) == 1 and ps[0].op != "e":
            base, lo, hi = self.segparts(ps[0])
            own = self.ownstore.get(base)
            if own is not None and own[0] is add(lo, i):
                return self.list_get(own[1], i)
            return self.elem(base, add(lo, i))
        if ps and all(p.op == "e" for p in ps) and len(ps) <= 4 and \
                not is_num(i):
            if isbool(i):
                if len(ps) == 2:
                    return ite(i, ps[1].args[0], ps[0].args[0])
            r = ps[-1].args[0]
            for k in range(len(ps) - 2, -1, -1):
                r = ite(cmp_("==", i, const(k)), ps[k].args[0], r)
            return r
        s = self.split(c, i)
        if s is not None and s[1]:
            p = s[1][0]
            if p.op == "e":
                return p.args[0]
            base, lo, hi = self.segparts(p)
            return self.elem(base, lo)
        return mk("idx", c, i)

    def classname(self, t, st=None):
        """Static class of a term, if known."""
        if t in self.types:
            return self.types[t]
        if t.op == "ref":
            i = self.refinfo.get(t)
            return i[1] if i and i[0] == "obj" else None
        if t.op == "attr":
            return ATTR_TYPES.get(t.args[1])
        if t.op == "copy":
            return self.classname(t.args[1])
        if t.op == "ite":
            return self.classname(t.args[1]) or self.classname(t.args[2])
        if t.op == "idx":
            e = self.elemtype(t.args[0])
            return e if isinstance(e, str) else None
        if t.op == "call":
            return CALL_TYPES.get(t.args[0])
        if t.op == "after":
            return self.classname(t.args[1])
        if t.op == "new":
            return t.args[0]
        return None

    def copynumber(self, x, st):
        """Tells the copies of an object apart: how many were made before,
        on the way here."""
        k = ("f", COPIES, "copies of %d" % x.id)
        before = st.heap.get(k)
        n = 1
        if before is not None:
            last, todo = set(), [before]
            while todo:
                t = todo.pop()
                if t.op == "ite":
                    todo += t.args[1:]
                elif t is not self.default(k):
                    last.add(t)
            if not all(tm.is_const(t) for t in last):
                self.nref += 1
                return "new %d" % self.nref
            n = 1 + max([tm.cval(t) for t in last])
        st.heap[k] = const(n)
        return n

    def elemtype(self, t):
        if t.op == "attr":
            return ELEM_TYPES.get(t.args[1])
        if t.op == "idx":
            e = self.elemtype(t.args[0])
            if isinstance(e, tuple):
                return e[1]
        if t.op == "call":
            return ELEM_CALLS.get(t.args[0])
        if t.op in ("slice", "store", "seg"):
            return self.elemtype(t.args[0])
        if t.op == "copy":
            return self.elemtype(t.args[1])
        if t.op == "ite":
            return self.elemtype(t.args[1]) or self.elemtype(t.args[2])
        if t.op == "seq":
            for p in t.args:
                if p.op == "e":
                    c = self.classname(p.args[0])
                    if c:
                        return c
                else:
                    e = self.elemtype(p.args[0])
                    if e:
                        return e
        if t.op in ("phi", "loopout", "atexit", "atend"):
            return self.types.get(("elem", t))
        return None

    def stored_attrs(self):
        if self._stored_attrs is None:
            s = set()
            for m in self.p.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute) and isinstance(
                            n.ctx, (ast.Store, ast.Del)):
                        s.add(n.attr)
            self._stored_attrs = s
        return self._stored_attrs

    def getattr_(self, base, name, st, line=0):
        if name in DEBUG_ATTRS:
            return FALSE
        if base.op == "ite":
            return ite(base.args[0],
                       self.getattr_(base.args[1], name, st, line),
                       self.getattr_(base.args[2], name, st, line))
        k = ("f", base, name)
        if k in st.heap:
            return st.heap[k]
        if base.op == "struct":
            for i in range(1, len(base.args), 2):
                if base.args[i] == name:
                    return base.args[i + 1]
        if base.op == "class":
            return self.class_attr(base.args[0], name, st)
        if base.op == "extmodule":
            return self.ext(base.args[0], name)
        if base.op == "module":
            m = self.p.modules[base.args[0]]
            return self.global_name(m, name, st)
        cn = self.classname(base)
        cls = self.p.classes.get(cn) if cn else None
        if cls is not None:
            f = self.p.find_method(cls, name)
            if f is not None:
                if f.kind == "property":
                    return self.call_func(f, [base], {}, st, line)
                return mk("bound", base, f.qual)
            if (self.p.find_class_attr(cls, name) or
                    self.declared_attr(cls, name) is not None) and (
                    base.op == "ref" or name not in self.stored_attrs()):
                return self.class_attr(cn, name, st)
        else:
            cands = self.p.by_method.get(name, [])
            if len(cands) == 1 and cands[0].kind == "property":
                return self.call_func(cands[0], [base], {}, st, line)
            # unique class constant (TURN, PWAVE, ...)
        t = mk("attr", base, name)
        return self.facts.get(t, t)

    def class_attr(self, cname, name, st):
        cls = self.p.classes.get(cname)
        if cls is None:
            return mk("attr", mk("class", cname), name)
        f = self.p.find_method(cls, name)
        if f is not None:
            return mk("bound", mk("class", cname), f.qual)
        r = self.declared_attr(cls, name) or \
            self.p.find_class_attr(cls, name)
        if r is None:
            return mk("attr", mk("class", cname), name)
        c, expr = r
        if isinstance(expr, (ast.List, ast.Dict, ast.ListComp)):
            return mk("attr", mk("class", c.name), name)
        return self.static_expr(expr, c.module, c)

    def declared_attr(self, cls, name):
        """(class, expression) of a class attribute as the reference
        definitions understand it."""
        if self.declared and self.frames and \
                getattr(self.frames[-1].module, "is_spec", False):
            for c in self.p.mro(cls):
                e = self.declared.get(c.name + "." + name)
                if e is not None:
                    return c, e
        return None

    def static_expr(self, expr, module, cls=None):
        """Value of a module/class level constant expression."""
        st = State({}, {}, TRUE, [])
        if cls is not None:
            ref = getattr(module, "is_spec", False)
            for n in ast.walk(expr):
                if not isinstance(n, ast.Name):
                    continue
                e = self.declared.get(cls.name + "." + n.id)
                if ref and e is not None:
                    st.env[n.id] = self.static_expr(e, module, None)
                elif n.id in cls.attrs and cls.attrs[n.id] is not expr:
                    st.env[n.id] = self.static_expr(cls.attrs[n.id], module,
                                                    cls)
        fr = Frame(None, module)
        self.frames.append(fr)
        try:
            v = self.ev(expr, st)
            return self.freeze(v, st)
        finally:
            self.frames.pop()

    def freeze(self, t, st, seen=(), memo=None):
        memo = {} if memo is None else memo
        if t in memo:
            return memo[t]
        r = self._freeze(t, st, seen, memo)
        memo[t] = r
        return r

    def _freeze(self, t, st, seen, memo):
        if t.op == "ref":
            if t in seen:
                return sym("<cycle>")
            info = self.refinfo[t]
            s2 = seen + (t,)
            if info[0] == "list":
                return self.freeze(st.heap.get(("c", t), mk("seq")), st, s2,
                                   memo)
            if info[0] == "obj":
                fs = sorted(((k[2], v) for k, v in st.heap.items()
                             if k[0] == "f" and k[1] is t),
                            key=lambda x: x[0])
                a = [info[1]]
                for n, v in fs:
                    a += [n, self.freeze(v, st, s2, memo)]
                return mk("struct", *a)
            if info[0] == "dict":
                return mk("dictval", *[
                    self.freeze(x, st, s2, memo) for kv in info[1]
                    for x in kv])
            return t
        if not any(isinstance(a, T) for a in t.args):
            return t
        if not self.hasref(t):
            return t
        args = [self.freeze(a, st, seen, memo) if isinstance(a, T) else a
                for a in t.args]
        if all(x is y for x, y in zip(args, t.args)):
            return t
        return tm.rebuild(t.op, args)

    _hr = {}

    def hasref(self, t):
        r = self._hr.get(t)
        if r is None:
            r = t.op == "ref" or any(self.hasref(a) for a in t.args
                                     if isinstance(a, T))
            self._hr[t] = r
        return r

    # ---- merging ---------------------------------------------------------
    def merge(self, c, a, b):
        """State that is a where c holds and b elsewhere."""
        if a is None:
            return b
        if b is None:
            return a
        env = {}
        for k in set(a.env) | set(b.env):
            x = a.env.get(k)
            y = b.env.get(k)
            if x is None:
                x = sym("<undef>")
            if y is None:
                y = sym("<undef>")
            env[k] = x if x is y else ite(c, x, y)
        heap = {}
        for k in set(a.heap) | set(b.heap):
            if k[1].op == "ref" and (k not in a.heap or k not in b.heap):
                # allocated in one branch only (or field set in one branch)
                if k in a.heap and not any(
                        q[1] is k[1] for q in b.heap):
                    heap[k] = a.heap[k]
                    continue
                if k in b.heap and not any(
                        q[1] is k[1] for q in a.heap):
                    heap[k] = b.heap[k]
                    continue
            x = a.heap.get(k)
            y = b.heap.get(k)
            if x is None:
                x = self.default(k)
            if y is None:
                y = self.default(k)
            heap[k] = x if x is y else ite(c, x, y)
        n = 0
        while n < len(a.events) and n < len(b.events) and \
                a.events[n] is b.events[n]:
            n += 1
        ev = a.events[:n] + a.events[n:] + b.events[n:]
        return State(env, heap, or_(a.guard, b.guard), ev)

    # ---- statements ------------------------------------------------------
    def block(self, body, st):
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st)
            if st is not None and st.guard is FALSE:
                return None
        return st

    def stmt(self, s, st):
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None:
            self.notes.append("unsupported statement %s line %d" % (
                type(s).__name__, s.lineno))
            raise Unsupported(type(s).__name__)
        return m(s, st)

    def st_Pass(self, s, st):
        return st

    st_Global = st_Nonlocal = st_Pass

    def st_Import(self, s, st):
        for a in s.names:
            st.env[a.asname or a.name.split(".")[0]] = mk(
                "extmodule", a.name)
        return st

    def st_ImportFrom(self, s, st):
        for a in s.names:
            tail = (s.module or "").split(".")[-1]
            if tail in self.p.modules:
                st.env[a.asname or a.name] = self.global_name(
                    self.p.modules[tail], a.name, st)
            else:
                st.env[a.asname or a.name] = self.ext(s.module or "", a.name)
        return st

    def st_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return st
        self.ev(s.value, st)
        return self.after_expr(st)

    def after_expr(self, st):
        return None if st.guard is FALSE else st

    def unpacked(self, s, st):
        """The values of a comprehension that is unpacked into k targets are
        its first k elements."""
        e, t = s.value, s.targets[0]
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
                e.func.id in ("list", "tuple") and len(e.args) == 1 and \
                not e.keywords:
            e = e.args[0]
        if not isinstance(e, (ast.ListComp, ast.GeneratorExp)) or \
                len(s.targets) != 1 or \
                not isinstance(t, (ast.Tuple, ast.List)) or \
                any(isinstance(x, ast.Starred) for x in t.elts) or \
                len(e.generators) != 1 or e.generators[0].ifs:
            return None
        g = e.generators[0]
        base = self.ev(g.iter, st)
        if base.op in ("call", "opaque"):
            return None
        env, out = dict(st.env), []
        for i in range(len(t.elts)):
            self.assign(g.target, self.getitem(base, const(i), st), st)
            out.append(self.ev(e.elt, st))
        st.env = env
        return mk("tuple", *out)

    def st_Assign(self, s, st):
        v = self.unpacked(s, st)
        if v is None:
            v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, st)
        return self.after_expr(st)

    def st_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st)
        return self.after_expr(st)

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(e, ast.Starred) for e in t.elts):
                for e in t.elts:
                    self.assign(e.value if isinstance(e, ast.Starred) else e,
                                opaque("starred"), st)
                return
            for i, e in enumerate(t.elts):
                self.assign(e, self.getitem(v, const(i), st), st)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, st)
            self.setattr_(base, t.attr, v, st, t.lineno)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st)
            if isinstance(t.slice, ast.Slice):
                lo = self.ev(t.slice.lower, st) if t.slice.lower else ZERO
                hi = self.ev(t.slice.upper, st) if t.slice.upper else NONE
                vc = self.content(v, st)

                def repl(c):
                    a = self.slice_of(c, NONE, lo) if lo is not ZERO \
                        else mk("seq")
                    b = self.slice_of(c, hi, NONE) if hi is not NONE \
                        else mk("seq")
                    return self.normseq(self.seqof(a) + self.seqof(vc)
                                        + self.seqof(b))
                self.mutate(base, st, repl)
                return
            i = self.ev(t.slice, st)
            if base.op == "ref" and self.refinfo[base][0] == "dict":
                self.refinfo[base] = ("dict", [
                    kv for kv in self.refinfo[base][1]
                    if kv[0] is not i] + [(i, v)])
                return
            self.mutate(base, st, lambda c: self.list_store(c, i, v))
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)

    def setattr_(self, base, name, v, st, line=None, cond=TRUE):
        if line:
            self.wlines[(base, name)] = (self.frames[-1].module.path, line)
        if base.op == "ite":
            c = base.args[0]
            for b, g in ((base.args[1], c), (base.args[2], not_(c))):
                g = and_(cond, g)
                if g is not FALSE:
                    self.setattr_(b, name, v, st, None, g)
            return
        k = ("f", base, name)
        if cond is not TRUE:
            v = ite(cond, v, st.heap.get(k, self.default(k)))
        st.heap[k] = v

    def st_AugAssign(self, s, st):
        ops = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/",
               ast.Mod: "%", ast.FloorDiv: "//", ast.Pow: "**"}
        op = ops.get(type(s.op))
        if op is None:
            raise Unsupported("augop")
        load = ast.copy_location(self.as_load(s.target), s)
        cur = self.ev(load, st)
        v = self.ev(s.value, st)
        if op == "+" and (self.islist(cur, st) or self.islist(v, st)) \
                and not (self.isnumber(cur) or self.isnumber(v)):
            vc = self.content(v, st)
            self.mutate(cur, st, lambda c: self.concat_lists(c, vc))
            return self.after_expr(st)
        self.assign(s.target, tm.binop(op, cur, v), st)
        return self.after_expr(st)

    @staticmethod
    def as_load(t):
        if isinstance(t, ast.Name):
            return ast.Name(id=t.id, ctx=ast.Load(), lineno=t.lineno,
                            col_offset=0)
        if isinstance(t, ast.Attribute):
            return ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load(),
                                 lineno=t.lineno, col_offset=0)
        return ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load(),
                             lineno=t.lineno, col_offset=0)

    LISTATTRS = frozenset([
        "PLayers", "SLayers", "layers", "criticalDepths", "arrivals",
        "phases", "phaseNames", "phaseList", "rayParams", "dist", "time",
        "tau", "branchSeq", "waveType", "downGoing", "legAction", "legs",
        "tauBranches", "noDisconDepths", "fluidLayerDepths",
        "highSlownessLayerDepthsP", "highSlownessLayerDepthsS", "pierce",
        "path", "addDepth"])

    @staticmethod
    def isnumber(t):
        return t.op in ("num", "sum", "prod", "pi") or (
            t.op == "call" and t.args[0] in ("sqrt", "sin", "cos", "abs"))

    def islist(self, t, st):
        if t.op == "ref":
            return self.refinfo[t][0] == "list"
        if t.op in ("seq", "listc", "slice", "store"):
            return True
        if ("c", t) in st.heap:
            return True
        if t.op == "attr" and t.args[1] in self.LISTATTRS:
            # dist/time are numbers on Arrival/TimeDist
            if t.args[1] in ("dist", "time", "tau", "layers"):
                return self.classname(t.args[0]) in (
                    "SeismicPhase", "TauBranch", "VelocityModel")
            return True
        if t.op == "call" and t.args[0] in ("sorted", "SeismicPhase.calcTime",
                                            "SeismicPhase.calcPierce",
                                            "SeismicPhase.calcPath",
                                            "getPhaseNames"):
            return True
        if t.op in ("phi", "loopout", "atexit", "atend"):
            return ("list", t) in self.types
        if t.op == "ite":
            return self.islist(t.args[1], st) and self.islist(t.args[2], st)
        return False

    def st_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                base = self.ev(t.value, st)
                if isinstance(t.slice, ast.Slice):
                    lo = self.ev(t.slice.lower, st) if t.slice.lower else ZERO
                    hi = self.ev(t.slice.upper, st) if t.slice.upper else NONE
                    self.mutate(base, st, lambda c: self.normseq(
                        (self.seqof(self.slice_of(c, NONE, lo))
                         if lo is not ZERO else ()) +
                        (self.seqof(self.slice_of(c, hi, NONE))
                         if hi is not NONE else ())))
                else:
                    i = self.ev(t.slice, st)
                    self.mutate(base, st, lambda c: self.list_delete(c, i))
        return self.after_expr(st)

    def cond(self, e, st):
        c = self.istrue(self.ev(e, st), st)
        return self.facts.get(c, c)

    def istrue(self, v, st):
        """Whether a value counts as true; a list does when it has an
        element."""
        if not isbool(v) and not is_const(v) and self.islist(v, st):
            c = self.content(v, st)
            if c.op in ("seq", "ite"):
                return self.nonempty(c)
        return truth(v)

    def nonempty(self, c):
        if c.op == "ite":
            return ite(c.args[0], self.nonempty(c.args[1]),
                       self.nonempty(c.args[2]))
        if c.op == "seq":
            if any(p.op == "e" for p in c.args):
                return TRUE
            if len(c.args) == 1 and c.args[0].op == "lst" and \
                    c.args[0].args[0].op in ("ite", "seq"):
                return self.nonempty(c.args[0].args[0])
            if all(p.op == "lst" and p.args[0].op in ("ite", "seq")
                   for p in c.args):
                return tm.or_(*[self.nonempty(p.args[0]) for p in c.args])
        return not_(cmp_("==", self.length(c), ZERO))

    def st_If(self, s, st):
        c = self.cond(s.test, st)
        if st.guard is FALSE:
            return None
        return self.branch(c, lambda x: self.block(s.body, x),
                           lambda x: self.block(s.orelse, x), st)

    def branch(self, c, fa, fb, st):
        if c is TRUE:
            return fa(st)
        if c is FALSE:
            return fb(st)
        # conditions already decided by the path
        g = self.known(c, st.guard)
        if g is not None:
            return fa(st) if g else fb(st)
        a = st.copy()
        a.guard = and_(st.guard, c)
        b = st.copy()
        b.guard = and_(st.guard, not_(c))
        ra = fa(a) if a.guard is not FALSE else None
        rb = fb(b) if b.guard is not FALSE else None
        return self.merge(c, ra, rb)

    @staticmethod
    def known(c, guard):
        if guard is TRUE:
            return None
        if and_(guard, c) is FALSE:
            return False
        if ite(c, FALSE, guard) is FALSE:
            return True
        return None

    def st_Assert(self, s, st):
        c = self.cond(s.test, st)
        if c is TRUE:
            return st
        self.frames[-1].exits.append(Exit(
            and_(st.guard, not_(c)), "raise", mk("exccls", "AssertionError"),
            st.copy(), s.lineno))
        if c is FALSE:
            return None
        st.guard = and_(st.guard, c)
        return self.after_expr(st)

    def st_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else NONE
        if st.guard is FALSE:
            return None
        self.frames[-1].exits.append(Exit(st.guard, "return", v, st,
                                          s.lineno))
        return None

    def st_Raise(self, s, st):
        name = "Exception"
        e = s.exc
        if e is not None:
            if isinstance(e, ast.Call):
                e = e.func
            if isinstance(e, ast.Name):
                name = e.id
                v = st.env.get(name)
                if v is not None and v.op == "excval":
                    name = v.args[0]
            elif isinstance(e, ast.Attribute):
                name = e.attr
        else:
            name = getattr(self.frames[-1], "handling", None) or "Exception"
        self.frames[-1].exits.append(Exit(
            st.guard, "raise", mk("exccls", name), st, s.lineno))
        return None

    def st_Break(self, s, st):
        self.frames[-1].loopstack[-1][0].append((st.guard, st, s.lineno))
        return None

    def st_Continue(self, s, st):
        self.frames[-1].loopstack[-1][1].append((st.guard, st, s.lineno))
        return None

    def st_FunctionDef(self, s, st):
        r = self.newref(("closure", s, st, self.frames[-1].module))
        st.env[s.name] = r
        return st

    def st_With(self, s, st):
        for it in s.items:
            v = self.ev(it.context_expr, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st)
        return self.block(s.body, st)

    EXC_PARENTS = {
        "SlownessModelError": ("Exception",), "TauModelError": ("Exception",),
        "TauPException": ("Exception",),
        "ZeroDivisionError": ("ArithmeticError", "Exception"),
        "OverflowError": ("ArithmeticError", "Exception"),
        "IndexError": ("LookupError", "Exception"),
        "KeyError": ("LookupError", "Exception"),
        "IOError": ("OSError", "EnvironmentError", "Exception"),
    }

    def exc_match(self, name, types):
        if types is None:
            return True
        par = (name,) + self.EXC_PARENTS.get(name, ("Exception",)) + (
            "BaseException",)
        return any(t in par for t in types)

    def st_Try(self, s, st):
        fr = self.frames[-1]
        types = []
        handlers = []
        for h in s.handlers:
            if h.type is None:
                tn = None
            elif isinstance(h.type, ast.Tuple):
                tn = [getattr(x, "id", getattr(x, "attr", "?"))
                      for x in h.type.elts]
            else:
                tn = [getattr(h.type, "id", getattr(h.type, "attr", "?"))]
            handlers.append((tn, h))
            types += tn or ["Exception"]
        mark = len(fr.exits)
        fr.catch.append(types)
        pre = st.copy()
        out = self.block(s.body, st)
        fr.catch.pop()
        caught = {}
        rest = fr.exits[:mark]
        for e in fr.exits[mark:]:
            if e.kind == "raise":
                nm = e.value.args[0]
                for k, (tn, h) in enumerate(handlers):
                    if self.exc_match(nm, tn):
                        caught.setdefault(k, []).append(e)
                        break
                else:
                    rest.append(e)
            else:
                rest.append(e)
        fr.exits[:] = rest
        if out is not None and s.orelse:
            out = self.block(s.orelse, out)
        del pre
        for k, (tn, h) in enumerate(handlers):
            es = caught.get(k)
            if not es:
                continue
            hs = es[-1].state.copy()
            hs.guard = es[-1].guard
            for e in reversed(es[:-1]):
                x = e.state.copy()
                x.guard = e.guard
                hs = self.merge(e.guard, x, hs)
            if h.name:
                hs.env[h.name] = mk("excval", es[0].value.args[0])
            old = getattr(fr, "handling", None)
            fr.handling = es[0].value.args[0]
            cond = or_(*[e.guard for e in es])
            ho = self.block(h.body, hs)
            fr.handling = old
            if ho is not None:
                out = self.merge(cond, ho, out) if out is not None else ho
        if s.finalbody and out is not None:
            out = self.block(s.finalbody, out)
        return out

    # ---- loops -----------------------------------------------------------
    def unroll_items(self, it, st):
        """List of element terms when the iterable is fully known."""
        if it.op == "range":
            a, b, c = it.args
            if all(is_num(x) for x in it.args):
                r = range(int(cval(a)), int(cval(b)), int(cval(c)))
                if len(r) <= UNROLL:
                    return [const(x) for x in r]
            return None
        if it.op == "enumerate":
            x = self.unroll_items(it.args[0], st)
            if x is None:
                return None
            return [mk("tuple", add(it.args[1], const(i)), e)
                    for i, e in enumerate(x)]
        if it.op == "zip":
            xs = []
            for a in it.args:
                if a.op == "count":
                    xs.append(None)
                    continue
                x = self.unroll_items(a, st)
                if x is None:
                    return None
                xs.append(x)
            if all(x is None for x in xs):
                return None
            n = min(len(x) for x in xs if x is not None)
            out = []
            for i in range(n):
                out.append(mk("tuple", *[
                    x[i] if x is not None else
                    add(it.args[k].args[0],
                        mul(it.args[k].args[1], const(i)))
                    for k, x in enumerate(xs)]))
            return out
        if it.op == "reversed":
            x = self.unroll_items(it.args[0], st)
            return None if x is None else list(reversed(x))
        if it.op in ("tuple", "listc"):
            return list(it.args)
        if it.op == "const" and isinstance(cval(it), str):
            return [const(c) for c in cval(it)]
        if it.op == "dictitems":
            return [mk("tuple", k, v) for k, v in
                    zip(it.args[::2], it.args[1::2])]
        if it.op in ("ref", "seq", "slice", "copy") or \
                ("c", it) in st.heap:
            if it.op == "ref" and self.refinfo[it][0] == "dict":
                return [k for k, v in self.refinfo[it][1]]
            if it.op == "ref" and self.refinfo[it][0] != "list":
                return None
            c = self.content(it, st)
            if c.op == "seq" and all(p.op == "e" for p in c.args):
                return [p.args[0] for p in c.args]
        return None

    def domain(self, it, st):
        """(n, elem) of an iterable: n iterations, elem(j) is the j-th."""
        if it.op == "range":
            a, b, c = it.args
            if c is ONE:
                return sub(b, a), lambda j: add(a, j)
            if is_num(c) and cval(c) == -1:
                return sub(a, b), lambda j: sub(a, j)
            n = fcall("ceil", div(sub(b, a), c))
            return n, lambda j: add(a, mul(c, j))
        if it.op == "count":
            a, c = it.args
            return None, lambda j: add(a, mul(c, j))
        if it.op == "enumerate":
            n, e = self.domain(it.args[0], st)
            return n, lambda j: mk("tuple", add(it.args[1], j), e(j))
        if it.op == "zip":
            ds = [self.domain(a, st) for a in it.args]
            ns = [d[0] for d in ds if d[0] is not None]
            n = fcall("min", *ns) if ns else None
            return n, lambda j: mk("tuple", *[d[1](j) for d in ds])
        if it.op == "reversed":
            n, e = self.domain(it.args[0], st)
            return n, lambda j: e(sub(sub(n, ONE), j))
        if it.op == "ite":
            na, ea = self.domain(it.args[1], st)
            nb, eb = self.domain(it.args[2], st)
            c = it.args[0]
            if na is None or nb is None:
                return opaque("n"), lambda j: opaque("elem")
            # an empty alternative has no element j: where the loop runs at
            # all it runs over the other one
            if na is ZERO:
                return (nb if c is cmp_("==", ZERO, nb) else
                        ite(c, na, nb)), eb
            if nb is ZERO:
                return ite(c, na, nb), ea
            return ite(c, na, nb), lambda j: ite(c, ea(j), eb(j))
        if it.op == "ref" and self.refinfo[it][0] != "list":
            return opaque("n"), lambda j: opaque("elem")
        if it.op in ("poison", "opaque"):
            return it, lambda j: opaque("elem")
        c = self.content(it, st)
        return self.length(c), lambda j: self.list_get(c, j)

    def as_iterable(self, t, st):
        if t.op == "call" and t.args[0] in ("list", "tuple", "iter") and \
                len(t.args) == 2:
            return t.args[1]
        return t

    def st_For(self, s, st):
        it = self.as_iterable(self.ev(s.iter, st), st)
        if st.guard is FALSE:
            return None
        items = self.unroll_items(it, st)
        if items is not None and len(items) <= UNROLL:
            return self.unrolled(s, items, st)
        n, elem = self.domain(it, st)

        def bind(x, j):
            self.assign(s.target, elem(j), x)
        bind.elem = elem
        if it.op not in ("ref", "seq", "range", "count", "enumerate", "zip",
                         "reversed", "ite", "poison", "opaque", "set"):
            bind.searched = self.freeze(it, st)
        return self.symloop(s.body, s.orelse, n, bind, None, st, s)

    def unrolled(self, s, items, st):
        fr = self.frames[-1]
        brks = []
        for e in items:
            if st is None:
                break
            fr.loopstack.append(([], []))
            self.assign(s.target, e, st)
            st = self.block(s.body, st)
            b, c = fr.loopstack.pop()
            brks += b
            for g, cs, _ in c:
                st = cs if st is None else self.merge(g, cs, st)
            if st is not None and st.guard is FALSE:
                st = None
        if st is not None and s.orelse:
            st = self.block(s.orelse, st)
        for g, bs, _ in brks:
            st = bs if st is None else self.merge(g, bs, st)
        return st

    @staticmethod
    def leading_break(s):
        """while a: if b: break; rest   is   while a and not b: rest"""
        test, body = s.test, s.body
        while body and not s.orelse:
            x = body[0]
            if isinstance(x, ast.Pass):
                body = body[1:]
                continue
            if not (isinstance(x, ast.If) and x.body
                    and isinstance(x.body[0], ast.Break)):
                break
            c = ast.copy_location(ast.UnaryOp(ast.Not(), x.test), x)
            if isinstance(test, ast.Constant) and test.value:
                test = c
            else:
                test = ast.copy_location(
                    ast.BoolOp(ast.And(), [test, c]), x)
            body = x.orelse + body[1:]
        if test is s.test and body is s.body:
            return s
        return ast.copy_location(ast.While(
            test, body or [ast.copy_location(ast.Pass(), s)], s.orelse), s)

    def st_While(self, s, st):
        s = self.leading_break(s)
        # constant conditions: unroll while everything stays constant
        c0 = self.cond(s.test, st.copy())
        if c0 is FALSE:
            return self.block(s.orelse, st) if s.orelse else st
        if c0 is TRUE:
            r = self.try_unroll_while(s, st)
            if r is not None:
                return r[0]
        return self.symloop(s.body, s.orelse, None, None, s.test, st, s)

    def try_unroll_while(self, s, st):
        fr = self.frames[-1]
        work = st.copy()
        g0 = st.guard
        mark = len(fr.exits)
        ncalls = len(self.calls)
        for _ in range(UNROLL):
            c = self.cond(s.test, work)
            if c is FALSE:
                return (self.block(s.orelse, work) if s.orelse else work,)
            if c is not TRUE:
                break
            fr.loopstack.append(([], []))
            e0 = len(fr.exits)
            out = self.block(s.body, work)
            b, cts = fr.loopstack.pop()
            new = fr.exits[e0:]
            if any(e.guard is not g0 and e.guard is not FALSE for e in new) \
                    and out is not None and out.guard is not g0:
                break
            if any(e.guard is g0 for e in new):
                return (None,)
            if b:
                if len(b) == 1 and out is None and b[0][0] is g0:
                    return (b[0][1],)
                break
            for g, cs, _l in cts:
                out = cs if out is None else self.merge(g, cs, out)
            if out is None:
                break
            if out.guard is not g0:
                break
            work = out
        del fr.exits[mark:]
        del self.calls[ncalls:]
        return None

    def assigned_names(self, body):
        out = []

        class V(ast.NodeVisitor):
            def visit_Name(v, n):
                if isinstance(n.ctx, (ast.Store, ast.Del)) and \
                        n.id not in out:
                    out.append(n.id)

            def visit_ListComp(v, n):
                # only the targets are local to the comprehension
                pass
            visit_GeneratorExp = visit_SetComp = visit_DictComp = \
                visit_Lambda = visit_FunctionDef = visit_ListComp
        for b in body:
            V().visit(b)
        return out

    def own_elements(self, L, keys, phis, end, pre):
        """Lists of which each iteration replaces its own element only: what
        is read there is what was there before the loop.  Were there any that
        were not known to be?"""
        found = False
        steps = [L.idx] + [
            phis[k] for k in keys if k[0] == "l" and end is not None and
            sub(end.env.get(k[1], ZERO), phis[k]) is ONE]
        for k in keys:
            if k[0] != "c" or end is None or phis[k] in self.ownstore:
                continue
            start = mk("seq", mk("lst", phis[k]))
            todo, at = [end.heap.get(k, start)], set()
            while todo:
                t = todo.pop()
                if t.op == "ite":
                    todo += t.args[1:]
                elif t.op == "store":
                    at.add(t.args[1])
                    todo.append(t.args[0])
                elif t is not start:
                    at.add(None)
            if len(at) == 1 and None not in at:
                i, = at
                if any(not self.depends(sub(i, x), L) for x in steps):
                    self.ownstore[phis[k]] = (
                        i, pre.heap.get(k, self.default(k)))
                    found = True
        return found

    def symloop(self, body, orelse, n, bind, test, st, node, again=None):
        fr = self.frames[-1]
        if again is None:
            LOOPIDS[0] += 1
        first_call, first_note = len(self.calls), len(self.notes)
        L = Loop(LOOPIDS[0] if again is None else again, node.lineno)
        if again is not None:
            L.entry = self.loops[again].entry
        self.loops[L.id] = L
        L.parent = self.loopctx[-1] if self.loopctx else None
        pre = st
        names = [x for x in self.assigned_names(body) if x in st.env]
        if bind is not None and isinstance(node, ast.For):
            tn = set()
            for x in ast.walk(node.target):
                if isinstance(x, ast.Name):
                    tn.add(x.id)
            names = [x for x in names if x not in tn]
        keys = [("l", x) for x in names]
        for _round in range(8):
            work = State(dict(pre.env), dict(pre.heap), TRUE, [])
            phis = {}
            for k in keys:
                phi = mk("phi", L.id, keyname(k))
                phis[k] = phi
                init = pre.env[k[1]] if k[0] == "l" else pre.heap.get(
                    k, self.default(k))
                cn = self.classname(init)
                if cn:
                    self.types[phi] = cn
                if k[0] == "c" or self.islist(init, pre):
                    self.types[("list", phi)] = True
                    et = self.elemtype(init)
                    if et:
                        self.types[("elem", phi)] = et
                if k[0] == "l":
                    # a local that always names the same mutable list keeps
                    # its identity; its content is carried separately
                    if init.op == "ref" and k in self.stable:
                        continue
                    work.env[k[1]] = phi
                elif k[0] == "f":
                    work.heap[k] = phi
                else:
                    work.heap[k] = mk("seq", mk("lst", phi))
            base_heap = dict(work.heap)
            saved_exits, fr.exits = fr.exits, []
            fr.loopstack.append(([], []))
            ncalls = len(self.calls)
            nnotes = len(self.notes)
            cnd = TRUE
            if test is not None:
                cnd = self.cond(test, work)
                w2 = work
                w2.guard = cnd
            else:
                w2 = work
            if bind is not None:
                bind(w2, L.idx)
            self.loopctx.append(L.id)
            try:
                end = self.block(body, w2) if cnd is not FALSE else None
            finally:
                self.loopctx.pop()
            brks, conts = fr.loopstack.pop()
            exits, fr.exits = fr.exits, saved_exits
            for g, cs, _l in conts:
                end = cs if end is None else self.merge(g, cs, end)
            states = ([end] if end is not None else []) + \
                [b[1] for b in brks] + [e.state for e in exits]
            # heap locations written in the body that exist outside it
            newkeys = []
            for x in states:
                for k, v in x.heap.items():
                    if k in keys or k in newkeys:
                        continue
                    if k[1].op == "ref" and k not in pre.heap and \
                            not any(q[1] is k[1] for q in pre.heap):
                        continue
                    if k in base_heap and base_heap[k] is v:
                        continue
                    if self.depends(k[1], L):
                        continue
                    newkeys.append(k)
            unstable = False
            for k in keys:
                if k[0] == "l":
                    init = pre.env[k[1]]
                    if init.op == "ref" and k not in self.stable and \
                            self.refinfo[init][0] in ("list", "obj") and \
                            all(x.env.get(k[1]) is phis[k] for x in states):
                        self.stable.add(k)
                        unstable = True
            if not newkeys and not unstable and not self.own_elements(
                    L, keys, phis, end, pre):
                break
            if _round == 0 and not unstable:
                # locals that are refs and only mutated
                pass
            keys += newkeys
            del self.calls[ncalls:]
            del self.notes[nnotes:]
        self.stable -= set(keys)
        # next values
        for k in keys:
            if k[0] == "l":
                init = pre.env[k[1]]
                nxt = end.env.get(k[1], sym("<undef>")) if end is not None \
                    else phis[k]
                if init.op == "ref" and nxt is init:
                    continue
            else:
                init = pre.heap.get(k, self.default(k))
                nxt = end.heap.get(k, self.default(k)) if end is not None \
                    else phis[k]
                if k[0] == "c":
                    phis_c = mk("seq", mk("lst", phis[k]))
                    if nxt is phis_c:
                        nxt = phis[k]
            if end is not None:
                nxt = self.freeze(nxt, end, (), self.shared(
                    keys, pre, end) if k[0] == "c" else None)
            L.carried[k] = [self.freeze(init, pre), phis[k], nxt]
        self.element_writes(L, pre, keys, base_heap, end, [
            b[1] for b in brks] + [e.state for e in exits])
        for g, bst, line in brks:
            L.exits.append([g, "break", line, bst, None])
        for e in exits:
            L.exits.append([e.guard, e.kind, e.line, e.state, e.value])
        L.events = end.events if end is not None else (
            states[0].events if states else [])
        L.n, L.cond = n, cnd
        L.entry = pre.guard if again is None else tm.or_(
            L.entry, pre.guard)
        L.endguard = end.guard if end is not None else FALSE
        self.closed_forms(L, test is not None, pre)
        same = self.same_loop(L)
        if again is None:
            if same is not None:
                # the same computation once more: one value number
                for i in [i for i in self.loops if i >= L.id]:
                    del self.loops[i]
                del self.calls[first_call:]
                del self.notes[first_note:]
                return self.symloop(body, orelse, n, bind, test, st, node,
                                    same)
        # ---- state after the loop
        # everything in the body is now expressed through phis/idx; exits
        out = State(dict(pre.env), dict(pre.heap), pre.guard,
                    list(pre.events))
        out.events.append(Event(pre.guard, "<loop>", (), L, L.line))
        for k, (init, phi, nxt) in L.carried.items():
            if nxt is phi:
                v = None
            else:
                v = L.final.get(k) if hasattr(L, "final") else None
                if v is None:
                    v = mk("loopout", L.id, keyname(k))
                    self.copytypes(phi, v)
                if k[0] == "c":
                    v = mk("seq", mk("lst", v))
                if k[0] == "l":
                    out.env[k[1]] = v
                else:
                    out.heap[k] = v
        self.fill_lists(L)
        # temporaries set in the body are visible after the loop
        tgt = [x.id for x in ast.walk(node.target)
               if isinstance(x, ast.Name)] if isinstance(node, ast.For) \
            else []
        for x in self.assigned_names(body) + tgt:
            if x in pre.env and x not in tgt:
                continue
            if end is not None and x in end.env:
                tv = tm.substitute(self.freeze(end.env[x], end), L.subst)
                v = self.seen_after("atend", L, tv)
                self.copytypes(end.env[x], v)
                cn = self.classname(end.env[x])
                if cn:
                    self.types[v] = cn
            else:
                v = mk("atend", L.id, sym("<undef %s>" % x))
            out.env[x] = v
        leave = or_(*[e[0] for e in L.exits])
        L.leave = leave
        L.alive = not_(leave)
        for k in L.carried:
            init, phi, nxt = L.carried[k]
            L.carried[k] = [init, phi, tm.restrict(nxt, L.alive)]
        if leave is FALSE:
            normal = out
            ex = FALSE
        else:
            ex = self.search(L, bind) or mk("loopexit", L.id)
            normal = out
            normal.guard = and_(pre.guard, not_(ex))
        if orelse:
            normal = self.block(orelse, normal)
        if test is not None and cnd is TRUE and L.n is None:
            normal = None       # while True: only leaves through exits
        allout = normal
        for i, (g, kind, line, est, val) in enumerate(L.exits):
            if g is FALSE:
                continue
            rel = self.atexit_bool(L, tm.restrict(g, leave))
            xs = State(dict(pre.env), dict(pre.heap),
                       and_(pre.guard, ex, rel), list(pre.events))
            xs.events.append(Event(pre.guard, "<loop>", (), L, L.line))
            for k, (init, phi, nxt) in L.carried.items():
                if k[0] == "l":
                    v = est.env.get(k[1], phi)
                else:
                    v = est.heap.get(k, self.default(k))
                    if k[0] == "c":
                        v = self.freeze(v, est)
                v = self.atexit(L, g, self.freeze(v, est))
                if k[0] == "c":
                    v = v if v.op in ("seq", "store") else mk(
                        "seq", mk("lst", v))
                    xs.heap[k] = v
                elif k[0] == "l":
                    xs.env[k[1]] = v
                else:
                    xs.heap[k] = v
            if kind == "break":
                for x in set(est.env):
                    if x not in pre.env or x in tgt:
                        xs.env[x] = self.atexit(
                            L, g, self.freeze(est.env[x], est))
                allout = xs if allout is None else self.merge(
                    and_(ex, rel), xs, allout)
            else:
                v = self.atexit(L, g, self.freeze(val, est)) \
                    if kind == "return" else val
                fr.exits.append(Exit(xs.guard, kind, v, xs, line))
        if allout is not None and allout.guard is FALSE:
            return None
        return allout

    def element_writes(self, L, pre, keys, before, end, left):
        """What an iteration writes into objects it reaches through the
        loop cannot be named behind the loop: it is logged."""
        if end is None:
            return
        logs = {}
        for k, v in end.heap.items():
            if k in keys or before.get(k) is v or not self.depends(
                    k[1], L) or any(x.op == "ref" for x in tm.subterms(k[1])):
                continue
            if v is self.default(k):
                continue
            name = k[2] if k[0] == "f" else "content"
            logs.setdefault(name, []).append(mk(
                "call", "<write>", k[1], self.freeze(v, end)))
        for name, entries in logs.items():
            k = ("c", sym("<written %s>" % name))
            phi = mk("phi", L.id, keyname(k))
            self.types[("list", phi)] = True
            log = mk("seq", mk("lst", phi))
            if k in L.carried:
                init, phi, log = L.carried[k]
            else:
                init = pre.heap.get(k, self.default(k))
                for x in left:
                    x.heap.setdefault(k, log)
            # those of one iteration in no particular order
            L.carried[k] = [init, phi, self.concat_lists(log, mk(
                "seq", mk("e", add(*entries))))]

    def shared(self, keys, pre, end):
        """Objects older than a loop that it changes: put into a list they
        go on changing there, unlike copies of them."""
        memo = {}
        for k in keys:
            if k[0] == "f" and k[1].op == "ref" and k[1] not in memo and \
                    self.refinfo[k[1]][0] == "obj" and k in pre.heap:
                v = self.freeze(k[1], end)
                memo[k[1]] = mk("struct", v.args[0], "<shared>", TRUE,
                                *v.args[1:])
        return memo

    def search(self, L, bind):
        """A loop over a list that is left at the first element equal to x
        is left early if x is in the list."""
        over = getattr(bind, "searched", None)
        t = L.leave
        if over is None or L.cond is not TRUE or t.op != "cmp" or \
                t.args[0] != "==":
            return None
        el = bind.elem(L.idx)
        for x, y in (t.args[1:], t.args[:0:-1]):
            if y is el and not self.depends(x, L):
                t = mk("in", x, over)
                return self.facts.get(t, t)
        return None

    def same_loop(self, L):
        """An earlier loop over the same values that does the same."""
        for lid in sorted(self.loops):
            M = self.loops[lid]
            if M is L or M.parent != L.parent or M.n is not L.n or \
                    not hasattr(M, "shape"):
                continue
            if set(M.carried) != set(L.carried) or any(
                    M.carried[k][0] is not L.carried[k][0]
                    for k in L.carried) or \
                    len(M.shape[1]) != len(L.exits):
                continue
            m = {L.idx: M.idx}
            for k, c in L.carried.items():
                m[c[1]] = M.carried[k][1]
            memo = {}
            if all(tm.substitute(L.carried[k][2], m, memo) is v
                   for k, v in M.shape[0].items()) and \
                    tm.substitute(L.cond, m, memo) is M.cond and all(
                        tm.substitute(e[0], m, memo) is g and e[1] == kind
                        for e, (g, kind) in zip(L.exits, M.shape[1])):
                return M.id
        L.shape = ({k: c[2] for k, c in L.carried.items()},
                   [(e[0], e[1]) for e in L.exits])
        return None

    def fill_lists(self, L):
        """A preallocated list filled at the running index is the list that
        is built by appending."""
        if L.n is None or L.exits:
            return
        for k, (init, phi, nxt) in list(L.carried.items()):
            if nxt.op != "store":
                continue
            c, i, x = nxt.args
            if c is not mk("seq", mk("lst", phi)) or i is not L.idx:
                continue
            if phi in tm.subterms(x):
                continue
            if cmp_("==", self.length(init), L.n) is TRUE:
                L.carried[k] = [mk("seq"), phi, mk(
                    "seq", mk("lst", phi), mk("e", x))]

    def atexit_bool(self, L, g):
        return self.bool_after("atexit", L, g)

    def bool_after(self, op, L, g, memo=None):
        """Conditions of the leaving iteration, as seen after the loop."""
        if g is TRUE or g is FALSE:
            return g
        memo = {} if memo is None else memo
        if g in memo:
            return memo[g]
        v = tm._top(g)
        hi = self.bool_after(op, L, tm._cof(g, v, True), memo)
        lo = self.bool_after(op, L, tm._cof(g, v, False), memo)
        w = tm.substitute(v, L.subst) if L.subst else v
        w = self.seen_after(op, L, w)
        if not isbool(w):
            w = truth(w)
        memo[g] = ite(w, hi, lo)
        return memo[g]

    def seen_after(self, op, L, t):
        """A value of the leaving ("atexit") or last ("atend") iteration of
        a loop, seen from behind the loop: whatever varies with the iteration
        is the value it had then."""
        if not self.depends(t, L):
            return t
        m = {}
        todo, seen = [t], set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op in ("phi", "lidx", "loopout", "atexit", "atend",
                        "loopexit", "ref"):
                if x.op != "ref" and self.depends(x, L):
                    w = mk(op, L.id, x)
                    self.copytypes(x, w)
                    if x.op == "lidx":
                        tm.INTS.add(w)
                    m[x] = truth(w) if x.op == "loopexit" else w
                continue
            todo += [a for a in x.args if isinstance(a, T)]
        return tm.substitute(t, m)

    def copytypes(self, a, b):
        for q in ("list", "elem"):
            if (q, a) in self.types:
                self.types[(q, b)] = self.types[(q, a)]
        if a in self.types:
            self.types[b] = self.types[a]

    def atexit(self, L, g, v):
        v2 = tm.substitute(v, L.subst) if getattr(L, "subst", None) else v
        v2 = tm.restrict(v2, g)
        if not self.depends(v2, L):
            return v2
        r = self.seen_after("atexit", L, v2)
        cn = self.classname(v)
        if cn:
            self.types[r] = cn
        self.copytypes(v, r)
        if v.op == "seq" or self.islist(v, State({}, {}, TRUE, [])):
            self.types[("list", r)] = True
            et = self.elemtype(v)
            if et:
                self.types[("elem", r)] = et
        return r

    def depends(self, t, L):
        for x in tm.subterms(t):
            if x.op in ("phi", "lidx") and x.args[0] == L.id:
                return True
            if x.op in ("loopout", "atexit", "loopexit", "atend"):
                inner = self.loops.get(x.args[0])
                if inner is not None and inner is not L and \
                        inner.id > L.id:
                    # nested loop: does it depend on L?
                    for k, (i0, p0, n0) in inner.carried.items():
                        if self.depends(i0, L) or self.depends(n0, L):
                            return True
                    if inner.n is not None and self.depends(inner.n, L):
                        return True
                    if any(self.depends(e[0], L) for e in inner.exits):
                        return True
        return False

    def relations(self, L):
        """Relations between what a loop carries that its body preserves: a
        counter that follows the length of a list or another counter."""
        L.invariants = {}
        for k, (init, phi, nxt) in L.carried.items():
            if k[0] == "c" or nxt is phi or nxt.op not in ("ite", "sum") or \
                    self.types.get(("list", phi)):
                continue
            if not (is_num(init) or init.op in ("sum", "call")):
                continue
            for k2, (init2, phi2, nxt2) in L.carried.items():
                if k2 == k or nxt2 is phi2 or phi2 in L.invariants:
                    continue
                if k2[0] == "c":
                    def size(c):
                        return self.length(
                            mk("seq", mk("lst", c)) if c is phi2 else c)
                elif nxt2.op == "ite" and nxt.op == "ite":
                    def size(c):
                        return c
                else:
                    continue
                d = sub(init, size(init2))
                if not is_num(d):
                    continue
                rel = add(size(phi2), d)
                if tm.substitute(nxt, {phi: rel}) is add(size(nxt2), d):
                    L.invariants[phi] = rel
                    L.final[k] = tm.substitute(rel, {phi2: mk(
                        "loopout", L.id, keyname(k2))})
                    break
        for k, (init, phi, nxt) in L.carried.items():
            if k[0] != "c" and nxt is not phi and phi not in L.invariants:
                self.follows(L, k)

    def follows(self, L, k):
        """A carried value that is always the same function of another one
        (the element at a position, say)."""
        init, phi, nxt = L.carried[k]
        below = tm.subterms(nxt)
        for k2, (init2, phi2, nxt2) in L.carried.items():
            if k2 == k or k2[0] == "c" or nxt2 is phi2 or nxt2 is nxt or \
                    nxt2 not in below or is_const(nxt2) or \
                    phi2 in L.invariants:
                continue
            f = tm.substitute(nxt, {nxt2: phi2})
            if f is phi2 or any(self.depends(x, L) for x in tm.subterms(f)
                                if x is not phi2 and not x.args) or any(
                    x.op == "phi" and x is not phi2
                    for x in tm.subterms(f)):
                continue
            if tm.substitute(f, {phi2: init2}) is init:
                L.invariants[phi] = f
                L.final[k] = tm.substitute(f, {phi2: mk(
                    "loopout", L.id, keyname(k2))})
                return

    def closed_forms(self, L, is_while, pre):
        """Induction variables i' = i + c become init + c*j."""
        L.subst = {}
        L.final = {}
        self.relations(L)
        ind = {}
        for k, (init, phi, nxt) in L.carried.items():
            d = sub(nxt, phi) if nxt.op in ("sum", "phi") else None
            if d is not None and is_num(d) and cval(d) != 0:
                ind[k] = (init, phi, cval(d))
        if not ind:
            return
        cand = {}
        for k, (init, phi, c) in ind.items():
            cand[phi] = add(init, mul(const(c), L.idx))
        if is_while:
            # find the controlling atom of the loop condition
            for a, pol in tm.literals(L.cond):
                if a.op != "cmp" or a.args[0] != "<":
                    continue
                done = False
                for phi in cand:
                    # the literal as  dlt > 0 (strict) or dlt >= 0
                    strict = pol
                    dlt = sub(a.args[2], a.args[1]) if pol else \
                        sub(a.args[1], a.args[2])
                    lin, c0 = tm._linear(dlt)
                    if phi not in lin:
                        continue
                    others = {x: v for x, v in lin.items() if x is not phi}
                    if any(self.depends(x, L) for x in others):
                        continue
                    step = [c for k, (i0, p0, c) in ind.items()
                            if p0 is phi][0]
                    slope = lin[phi] * tm._exact(step)
                    if slope >= 0:
                        continue
                    # dlt at j=0
                    d0 = tm.substitute(dlt, {phi: cand[phi].args and
                                             self._init_of(ind, phi)})
                    if slope == -1:
                        L.n = d0 if strict else add(d0, ONE)
                    else:
                        L.n = fcall("ceil", div(d0, const(-slope)))
                    rest = tm.drop(L.cond, a, pol)
                    L.cond = TRUE
                    for e in L.exits:
                        e[0] = tm.drop(e[0], a, pol)
                    for k, (i0, p0, n0) in list(L.carried.items()):
                        L.carried[k] = [i0, p0, tm.drop(n0, a, pol)]
                    if rest is not TRUE:
                        est = State(dict(pre.env), dict(pre.heap), TRUE, [])
                        for k, (i0, p0, n0) in L.carried.items():
                            if k[0] == "l":
                                est.env[k[1]] = p0
                            elif k[0] == "f":
                                est.heap[k] = p0
                            else:
                                est.heap[k] = mk("seq", mk("lst", p0))
                        L.exits.insert(0, [not_(rest), "break",
                                           L.line, est, None])
                    done = True
                    break
                if done:
                    break
        if L.n is None:
            # the closed form in the iteration number is still right
            pass
        L.subst = cand

        def sb(t):
            return tm.substitute(t, cand)
        for k in list(L.carried):
            init, phi, nxt = L.carried[k]
            if k in ind:
                if L.n is not None:
                    L.final[k] = add(init, mul(const(ind[k][2]), L.n))
                L.carried[k] = [init, phi, nxt]
                continue
            L.carried[k] = [init, phi, sb(nxt)]
        L.invariants = {phi: sb(rel) for phi, rel in L.invariants.items()}
        L.cond = sb(L.cond)
        for e in L.exits:
            e[0] = sb(e[0])
        for e in L.events:
            self.subst_event(e, sb)
        L.induction = set(ind)

    @staticmethod
    def _init_of(ind, phi):
        for k, (i0, p0, c) in ind.items():
            if p0 is phi:
                return i0

    def subst_event(self, e, sb):
        e.guard = sb(e.guard)
        e.args = tuple(sb(a) for a in e.args)
        if e.term is not None:
            e.term = sb(e.term)
        if e.loop is not None:
            il = e.loop
            if il.n is not None:
                il.n = sb(il.n)
            il.cond = sb(il.cond)
            for k in il.carried:
                il.carried[k] = [sb(x) for x in il.carried[k]]
            for x in il.exits:
                x[0] = sb(x[0])
            for x in il.events:
                self.subst_event(x, sb)

    # ---- comprehensions --------------------------------------------------
    def comp(self, node, st, kind, default=None):
        """A comprehension is the equivalent statement loop, analysed like a
        called function: kind is list, any, all, sum or next."""
        acc = "<acc>"
        ln = node.lineno

        def name(i, ctx):
            return ast.copy_location(ast.Name(id=i, ctx=ctx), node)
        if kind == "list":
            inner = ast.Expr(ast.Call(func=ast.Attribute(
                value=name(acc, ast.Load()), attr="append", ctx=ast.Load()),
                args=[node.elt], keywords=[]))
        elif kind == "sum":
            inner = ast.AugAssign(target=name(acc, ast.Store()),
                                  op=ast.Add(), value=node.elt)
        elif kind == "any":
            inner = ast.If(test=node.elt, body=[ast.Return(
                ast.Constant(True))], orelse=[])
        elif kind == "all":
            inner = ast.If(test=node.elt, body=[], orelse=[ast.Return(
                ast.Constant(False))])
        else:
            inner = ast.Return(ast.Tuple(elts=[ast.Constant(True),
                                               node.elt], ctx=ast.Load()))
        body = [inner]
        for g in reversed(node.generators):
            for c in reversed(g.ifs):
                body = [ast.If(test=c, body=body, orelse=[])]
            body = [ast.For(target=g.target, iter=g.iter, body=body,
                            orelse=[])]
        end = {"list": name(acc, ast.Load()), "sum": name(acc, ast.Load()),
               "any": ast.Constant(False), "all": ast.Constant(True),
               "next": ast.Tuple(elts=[ast.Constant(False),
                                       name("<noelem>", ast.Load())],
                                 ctx=ast.Load())}[kind]
        body.append(ast.Return(end))
        for b in body:
            for x in ast.walk(b):
                if not hasattr(x, "lineno") and isinstance(
                        x, (ast.expr, ast.stmt)):
                    x.lineno, x.col_offset = ln, 0
        env = dict(st.env)
        env["<noelem>"] = sym("<noelem>")
        if kind == "list":
            env[acc] = self.newlist(st, mk("seq"))
        elif kind == "sum":
            env[acc] = ZERO
        r = self.run_body(None, body, env, st, self.frames[-1].module, ln)
        if kind == "next":
            return tm.index(r, ZERO), tm.index(r, ONE)
        return r

    # ---- expressions -----------------------------------------------------
    def ev(self, e, st):
        m = getattr(self, "ex_" + type(e).__name__, None)
        if m is None:
            self.notes.append("unsupported expression %s" %
                              type(e).__name__)
            return opaque(type(e).__name__)
        t = m(e, st)
        t = self.facts.get(t, t)
        if t not in self.origin:
            self.origin[t] = (self.frames[-1].module.path, e.lineno)
        return t

    def ex_Constant(self, e, st):
        return const(e.value)

    def ex_Name(self, e, st):
        if e.id in st.env:
            return st.env[e.id]
        return self.global_name(self.frames[-1].module, e.id, st)

    BUILTINS = frozenset(
        "len range enumerate zip reversed min max abs sum any all sorted list"
        " tuple set frozenset dict float int str bool isinstance print map"
        " filter round iter next getattr hasattr setattr open super type id"
        " locals repr divmod pow callable format ord chr object hash vars"
        .split())
    EXCS = frozenset(
        "Exception ValueError TypeError KeyError IndexError RuntimeError"
        " NotImplementedError ArithmeticError ZeroDivisionError IOError"
        " OverflowError AssertionError AttributeError StopIteration OSError"
        " LookupError FileNotFoundError EOFError".split())

    def global_name(self, module, name, st):
        r = self.p.resolve_import(module, name)
        if r is None:
            if name in self.EXCS:
                return mk("exccls", name)
            if name in self.BUILTINS:
                return mk("builtin", name)
            if name == "__name__":
                return const(module.name)
            return sym("global:" + name)
        if r[0] == "class":
            return mk("class", r[1].name)
        if r[0] == "func":
            return mk("func", r[1].name)
        if r[0] == "module":
            return mk("module", r[1])
        if r[0] == "extmodule":
            return mk("extmodule", r[1])
        if r[0] == "const":
            if isinstance(r[2], (ast.List, ast.Tuple, ast.Dict, ast.Set)) and\
                    not self.constlike(r[2]):
                return mk("attr", mk("module", r[1].name), name)
            return self.static_expr(r[2], r[1])
        if r[0] == "extname":
            return self.ext(r[1], r[2])
        return sym("global:" + name)

    def constlike(self, e):
        return True

    def ext(self, mod, name):
        if mod in ("math", "numpy", "np", "cmath"):
            if name == "pi":
                return tm.PI
            if name in ("inf", "infty"):
                return mk("num", float("inf"))
            if name == "nan":
                return mk("sym", "<nan>")
            return mk("ext", name)
        if name == "*":
            return opaque("star import")
        return mk("ext", name)

    def ex_Attribute(self, e, st):
        base = self.ev(e.value, st)
        return self.getattr_(base, e.attr, st, e.lineno)

    def ex_Subscript(self, e, st):
        base = self.ev(e.value, st)
        if isinstance(e.slice, ast.Slice):
            lo = self.ev(e.slice.lower, st) if e.slice.lower else NONE
            hi = self.ev(e.slice.upper, st) if e.slice.upper else NONE
            step = self.ev(e.slice.step, st) if e.slice.step else NONE
            return self.getslice(base, lo, hi, step, st)
        i = self.ev(e.slice, st)
        if base in self.splits and i is ZERO:
            return self.before(*self.splits[base])
        return self.getitem(base, i, st)

    def getslice(self, base, lo, hi, step, st):
        if base.op == "const" and isinstance(cval(base), str):
            if all(is_const(x) for x in (lo, hi, step)):
                return const(cval(base)[slice(cval(lo), cval(hi),
                                              cval(step))])
        if step is not NONE and step is not ONE:
            if is_num(step) and cval(step) == -1 and lo is NONE \
                    and hi is NONE:
                return mk("reversed", base)
            return opaque("slice step")
        if base.op in ("tuple", "listc") and all(
                is_const(x) for x in (lo, hi)):
            return mk(base.op, *base.args[slice(cval(lo), cval(hi))])
        if self.isstring(base):
            r = self.str_slice(base, lo, hi)
            return r
        c = self.content(base, st)
        return self.newlist(st, self.slice_of(c, lo, hi))

    def isstring(self, t):
        return t.op in ("strslice", "concat", "char") or (
            t.op == "const" and isinstance(cval(t), str)) or \
            self.types.get(t) == "str" or (
                t.op == "attr" and t.args[1] in tm.STRATTRS) or (
                t.op == "idx" and t.args[0].op == "attr"
                and t.args[0].args[1] == "legs") or (
                t.op == "call" and t.args[0] in tm.TEXTS) or (
                t.op == "ite" and not tm.isbool(t)
                and self.isstring(t.args[1]) and self.isstring(t.args[2]))

    def str_slice(self, base, lo, hi):
        if lo is NONE and hi is NONE:
            return base
        a = ZERO if lo is NONE else lo
        b = mk("call", "len", base) if hi is NONE else hi
        if is_num(b) and cval(b) < 0:
            b = add(mk("call", "len", base), b)
        if is_num(a) and cval(a) < 0:
            a = add(mk("call", "len", base), a)
        if base.op == "strslice":
            return self.mkslice(base.args[0], add(base.args[1], a),
                                base.args[2] if hi is NONE
                                else add(base.args[1], b))
        return self.mkslice(base, a, b)

    def mkslice(self, base, a, b):
        # known characters
        d = sub(b, a)
        if is_num(d) and 0 < cval(d) <= 8:
            cs = []
            for k in range(int(cval(d))):
                f = self.facts.get(mk("char", base, add(a, const(k))))
                if f is None:
                    break
                cs.append(f)
            else:
                return tm.concat(*cs)
            if cval(d) == 1:
                return mk("char", base, a)
        return mk("strslice", base, a, b)

    def getitem(self, base, i, st):
        if self.isstring(base) and not (
                base.op == "const" and is_const(i)):
            if is_num(i) and cval(i) < 0:
                i = add(mk("call", "len", base), i)
            if base.op == "strslice":
                t = mk("char", base.args[0], add(base.args[1], i))
            else:
                t = mk("char", base, i)
            return self.facts.get(t, t)
        if base.op == "ref" and self.refinfo[base][0] == "dict":
            return self.dict_get(self.refinfo[base][1], i, None)
        if base.op == "ite" and (base.args[1].op == "ref"
                                 or base.args[2].op == "ref"):
            return ite(base.args[0], self.getitem(base.args[1], i, st),
                       self.getitem(base.args[2], i, st))
        if base.op in ("tuple", "const"):
            if base.op == "tuple" and isbool(i) and len(base.args) == 2:
                return ite(i, base.args[1], base.args[0])
            return tm.index(base, i)
        c = self.content(base, st)
        t = self.list_get(c, i)
        if t.op == "ite" and any(x.op == "call" and x.args[0] == "indexerror"
                                 for x in self.leaves(t)):
            t = tm.restrict(t, st.guard)
        return self.facts.get(t, t)

    def dict_get(self, items, key, default):
        r = default if default is not None else mk(
            "call", "keyerror", key)
        if any(k is key for k, v in items):
            return [v for k, v in items if k is key][-1]
        if is_const(key) and all(is_const(k) for k, v in items):
            return r
        for k, v in reversed(items):
            r = ite(cmp_("==", key, k), v, r)
        return r

    def ex_Tuple(self, e, st):
        return mk("tuple", *[self.ev(x, st) for x in e.elts])

    def ex_List(self, e, st):
        pieces = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                pieces += self.seqof(self.content(self.ev(x.value, st), st))
            else:
                pieces.append(mk("e", self.ev(x, st)))
        return self.newlist(st, mk("seq", *pieces))

    def ex_Set(self, e, st):
        return mk("set", *sorted([self.ev(x, st) for x in e.elts],
                                 key=lambda t: t.id))

    def ex_Dict(self, e, st):
        items = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                return opaque("dict**")
            items.append((self.ev(k, st), self.ev(v, st)))
        return self.newref(("dict", items))

    def ex_JoinedStr(self, e, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.ev(v.value, st)
                parts.append(self.fmtpiece(
                    x, {-1: None, 115: "s", 114: "r", 97: "a"}.get(
                        v.conversion),
                    self.ex_JoinedStr(v.format_spec, st)
                    if v.format_spec is not None else const(""), st))
        return tm.concat(*parts)

    def fmtpiece(self, x, conv, spec, st):
        """The text of a replacement field."""
        if not self.isstring(x):
            x = self.freeze(x, st)
            if conv == "s":
                x = tm.text(x)
        if conv in ("r", "a"):
            x = mk("call", "repr", x)
        if is_const(spec) and cval(spec) == "" and self.isstring(x):
            return x
        if is_const(spec) and self.isstring(x) and \
                cval(spec)[:1] in "123456789":
            spec = const("<" + cval(spec))
        return tm.fmt(x, spec)

    def format_template(self, template, a, k, st):
        """'..{}..'.format(...) as a concatenation; None if not understood."""
        auto = [0]

        def field(name):
            if name == "":
                name = str(auto[0])
                auto[0] += 1
            m = re.match(r"(\w+)((?:\.\w+)*)$", name)
            if not m:
                return None
            head, rest = m.groups()
            if head.isdigit():
                if int(head) >= len(a):
                    return None
                v = a[int(head)]
            elif head in k:
                v = k[head]
            else:
                return None
            for attr in rest.split(".")[1:]:
                v = self.getattr_(v, attr, st)
            return v

        def expand(t):
            out = []
            for lit, name, spec, conv in string.Formatter().parse(t):
                out.append(const(lit))
                if name is None:
                    continue
                x = field(name)
                if x is None:
                    return None
                sp = expand(spec) if spec else const("")
                if sp is None:
                    return None
                out.append(self.fmtpiece(x, conv, sp, st))
            return tm.concat(*out)
        try:
            return expand(template)
        except ValueError:
            return None

    # what is printed
    def printed(self, text, st):
        """Log the lines of a text that ends a line."""
        if not self.prints:
            return
        log = ("c", TRACE)
        before = st.heap.get(log, mk("seq"))
        if before.op == "seq" and before.args and before.args[-1].op == "e":
            last = before.args[-1].args[0]
            if last.op == "effect" and last.args[1].op == "call" and \
                    last.args[1].args[0] == "print" and \
                    last.args[1].args[1].op == "opaque" and \
                    isinstance(last.args[1].args[1].args[1], T):
                text = tm.concat(last.args[1].args[1].args[1], text)
                before = mk("seq", *before.args[:-1])
        pieces = list(text.args) if text.op == "concat" else [text]
        lines, cur = [], []
        for p in pieces:
            if p.op == "const" and isinstance(cval(p), str):
                parts = cval(p).split("\n")
                for x in parts[:-1]:
                    cur.append(const(x))
                    lines.append(tm.concat(*cur))
                    cur = []
                cur.append(const(parts[-1]))
            else:
                if not self.isstring(p) or p.op == "call" and \
                        p.args[0] == "join":
                    p = opaque("printed " + p.op)
                cur.append(p)
        if tm.concat(*cur) is not const(""):
            lines.append(mk("opaque", "unfinished line", tm.concat(*cur)))
        st.heap[log] = self.concat_lists(before, mk("seq", *[
                mk("e", mk("effect", const("<output>"),
                           mk("call", "print", x))) for x in lines]))

    def do_print(self, a, k, st):
        fz = lambda x: self.freeze(x, st)
        if not self.prints:
            return
        dest = k.get("file", NONE)
        if dest is not NONE and dest is not mk("ext", "stdout"):
            if dest is not mk("ext", "stderr"):
                self.printed(opaque("print to a file"), st)
            return
        out = []
        for i, x in enumerate(a):
            if i:
                out.append(self.fmtpiece(k.get("sep", const(" ")), None,
                                         const(""), st)
                           if k.get("sep", NONE) is not NONE else const(" "))
            out.append(x if x.op == "opaque" else
                       self.fmtpiece(x, None, const(""), st))
        end = k.get("end", NONE)
        out.append(const("\n") if end is NONE else end)
        self.printed(tm.concat(*out), st)

    def ex_Starred(self, e, st):
        return opaque("starred")

    def ex_IfExp(self, e, st):
        c = self.cond(e.test, st)
        if c is TRUE:
            return self.ev(e.body, st)
        if c is FALSE:
            return self.ev(e.orelse, st)
        return self.gated(c, lambda x: self.ev(e.body, x),
                          lambda x: self.ev(e.orelse, x), st)

    def gated(self, c, fa, fb, st):
        k = self.known(c, st.guard)
        if k is not None:
            return fa(st) if k else fb(st)
        a = st.copy()
        a.guard = and_(st.guard, c)
        b = st.copy()
        b.guard = and_(st.guard, not_(c))
        va = fa(a) if a.guard is not FALSE else None
        vb = fb(b) if b.guard is not FALSE else None
        if va is None or a.guard is FALSE:
            m, v = b, vb
        elif vb is None or b.guard is FALSE:
            m, v = a, va
        else:
            m, v = self.merge(c, a, b), ite(c, va, vb)
        st.env, st.heap, st.guard, st.events = \
            m.env, m.heap, m.guard, m.events
        return v if v is not None else NONE

    def ex_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        acc = self.ev(e.values[0], st)
        for x in e.values[1:]:
            c = self.istrue(acc, st)
            c = self.facts.get(c, c)
            if c is TRUE:
                if isand:
                    acc = self.ev(x, st)
                continue
            if c is FALSE:
                if not isand:
                    acc = self.ev(x, st)
                continue
            # evaluate the right operand under the left one's condition, but
            # keep pure boolean structure
            prev = acc
            if isand:
                v = self.gated(c, lambda s2: self.ev(x, s2),
                               lambda s2: FALSE if isbool(prev) else prev,
                               st)
            else:
                v = self.gated(c, lambda s2: TRUE if isbool(prev) else prev,
                               lambda s2: self.ev(x, s2), st)
            acc = v
        return acc

    def ex_UnaryOp(self, e, st):
        v = self.ev(e.operand, st)
        if isinstance(e.op, ast.Not):
            return not_(self.istrue(v, st))
        if isinstance(e.op, ast.USub):
            return neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        return opaque("unary")

    def ex_BinOp(self, e, st):
        a = self.ev(e.left, st)
        b = self.ev(e.right, st)
        ops = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/",
               ast.Mod: "%", ast.FloorDiv: "//", ast.Pow: "**"}
        op = ops.get(type(e.op))
        if op is None:
            return opaque("binop")
        if op == "+" and (self.islist(a, st) or self.islist(b, st)) and \
                not (self.isnumber(a) or self.isnumber(b)):
            return self.newlist(st, self.concat_lists(
                self.content(a, st), self.content(b, st)))
        if op == "+" and (self.isstring(a) or self.isstring(b)):
            return tm.concat(a, b)
        if op == "+" and a.op == "tuple" and b.op == "tuple":
            return mk("tuple", *(a.args + b.args))
        if op == "*" and (self.islist(a, st) or self.islist(b, st)):
            lst, k = (a, b) if self.islist(a, st) else (b, a)
            c = self.content(lst, st)
            if is_num(k) and cval(k) <= 64:
                return self.newlist(st, mk("seq", *(
                    self.seqof(c) * int(cval(k)))))
            return self.newlist(st, mk("seq", mk("lst", mk(
                "call", "repeat", self.freeze(c, st), k))))
        return tm.binop(op, a, b)

    def ex_Compare(self, e, st):
        left = self.ev(e.left, st)
        out = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, st)
            out.append(self.compare(op, left, right, st))
            left = right
        return and_(*out)

    def compare(self, op, a, b, st):
        names = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=",
                 ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is",
                 ast.IsNot: "isnot"}
        if type(op) in names:
            o = names[type(op)]
            if a.op == "ite" and is_const(b) and \
                    any(is_const(x) for x in a.args[1:]):
                return ite(a.args[0], self.compare(op, a.args[1], b, st),
                           self.compare(op, a.args[2], b, st))
            if o in ("is", "isnot") and a is not b and a.op in (
                    "attr", "ref") and b.op in ("attr", "ref") and \
                    self.islist(a, st) and self.islist(b, st):
                # as for writes: different places hold different lists
                return const(o == "isnot")
            if o in ("==", "!="):
                for x, y in ((a, b), (b, a)):
                    if self.islist(x, st) and self.islist(y, st) and \
                            self.content(y, st) is mk("seq"):
                        t = cmp_(o, self.length(self.content(x, st)),
                                 tm.ZERO)
                        return self.facts.get(t, t)
                # class-level __eq__ of TauBranch etc. is not modelled
                a, b = self.freeze(a, st), self.freeze(b, st)
            t = cmp_(o, a, b)
            return self.facts.get(t, t)
        t = self.contains(a, b, st)
        return t if isinstance(op, ast.In) else not_(t)

    def contains(self, a, b, st):
        if b.op == "const" and isinstance(cval(b), str):
            if is_const(a):
                return const(cval(a) in cval(b))
            if a.op == "char":
                return or_(*[cmp_("==", a, const(c)) for c in cval(b)])
            return mk("in", a, b)
        items = self.unroll_items(b, st) if b.op != "set" else list(b.args)
        if items is not None:
            return or_(*[cmp_("==", a, x) for x in items])
        if b.op == "ref" and self.refinfo[b][0] == "dict":
            return or_(*[cmp_("==", a, k) for k, v in self.refinfo[b][1]])
        t = mk("in", self.freeze(a, st), self.freeze(b, st))
        return self.facts.get(t, t)

    def ex_ListComp(self, e, st):
        return self.comp(e, st, "list")

    ex_GeneratorExp = ex_ListComp

    def ex_SetComp(self, e, st):
        return mk("call", "set", self.freeze(self.comp(e, st, "list"), st))

    def ex_DictComp(self, e, st):
        return opaque("dictcomp")

    def ex_Lambda(self, e, st):
        return self.newref(("closure", e, st, self.frames[-1].module))

    def ex_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        st.env[e.target.id] = v
        return v

    def ex_Yield(self, e, st):
        return opaque("yield")

    # ---- calls -----------------------------------------------------------
    def longest(self, e, st):
        """len(max(names, key=len)) is max(len(n) for n in names)."""
        def plain(x, names):
            return isinstance(x, ast.Name) and x.id in names and \
                x.id not in st.env
        if not (plain(e.func, ("len",)) and len(e.args) == 1
                and isinstance(e.args[0], ast.Call)):
            return e
        m = e.args[0]
        if not (plain(m.func, ("max", "min")) and len(m.args) == 1 and
                len(m.keywords) == 1 and m.keywords[0].arg == "key"
                and plain(m.keywords[0].value, ("len",))):
            return e
        src = m.args[0]
        if isinstance(src, (ast.ListComp, ast.GeneratorExp)):
            comp = ast.ListComp(
                elt=ast.Call(func=e.func, args=[src.elt], keywords=[]),
                generators=src.generators)
        else:
            x = ast.Name(id="<x>", ctx=ast.Load())
            comp = ast.ListComp(
                elt=ast.Call(func=e.func, args=[x], keywords=[]),
                generators=[ast.comprehension(
                    target=ast.Name(id="<x>", ctx=ast.Store()), iter=src,
                    ifs=[], is_async=0)])
        out = ast.Call(func=m.func, args=[comp], keywords=[])
        for n in ast.walk(out):
            if not hasattr(n, "lineno"):
                ast.copy_location(n, e)
        return out

    def ex_Call(self, e, st):
        # generators as direct arguments of any/all/sum/next
        if isinstance(e.func, ast.Name) and len(e.args) >= 1 and isinstance(
                e.args[0], (ast.GeneratorExp, ast.ListComp)) and \
                e.func.id not in st.env:
            fn = e.func.id
            if fn in ("any", "all", "sum") and len(e.args) == 1:
                return self.comp(e.args[0], st, fn)
            if fn == "next":
                hit, v = self.comp(e.args[0], st, "next")
                if len(e.args) > 1:
                    return ite(hit, v, self.ev(e.args[1], st))
                return v
        e = self.longest(e, st)
        # super().__init__ etc.
        if isinstance(e.func, ast.Attribute) and isinstance(
                e.func.value, ast.Call) and isinstance(
                e.func.value.func, ast.Name) and \
                e.func.value.func.id == "super":
            cls = self.frames[-1].func.cls if self.frames[-1].func else None
            if cls is not None:
                for b in self.p.mro(cls)[1:]:
                    if e.func.attr in b.methods:
                        f = b.methods[e.func.attr]
                        sp = self.frames[-1].func.params()[0]
                        a, k = self.evargs(e, st)
                        return self.call_func(f, [st.env[sp]] + a, k, st,
                                              e.lineno)
            return self.base_list(e, e.args, st, cls)
        if isinstance(e.func, ast.Attribute) and isinstance(
                e.func.value, ast.Name) and e.func.value.id == "list" and \
                "list" not in st.env and len(e.args) and isinstance(
                    e.args[0], ast.Name):
            # list.extend(self, x)
            cls = self.frames[-1].func.cls if self.frames[-1].func else None
            if cls is not None and e.args[0].id == \
                    self.frames[-1].func.params()[0]:
                return self.base_list(e, e.args[1:], st, cls)
        if isinstance(e.func, ast.Attribute):
            base = self.ev(e.func.value, st)
            return self.call_attr(base, e.func.attr, e, st)
        f = self.ev(e.func, st)
        a, k = self.evargs(e, st)
        return self.call_value(f, a, k, st, e)

    def base_list(self, e, args, st, cls):
        """A method of list called on an instance of a subclass."""
        name = e.func.attr
        if cls is None or name not in ("__init__", "append", "extend") or \
                not any(isinstance(b, ast.Name) and b.id == "list"
                        for b in cls.node.bases) or len(args) != 1:
            for x in args:
                self.ev(x, st)
            return NONE
        me = ast.Name(self.frames[-1].func.params()[0], ast.Load())
        call = ast.Call(ast.Attribute(
            me, "extend" if name == "__init__" else name, ast.Load()),
            list(args), [])
        for x in ast.walk(call):
            ast.copy_location(x, e)
        return self.ev(call, st)

    def evargs(self, e, st):
        a = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st)
                items = self.unroll_items(v, st)
                if items is None:
                    a.append(opaque("*args"))
                else:
                    a += items
            else:
                a.append(self.ev(x, st))
        k = {}
        for x in e.keywords:
            if x.arg is None:
                v = self.ev(x.value, st)
                if v.op == "ref" and self.refinfo[v][0] == "dict":
                    for kk, vv in self.refinfo[v][1]:
                        k[cval(kk)] = vv
                continue
            k[x.arg] = self.ev(x.value, st)
        return a, k

    def call_value(self, f, a, k, st, e):
        line = getattr(e, "lineno", 0)
        if f.op == "ite":
            return self.gated(f.args[0],
                              lambda s: self.call_value(f.args[1], a, k, s,
                                                        e),
                              lambda s: self.call_value(f.args[2], a, k, s,
                                                        e), st)
        if f.op == "builtin":
            return self.builtin(f.args[0], a, k, st, e)
        if f.op == "ext":
            return self.extcall(f.args[0], a, k, st, e)
        if f.op == "class":
            return self.construct(f.args[0], a, k, st, line)
        if f.op == "func":
            return self.call_func(self.p.functions[f.args[0]], a, k, st,
                                  line)
        if f.op == "bound":
            fn = self.p.func(f.args[1])
            if fn.kind == "staticmethod":
                return self.call_func(fn, a, k, st, line)
            if f.args[0].op == "class" and fn.kind == "method":
                return self.call_func(fn, a, k, st, line)
            return self.call_func(fn, [f.args[0]] + a, k, st, line)
        if f.op == "ref" and self.refinfo[f][0] == "closure":
            return self.call_closure(f, a, k, st, line)
        if f.op == "partial":
            return self.call_value(f.args[0], list(f.args[1:]) + a, k, st, e)
        if f.op == "exccls":
            return mk("excval", f.args[0])
        return mk("call", "apply", self.freeze(f, st),
                  *[self.freeze(x, st) for x in a])

    def call_closure(self, f, a, k, st, line):
        _, node, cst, module = self.refinfo[f]
        if len(self.stack) > MAXDEPTH:
            return opaque("depth")
        if isinstance(node, ast.Lambda):
            body = [ast.Return(value=node.body, lineno=node.lineno,
                               col_offset=0)]
        else:
            body = node.body
        args = node.args
        ps = [x.arg for x in args.posonlyargs + args.args]
        # late binding: closures see the current values of the enclosing
        # variables when called from the enclosing function
        env = dict(cst.env)
        env.update({n: v for n, v in st.env.items() if n in cst.env
                    or True} if self.same_frame(cst) else {})
        for pn, d in zip(ps[len(ps) - len(args.defaults):], args.defaults):
            env[pn] = self.ev(d, st)
        for pn, v in zip(ps, a):
            env[pn] = v
        env.update(k)
        return self.run_body(None, body, env, st, module, line)

    def same_frame(self, cst):
        return True

    def bind(self, func, a, k, st, fill=True):
        """{param: term} for a call of func."""
        node = func.node.args
        ps = [x.arg for x in node.posonlyargs + node.args]
        out = {}
        for pn, v in zip(ps, a):
            out[pn] = v
        extra = a[len(ps):]
        if node.vararg:
            out[node.vararg.arg] = mk("tuple", *extra)
        elif extra:
            return None
        for n, v in k.items():
            if n in ps or n in [x.arg for x in node.kwonlyargs]:
                out[n] = v
            elif not node.kwarg:
                return None
        if fill:
            for n, d in func.defaults().items():
                if n not in out:
                    out[n] = self.static_expr(d, func.module, func.cls)
                    if isinstance(d, (ast.List, ast.Dict)):
                        out[n] = self.newlist(st, mk("seq"))
        for pn in ps + [x.arg for x in node.kwonlyargs]:
            if pn not in out:
                return None
        return out

    def is_opaque(self, func):
        return func.qual in self.opaque or func.qual in self.effects or \
            func.name in self.opaque

    def call_func(self, func, a, k, st, line):
        qual = func.qual
        if func.kind == "classmethod" and (
                not a or a[0].op != "class"):
            a = [mk("class", func.cls.name)] + list(a)
        b = self.bind(func, a, k, st)
        if b is None:
            self.notes.append("cannot bind call of %s" % qual)
            return opaque("bind " + qual)
        if self.is_opaque(func) or len(self.stack) > MAXDEPTH or \
                self.stack.count(func) > 1:
            if not self.is_opaque(func):
                self.notes.append("depth limit at " + qual)
                return opaque("depth " + qual)
            ps = func.params() + [x.arg for x in func.node.args.kwonlyargs]
            args = []
            for pn in ps:
                if func.kind == "classmethod" and pn == ps[0]:
                    continue
                args.append(self.freeze(b[pn], st))
            t = mk("call", qual, *args)
            if self.boolean(func):
                t = mk("truth", t)
            t = self.facts.get(t, t)
            self.calls.append((t, qual, dict(zip(
                [p for p in ps if not (func.kind == "classmethod"
                                       and p == ps[0])], args)),
                st.guard, line))
            if func.qual in self.effects:
                st.events.append(Event(st.guard, qual, tuple(args), None,
                                       line, t))
                log = ("c", TRACE)
                st.heap[log] = self.concat_lists(
                    st.heap.get(log, mk("seq")), mk("seq", mk("e", self.effect(
                        func, args, t, self.found(func, b, st)))))
                self.havoc(func, b, st, t)
            for x in self.fallible.get(func.qual, ()):
                self.may_raise(mk("exc", t, x), x, st, line, True)
            return t
        if func.name == "deepcopy":
            return mk("copy", a[0])
        return self.run_body(func, func.node.body, b, st, func.module, line)

    def boolean(self, func, seen=()):
        """Does the function return True or False whenever it returns?"""
        if func.qual in seen:
            return True
        seen += (func.qual,)

        def expr(e):
            if e is None:
                return False
            if isinstance(e, ast.Constant):
                return isinstance(e.value, bool)
            if isinstance(e, ast.BoolOp):
                return all(expr(x) for x in e.values)
            if isinstance(e, ast.UnaryOp):
                return isinstance(e.op, ast.Not)
            if isinstance(e, ast.Compare):
                return True
            if isinstance(e, ast.IfExp):
                return expr(e.body) and expr(e.orelse)
            if isinstance(e, ast.Call) and isinstance(
                    e.func, ast.Attribute) and isinstance(
                    e.func.value, ast.Name) and func.cls and \
                    func.params()[:1] == [e.func.value.id]:
                f2 = self.p.find_method(func.cls, e.func.attr)
                return f2 is not None and self.boolean(f2, seen)
            return False

        def ends(body):
            s = body[-1]
            if isinstance(s, (ast.Return, ast.Raise)):
                return True
            if isinstance(s, ast.If):
                return bool(s.orelse) and ends(s.body) and ends(s.orelse)
            if isinstance(s, ast.With):
                return ends(s.body)
            if isinstance(s, ast.Try):
                return (ends(s.orelse or s.body) and all(
                    ends(h.body) for h in s.handlers)) or bool(
                        s.finalbody) and ends(s.finalbody)
            return False
        rets, todo = [], list(func.node.body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                return False
            if isinstance(n, ast.Return):
                rets.append(n.value)
            todo += list(ast.iter_child_nodes(n))
        return bool(rets) and ends(func.node.body) and all(map(expr, rets))

    @staticmethod
    def effect(func, args, t, found=()):
        """An entry of the log: calls with an effect on different receivers
        can be exchanged."""
        if func.kind == "method" and args:
            return mk("effect", args[0], t, *found)
        return mk("effect", tm.NONE, t)

    def found(self, func, b, st):
        """What a method finds in the attributes of its receiver that it
        reads before it sets them."""
        ps = func.params()
        if func.kind != "method" or not ps or b[ps[0]].op == "ref":
            return []
        recv, out = b[ps[0]], []
        for f in sorted(self.exposed(func)):
            v = st.heap.get(("f", recv, f))
            if v is None:
                v = mk("attr", recv, f)
            if ("c", v) in st.heap:
                v = st.heap["c", v]
            out.append(self.freeze(v, st))
        return out

    def exposed(self, func):
        """Attributes of its receiver that a method reads as they were when
        it was called."""
        known = self.p.__dict__.setdefault("_exposed", {})
        if func.qual not in known:
            known[func.qual] = set(), set()
            known[func.qual] = Exposed(self, func).result
        return known[func.qual][0]

    def havoc(self, func, b, st, t):
        """After an effectful opaque call the receiver is a new version."""
        ps = func.params()
        if func.kind != "method" or not ps:
            return
        recv = b[ps[0]]
        for k in list(st.heap):
            if k[1] is recv and k[0] == "f":
                pass
        writes = self.writes_of(func)
        for w in writes:
            st.heap[("f", recv, w)] = mk("attr", mk(
                "after", t, self.freeze(recv, st)
                if recv.op == "ref" else recv), w)
        for kk in list(st.heap):
            if kk[0] == "c" and kk[1].op == "attr" and \
                    kk[1].args[0] is recv and kk[1].args[1] in writes:
                del st.heap[kk]

    def writes_of(self, func, seen=None):
        seen = seen or set()
        if func.qual in seen:
            return set()
        seen.add(func.qual)
        out = set()
        ps = func.params()
        sp = ps[0] if ps else None
        for n in ast.walk(func.node):
            if isinstance(n, ast.Attribute) and isinstance(
                    n.ctx, ast.Store) and isinstance(n.value, ast.Name) \
                    and n.value.id == sp:
                out.add(n.attr)
            if isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Attribute):
                v = n.func.value
                if n.func.attr in ("append", "insert", "pop", "extend",
                                   "remove", "sort", "reverse", "clear") \
                        and isinstance(v, ast.Attribute) and isinstance(
                            v.value, ast.Name) and v.value.id == sp:
                    out.add(v.attr)
                if isinstance(v, ast.Name) and v.id == sp and func.cls:
                    f2 = self.p.find_method(func.cls, n.func.attr)
                    if f2 is not None:
                        out |= self.writes_of(f2, seen)
            if isinstance(n, ast.Subscript) and isinstance(
                    n.ctx, (ast.Store, ast.Del)) and isinstance(
                    n.value, ast.Attribute) and isinstance(
                    n.value.value, ast.Name) and n.value.value.id == sp:
                out.add(n.value.attr)
        return out

    def run_body(self, func, body, env, st, module, line):
        fr = Frame(func or self.frames[-1].func, module)
        fr.catch = []
        inner = State(env, st.heap, st.guard, st.events)
        inner = inner.copy()
        self.frames.append(fr)
        self.stack.append(func)
        try:
            end = self.block(body, inner)
        finally:
            self.frames.pop()
            self.stack.pop()
        exits = fr.exits
        if end is not None:
            exits = exits + [Exit(end.guard, "return", NONE, end, line)]
        rets = [x for x in exits if x.kind == "return"]
        for x in exits:
            if x.kind == "raise":
                x.state.env = dict(st.env)
                self.frames[-1].exits.append(x)
        if not rets:
            st.guard = FALSE
            return NONE
        m = rets[-1].state
        v = rets[-1].value
        g = rets[-1].guard
        for x in reversed(rets[:-1]):
            c = tm.restrict(x.guard, st.guard)
            m = self.merge(c, x.state, m)
            v = ite(c, x.value, v)
            g = or_(g, x.guard)
        st.heap, st.events, st.guard = m.heap, m.events, g
        return v

    def construct(self, cname, a, k, st, line):
        cls = self.p.classes.get(cname)
        if cname in self.opaque:
            f = self.p.find_method(cls, "__init__")
            b = self.bind(f, [sym("<new>")] + a, k, st) if f else None
            args = [self.freeze(x, st) for x in a] if b is None else [
                self.freeze(b[p], st) for p in f.params()[1:]]
            t = mk("call", cname, *args)
            self.types[t] = cname
            names = f.params()[1:] if f else []
            self.calls.append((t, cname, dict(zip(names, args)), st.guard,
                               line))
            return t
        r = self.newref(("obj", cname))
        if cls is None:
            return r
        f = self.p.find_method(cls, "__init__")
        if f is not None:
            b = self.bind(f, [r] + a, k, st)
            if b is None:
                return opaque("bind " + cname)
            self.run_body(f, f.node.body, b, st, f.module, line)
        return r

    def call_attr(self, base, name, e, st):
        line = e.lineno
        if base.op == "ext" and base.args[0] in ("stdout", "stderr"):
            a, k = self.evargs(e, st)
            if base.args[0] == "stdout" and name == "write" and a:
                self.printed(a[0], st)
            elif base.args[0] == "stdout" and name != "flush":
                self.printed(opaque("stdout." + name), st)
            return NONE
        if base.op in ("extmodule", "module", "class", "ext"):
            f = self.getattr_(base, name, st, line)
            a, k = self.evargs(e, st)
            return self.call_value(f, a, k, st, e)
        fld = st.heap.get(("f", base, name))
        if fld is not None and fld.op in ("ref", "bound", "func"):
            a, k = self.evargs(e, st)
            return self.call_value(fld, a, k, st, e)
        cn = self.classname(base)
        cls = self.p.classes.get(cn) if cn else None
        f = self.p.find_method(cls, name) if cls is not None else None
        a, k = self.evargs(e, st)
        if f is not None and f.kind == "property":
            return self.call_value(self.getattr_(base, name, st, line), a, k,
                                   st, e)
        if f is None and cls is None and not (
                self.islist(base, st) or self.isstring(base)
                or is_const(base)):
            if base.op == "ite":
                alts = [self.classname(x) for x in base.args[1:]]
            cands = self.p.by_method.get(name, [])
            cands = [c for c in cands if c.kind == "method"
                     and self.arity_ok(c, len(a) + 1, k)]
            owners = {c.cls.name for c in cands}
            if len(cands) == 1 and name not in (
                    "add", "index", "insert", "append", "pop", "count",
                    "validate", "path"):
                f = cands[0]
            elif len(cands) == 1 and name in ("add", "validate", "path"):
                f = cands[0]
            elif len(cands) > 1:
                # an override hierarchy counts as its most basic member only
                # when the receiver is self
                return mk("call", "." + name, self.freeze(base, st),
                          *[self.freeze(x, st) for x in a])
        if f is not None:
            if f.kind == "staticmethod":
                return self.call_func(f, a, k, st, line)
            if f.kind == "classmethod":
                return self.call_func(f, [mk("class", f.cls.name)] + a, k,
                                      st, line)
            return self.call_func(f, [base] + a, k, st, line)
        return self.method(base, name, a, k, st, e)

    @staticmethod
    def arity_ok(f, n, k):
        ps = f.params()
        need = len(ps) - len(f.node.args.defaults)
        return need <= n + len(k) <= len(ps)

    def may_raise(self, g, name, st, line, always=False):
        """Record an implicit exception when a handler is waiting for it."""
        fr = self.frames[-1]
        if always or any(self.exc_match(name, t)
                         for f in self.frames for t in f.catch):
            fr.exits.append(Exit(and_(st.guard, g), "raise",
                                 mk("exccls", name), st.copy(), line))
            st.guard = and_(st.guard, not_(g))

    # list/str/dict methods
    def method(self, base, name, a, k, st, e):
        fz = lambda x: self.freeze(x, st)
        if base.op == "const" and isinstance(cval(base), str):
            s = cval(base)
            if name in ("startswith", "endswith", "lower", "upper", "strip",
                        "isdigit", "count", "find", "split", "rstrip",
                        "lstrip", "replace", "isalpha", "isnumeric",
                        "isdecimal", "index", "partition") and all(
                            is_const(x) or x.op == "tuple" for x in a):
                try:
                    args = [cval(x) if is_const(x) else
                            tuple(cval(y) for y in x.args) for x in a]
                    r = getattr(s, name)(*args)
                except Exception:
                    return opaque("str." + name)
                if isinstance(r, list):
                    return self.newlist(st, mk("seq", *[
                        mk("e", const(x)) for x in r]))
                if isinstance(r, tuple):
                    return mk("tuple", *[const(x) for x in r])
                return const(r)
            if name == "join":
                items = self.unroll_items(a[0], st)
                if items is not None and all(self.isstring(x)
                                             for x in items):
                    out = []
                    for i, x in enumerate(items):
                        if i:
                            out.append(base)
                        out.append(x)
                    return tm.concat(*out)
                return mk("call", "join", base, fz(a[0]))
            if name == "format":
                t = self.format_template(s, a, k, st)
                if t is not None:
                    return t
                return mk("call", "format", base, *[fz(x) for x in a])
        if name in ("startswith", "endswith"):
            if a and a[0].op == "tuple":
                return or_(*[self.str_test(name, base, x)
                             for x in a[0].args])
            return self.str_test(name, base, a[0])
        if name in ("ljust", "rjust") and len(a) == 1 and \
                self.isstring(base):
            return tm.fmt(base, tm.concat(const("<>"[name == "rjust"]),
                                          tm.text(fz(a[0]))))
        if name in ("isdigit", "lower", "upper", "strip", "rstrip",
                    "lstrip", "isalpha", "isnumeric", "isdecimal"):
            t = mk("call", name, fz(base), *[fz(x) for x in a])
            if name.startswith("is"):
                t = mk("truth", t)
            return self.facts.get(t, t)
        if name == "count" and len(a) == 1:
            t = mk("call", "count", fz(base), fz(a[0]))
            return t
        if base.op == "ref" and self.refinfo[base][0] == "dict":
            items = self.refinfo[base][1]
            if name == "get":
                return self.dict_get(items, a[0],
                                     a[1] if len(a) > 1 else NONE)
            if name == "items":
                return mk("dictitems", *[x for kv in items for x in kv])
            if name == "keys":
                return mk("tuple", *[kk for kk, v in items])
            if name == "values":
                return mk("tuple", *[v for kk, v in items])
        if name == "append" and len(a) == 1:
            self.mutate(base, st, lambda c: self.normseq(
                self.seqof(c) + (mk("e", a[0]),)) if c.op == "seq" else mk(
                    "seq", mk("lst", c), mk("e", a[0])))
            return NONE
        if name == "extend" and len(a) == 1:
            it = self.as_iterable(a[0], st)
            items = self.unroll_items(it, st)
            if items is not None:
                ac = mk("seq", *[mk("e", x) for x in items])
            else:
                ac = self.content(it, st)
            self.mutate(base, st, lambda c: self.concat_lists(c, ac))
            return NONE
        if name == "insert" and len(a) == 2:
            self.mutate(base, st, lambda c: self.list_insert(c, a[0], a[1]))
            return NONE
        if name == "pop":
            i = a[0] if a else const(-1)
            old = self.content(base, st)
            v = self.list_get(old, i)
            self.mutate(base, st, lambda c: self.list_delete(c, i))
            return v
        if name == "remove" or name == "clear":
            self.mutate(base, st, lambda c: mk("seq", mk(
                "lst", mk("call", name, c, *a))))
            return NONE
        if name == "copy" and not a:
            return self.newlist(st, self.content(base, st))
        if name == "sort":
            key = self.keyof(k.get("key"), st)
            rev = k.get("reverse", FALSE)
            self.mutate(base, st, lambda c: mk("seq", mk("lst", mk(
                "call", "sorted", self.freeze(c, st), key, rev))))
            return NONE
        if name == "reverse":
            self.mutate(base, st, lambda c: mk("seq", mk("lst", mk(
                "call", "reversedlist", self.freeze(c, st)))))
            return NONE
        if name == "index" and len(a) == 1:
            t = mk("call", "index", fz(base), fz(a[0]))
            self.may_raise(not_(self.contains(a[0], base, st)), "ValueError",
                           st, e.lineno)
            return t
        if name == "to_integral_value":
            return mk("call", "round", fz(base))
        if name in ("partition", "find", "split") and not k and a and \
                is_const(a[0]) and isinstance(cval(a[0]), str) and \
                cval(a[0]) and not self.islist(base, st):
            x, c = fz(base), a[0]
            if base.op in ("idx", "attr", "sym", "call", "phi"):
                self.types[base] = "str"
            there, at = mk("in", c, x), mk("call", "index", x, c)
            if name == "find" and len(a) == 1:
                return ite(there, at, const(-1))
            if name == "partition":
                return mk("tuple", self.before(x, c), ite(there, c, const("")),
                          ite(there, mk("strslice", x, add(at, const(
                              len(cval(c)))), mk("call", "len", x)),
                              const("")))
            if name == "split" and len(a) == 1 or is_num(a[-1]):
                # how often it is split at most makes no difference for [0]
                self.splits[mk("call", ".split", x, *a)] = (x, c)
        if name == "split" and not a and not k and base.op == "call" and \
                base.args[0] in ("strip", "rstrip", "lstrip") and \
                len(base.args) == 2:
            base = base.args[1]
        kws = []
        for n in sorted(k):
            kws += [const(n), fz(k[n])]
        t = mk("call", "." + name, fz(base), *([fz(x) for x in a] + kws))
        return self.facts.get(t, t)

    @staticmethod
    def before(x, c):
        """The part of a string before a text in it."""
        return ite(mk("in", c, x),
                   mk("strslice", x, ZERO, mk("call", "index", x, c)), x)

    def str_test(self, name, base, x):
        if is_const(base) and is_const(x):
            return const(getattr(cval(base), name)(cval(x)))
        if name == "startswith" and is_const(x) and len(cval(x)) == 1:
            t = mk("truth", mk("call", "startswith", base, x))
            return self.facts.get(t, t)
        t = mk("truth", mk("call", name, base, x))
        return self.facts.get(t, t)

    def keyof(self, f, st):
        """Canonical term of a sort key function."""
        if f is None:
            return NONE
        x = sym("<elem>")
        if f.op == "call" and f.args[0] == "attrgetter" and is_const(
                f.args[1]):
            return mk("attr", x, cval(f.args[1]))
        if f.op in ("ref", "func", "bound", "builtin"):
            s2 = st.copy()
            v = self.call_value(f, [x], {}, s2, None)
            return self.freeze(v, s2)
        return f

    def builtin(self, n, a, k, st, e):
        fz = lambda x: self.freeze(x, st)
        if n == "len" and len(a) == 1:
            x = a[0]
            if x.op == "const" and isinstance(cval(x), str):
                return const(len(cval(x)))
            if x.op == "tuple":
                return const(len(x.args))
            if self.isstring(x):
                if x.op == "strslice":
                    return sub(x.args[2], x.args[1])
                if x.op == "char":
                    return ONE
                t = mk("call", "len", x)
                return self.facts.get(t, t)
            if x.op == "ref" and self.refinfo[x][0] == "dict":
                return const(len(self.refinfo[x][1]))
            cn = self.classname(x)
            if cn and cn in self.p.classes:
                f = self.p.find_method(self.p.classes[cn], "__len__")
                if f:
                    return self.call_func(f, [x], {}, st, e.lineno)
            t = self.length(self.content(x, st))
            return self.facts.get(t, t)
        if n == "range":
            if len(a) == 1:
                return mk("range", ZERO, a[0], ONE)
            if len(a) == 2:
                return mk("range", a[0], a[1], ONE)
            return mk("range", *a)
        if n == "enumerate":
            s = a[1] if len(a) > 1 else k.get("start", ZERO)
            return mk("enumerate", a[0], s)
        if n == "zip":
            return mk("zip", *a)
        if n == "reversed":
            return mk("reversed", a[0])
        if n in ("min", "max"):
            if len(a) == 1 and not k:
                items = self.unroll_items(a[0], st)
                if items:
                    return fcall(n, *items)
                return mk("call", n + "of", fz(a[0]))
            if list(k) == ["default"] and len(a) == 1:
                items = self.unroll_items(a[0], st)
                if items is not None:
                    return fcall(n, *items) if items else k["default"]
                return ite(self.istrue(a[0], st),
                           mk("call", n + "of", fz(a[0])), k["default"])
            if k:
                return mk("call", n + "by", fz(a[0]),
                          self.keyof(k.get("key"), st))
            return fcall(n, *[fz(x) for x in a])
        if n == "abs":
            return fcall("abs", a[0])
        if n == "sum":
            items = self.unroll_items(a[0], st)
            if items is not None:
                return add(*(items + a[1:])) if items or a[1:] else ZERO
            return mk("call", "sumof", fz(a[0]))
        if n in ("any", "all"):
            items = self.unroll_items(a[0], st)
            if items is not None:
                xs = [truth(x) for x in items]
                return or_(*xs) if n == "any" else and_(*xs)
            return mk("truth", mk("call", n, fz(a[0])))
        if n == "sorted":
            return mk("call", "sorted", fz(a[0]),
                      self.keyof(k.get("key"), st), k.get("reverse", FALSE))
        if n in ("list", "tuple"):
            if not a:
                return self.newlist(st, mk("seq"))
            items = self.unroll_items(self.as_iterable(a[0], st), st)
            if items is not None:
                if n == "tuple":
                    return mk("tuple", *items)
                return self.newlist(st, mk("seq", *[mk("e", x)
                                                    for x in items]))
            if a[0].op in ("zip", "enumerate", "range", "reversed"):
                nn, elem = self.domain(a[0], st)
                return self.newlist(st, mk("seq", mk("lst", mk(
                    "call", "list", a[0]))))
            return self.newlist(st, self.content(a[0], st))
        if n in ("set", "frozenset"):
            return mk("call", "set", *[fz(x) for x in a])
        if n == "float":
            if not a:
                return ZERO
            x = a[0]
            if is_num(x):
                return x
            if x.op == "const" and isinstance(cval(x), str):
                try:
                    return const(float(cval(x)))
                except ValueError:
                    self.frames[-1].exits.append(Exit(
                        st.guard, "raise", mk("exccls", "ValueError"),
                        st.copy(), e.lineno))
                    st.guard = FALSE
                    return NONE
            if self.isstring(x) or self.types.get(x) == "str":
                t = mk("call", "float", fz(x))
                self.may_raise(mk("exc", t), "ValueError", st, e.lineno)
                return t
            if x.op in ("sum", "prod", "call", "pi"):
                return x
            t = mk("call", "float", fz(x))
            self.may_raise(mk("exc", t), "ValueError", st, e.lineno)
            return t
        if n == "int":
            if is_num(a[0]):
                return const(int(cval(a[0])))
            if a[0].op == "call" and a[0].args[0] in ("ceil", "floor",
                                                      "round", "len"):
                return a[0]
            t = mk("call", "int", fz(a[0]))
            self.may_raise(mk("exc", t), "ValueError", st, e.lineno)
            return t
        if n == "str":
            if not a:
                return const("")
            if a[0].op == "const" and isinstance(cval(a[0]), str):
                return a[0]
            if self.isstring(a[0]):
                return a[0]
            return mk("call", "str", fz(a[0]))
        if n == "bool":
            return self.istrue(a[0], st)
        if n == "isinstance":
            return mk("isinstance", fz(a[0]), a[1])
        if n == "print":
            self.do_print(a, k, st)
            return NONE
        if n == "format" and a and self.isstring(a[0]) | (len(a) < 3):
            return self.fmtpiece(a[0], None,
                                 a[1] if len(a) > 1 else const(""), st)
        if n == "repr" and len(a) == 1:
            return mk("call", "repr", fz(a[0]))
        if n == "round":
            return mk("call", "round", *[fz(x) for x in a])
        if n == "iter":
            return a[0]
        if n == "getattr" and is_const(a[1]):
            v = self.getattr_(a[0], cval(a[1]), st)
            return v
        if n == "setattr" and is_const(a[1]):
            self.setattr_(a[0], cval(a[1]), a[2], st)
            return NONE
        if n == "pow":
            return tm.power(a[0], a[1])
        if n == "next":
            items = self.unroll_items(a[0], st)
            if items:
                return items[0]
            nn, el = self.domain(a[0], st)
            return mk("call", "next", fz(el(ZERO)), *a[1:])
        if n == "dict":
            return self.newref(("dict", [(const(x), v)
                                         for x, v in sorted(k.items())]))
        if n == "map" and len(a) == 2:
            items = self.unroll_items(a[1], st)
            if items is not None:
                return self.newlist(st, mk("seq", *[
                    mk("e", self.call_value(a[0], [x], {}, st, e))
                    for x in items]))
        return mk("call", n, *[fz(x) for x in a])

    def extcall(self, n, a, k, st, e):
        fz = lambda x: self.freeze(x, st)
        if n == "deepcopy" or n == "copy":
            x = a[0]
            if is_const(x) or x.op in ("sum", "prod"):
                return x
            if x.op == "ref":
                info = self.refinfo[x]
                if info[0] == "list":
                    return self.newlist(st, self.content(x, st))
                if info[0] == "obj":
                    r = self.newref(info)
                    for kk, v in list(st.heap.items()):
                        if kk[1] is x and kk[0] == "f":
                            st.heap[("f", r, kk[2])] = v
                    return r
            if self.islist(x, st) and self.elemtype(x) is None:
                return self.newlist(st, self.content(x, st))
            if self.islist(x, st):
                return self.newlist(st, self.content(x, st))
            r = mk("copy", self.copynumber(x, st), x)
            for kk, v in list(st.heap.items()):
                if kk[1] is x and kk[0] == "f":
                    st.heap[("f", r, kk[2])] = v
            return r
        if n in ("divide", "true_divide"):
            return div(a[0], a[1])
        if n == "multiply":
            return mul(a[0], a[1])
        if n in ("array", "asarray", "float64"):
            return a[0]
        if n == "radians" or n == "deg2rad":
            return div(mul(a[0], tm.PI), const(180))
        if n == "degrees" or n == "rad2deg":
            return div(mul(a[0], const(180)), tm.PI)
        if n in ("pow", "power"):
            return tm.power(a[0], a[1])
        if n == "fabs" or n == "absolute":
            return fcall("abs", a[0])
        if n in ("isnan", "isinf"):
            return mk(n, a[0])
        if n == "count":
            return mk("count", a[0] if a else k.get("start", ZERO),
                      a[1] if len(a) > 1 else k.get("step", ONE))
        if n in ("sqrt", "sin", "cos", "tan", "asin", "acos", "atan",
                 "atan2", "log", "exp", "ceil", "floor", "log10", "hypot"):
            return fcall(n, *a)
        if n in ("arcsin", "arccos", "arctan", "arctan2"):
            return fcall({"arcsin": "asin", "arccos": "acos",
                          "arctan": "atan", "arctan2": "atan2"}[n], *a)
        if n in ("sub", "add", "mul", "truediv") and len(a) == 2:
            return tm.binop({"sub": "-", "add": "+", "mul": "*",
                             "truediv": "/"}[n], a[0], a[1])
        if n == "partial":
            return mk("partial", *a)
        if n == "Decimal":
            return a[0]
        if n == "clip" and len(a) == 3:
            return fcall("max", a[1], fcall("min", a[2], a[0]))
        if n == "errstate":
            return NONE
        kws = []
        for x in sorted(k):
            kws += [const(x), fz(k[x])]
        return mk("call", n, *([fz(x) for x in a] + kws))
