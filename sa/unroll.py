"""Separating summaries whose loops could not be related.

When the induction that relates two loops does not close, the value graphs
are peeled: the first few iterations of each loop are written out (the value
of a carried location in iteration j+1 is its step value over iteration j),
lazily, while the graphs are folded in a random interpretation.  Lists and
strings follow their axioms (element i of a concatenation, length of an
insertion ...).  A peeled graph speaks for inputs with few iterations only,
so it can tell two summaries apart but never show them equal: the outcome
is a witness or nothing."""
import random
import time
from fractions import Fraction

from . import terms as tm
from .terms import T, mk, const, TRUE
from .engine import TRACE
from .equiv import (Interpretation, Classes, Undef, Poison, NUMCALLS, h,
                    canon, veq, isnumv, showv, exchange, Verdict, DIFFERENT, UNDECIDED,
                    kn, sig, bias, nudge, parting)

MAXITER = 6
STRINGCALLS = frozenset(["startswith", "endswith", "lower", "upper", "strip",
                         ".isdigit", ".lower", ".upper", ".strip", ".split",
                         ".startswith", ".endswith"])
LISTCALLS = frozenset(["sorted", "maxof", "minof"])
EMPTY = ()


def is_bool(t):
    return t is TRUE or t is tm.FALSE


KNOWN = frozenset("""num const pi ite sum prod cmp truth call concat seq tuple
listc struct e lst seg isnan isinf exc in isinstance loopexit sym phi lidx
loopout atexit atend attr idx char copy slice strslice store class exccls
excval effect range zip reversed enumerate set ext bound func""".split())


class Loops(object):
    """The loops of both summaries, by number."""

    def __init__(self, *tables):
        self.t = {}
        for x in tables:
            self.t.update(x)
        self.bykey = {}
        for lid, L in self.t.items():
            self.bykey[lid] = {kn(k): v for k, v in L.carried.items()}
        self.memo = {}
        self.chains = {}

    def chain(self, lid):
        """The loop and those around it."""
        if lid not in self.chains:
            out, x = set(), lid
            while x is not None and x in self.t and x not in out:
                out.add(x)
                x = self.t[x].parent
            self.chains[lid] = frozenset(out)
        return self.chains[lid]

    def free(self, t):
        """The loops whose current iteration the term depends on."""
        stack = [t]
        while stack:
            x = stack[-1]
            if x in self.memo:
                stack.pop()
                continue
            kids = [a for a in x.args if isinstance(a, T)]
            todo = [a for a in kids if a not in self.memo]
            if todo:
                stack += todo
                continue
            out = frozenset()
            for a in kids:
                out |= self.memo[a]
            if x.op in ("phi", "lidx") and x.args[0] in self.t:
                out |= self.chain(x.args[0])
            elif x.op in ("loopout", "loopexit", "atexit", "atend") and \
                    x.args[0] in self.t:
                out = (out | self.chain(x.args[0])) - {x.args[0]}
            self.memo[x] = out
            stack.pop()
        return self.memo[t]


TRACENAME = "content(%s)" % tm.show(TRACE)


class Endless(Undef):
    """A loop that is not done after the iterations looked at."""
    def __init__(self, trace):
        Undef.__init__(self, "long loop")
        self.trace = trace


def effects(v):
    """{object: what is done to it, in order} of a list of effects."""
    out = {}
    for x in v:
        if not (isinstance(x, tuple) and x and x[0] == "effect"):
            return None
        out.setdefault(x[1], []).append(x)
    return out


def agree(a, b):
    """Can two lists of effects, (list, complete?), be of one run?"""
    x, y = effects(a[0]), effects(b[0])
    if x is None or y is None:
        return True
    for o in set(x) | set(y):
        p, q = x.get(o, []), y.get(o, [])
        if a[1] and len(q) > len(p) or b[1] and len(p) > len(q):
            return False
        if not all(veq(i, j) for i, j in zip(p, q)):
            return False
    return True


class Unrolled(Interpretation):
    def __init__(self, classes, seed, loops, foreign, words, strings):
        Interpretation.__init__(self, classes, seed, foreign)
        self.loops = loops
        self.env = {}
        self.strings = strings
        r = random.Random(seed * 104729 + 5)
        ws = list(words)
        r.shuffle(ws)
        self.words = ws[:r.choice((2, 3, 3, 4, 6, 12))] or ["?"]
        self.ends = {}
        self.maxlen = r.choice((1, 2, 2, 3, 3, 4))
        self.iters = set()
        self.steps = 0

    def forget(self):
        self.memo, self.ends = {}, {}

    def beside(self, other):
        self.near = other.seed
        self.mode, self.base = other.mode, other.base
        self.words, self.maxlen = other.words, other.maxlen
        return self

    # -- memo per iteration
    def value(self, t):
        if t.op == "num" or t.op == "const":
            return t.args[0]
        fr = self.loops.free(t)
        if fr:
            try:
                k = (t, tuple(sorted((x, self.env[x]) for x in fr)))
            except KeyError:
                raise Undef("loop variable outside its loop")
        else:
            k = t
        m = self.memo
        if k in m:
            v = m[k]
            if isinstance(v, Exception):
                raise v
            return v
        self.steps += 1
        if self.steps > 60000:
            raise Undef("too long")
        try:
            v = self._value(t)
        except (Undef, Poison) as e:
            m[k] = e
            raise
        m[k] = v
        return v

    def within(self, lid, j, f):
        """f() in iteration j of a loop (None: outside of it)."""
        old = self.env
        new = dict(old)
        if j is None:
            new.pop(lid, None)
        else:
            new[lid] = j
        self.env = new
        try:
            return f()
        finally:
            self.env = old

    def phi(self, t, f):
        """f applied to what a carried location stands for."""
        lid, name = t.args[0], t.args[1]
        if lid not in self.loops.t or lid not in self.env:
            raise Undef("loop variable outside its loop")
        c = self.loops.bykey[lid].get(name)
        if c is None:
            raise Undef("no such location")
        j = self.env[lid]
        if j == 0:
            return self.within(lid, None, lambda: f(c[0]))
        return self.carry(lid, name, j - 1, f, c[2])

    other = None

    def carry(self, lid, name, j, f, t):
        """What iteration j leaves behind in a carried location."""
        r = self.within(lid, j, lambda: f(t))
        if self.other is not None and self.other[:3] == (lid, name, j):
            r = swapped(r, self.other[3])
        return r

    def end(self, lid):
        """(last iteration, left early?) of the loop in this context."""
        L = self.loops.t[lid]
        chain = self.loops.chain(lid) - {lid}
        try:
            k = (lid, tuple(sorted((x, self.env[x]) for x in chain)))
        except KeyError:
            raise Undef("loop outside its loop")
        if k in self.ends:
            r = self.ends[k]
            if isinstance(r, Exception):
                raise r
            return r
        self.ends[k] = Undef("recursive loop")
        try:
            r = self._end(lid, L)
        except (Undef, Poison) as e:
            self.ends[k] = e
            raise
        self.ends[k] = r
        self.iters.add(r[0])
        return r

    def _end(self, lid, L):
        n = None
        if L.n is not None:
            n = self.within(lid, None, lambda: self.num(L.n))
            if n < 0 and getattr(L, "final", None):
                # not where its counter would be
                raise Undef("loop that does not start")
        for j in range(MAXITER):
            if n is not None and j >= n:
                return j, False
            if L.cond is not TRUE and not self.within(
                    lid, j, lambda: self.boolean(L.cond)):
                return j, False
            if L.leave is not tm.FALSE and self.within(
                    lid, j, lambda: self.boolean(L.leave)):
                return j, True
        raise Endless(self.so_far(lid, L))

    def so_far(self, lid, L):
        """The effects of a loop that goes on for long, up to here."""
        c = self.loops.bykey[lid].get(TRACENAME)
        if c is None or self.other is not None:
            return None
        try:
            return self.carry(lid, TRACENAME, MAXITER - 1, self.elements,
                              c[2])
        except Endless as e:
            return e.trace
        except (Undef, Poison, ZeroDivisionError, OverflowError,
                RecursionError):
            return None

    def loopterm(self, t, f):
        o, lid = t.op, t.args[0]
        if lid not in self.loops.t:
            raise Undef("unknown loop")
        j, early = self.end(lid)
        if o == "loopout":
            c = self.loops.bykey[lid].get(t.args[1])
            if c is None:
                raise Undef("no such location")
            if j == 0:
                return self.within(lid, None, lambda: f(c[0]))
            return self.carry(lid, t.args[1], j - 1, f, c[2])
        if o == "atexit":
            if not early:
                raise Undef("not left early")
            return self.within(lid, j, lambda: f(t.args[1]))
        if j == 0:
            raise Undef("no iteration")
        if t.args[1].op == "sym":
            raise Undef("undefined name")
        return self.within(lid, j - 1, lambda: f(t.args[1]))

    def string(self, t):
        k = self.key(t)
        if k in self.forced:
            return self.forced[k]
        r = random.Random(self.draw("string", k))
        out = ""
        for _ in range(r.choice((0, 1, 1, 2, 2, 3, 3, 4, 5))):
            out += r.choice(self.words)
        return out

    def leaf(self, t, key):
        s, kinds, pool = self.c.of(t)
        if t.op == "call" and t.args[0] == "len":
            r = random.Random(self.draw(key))
            ints = [int(p) for p in pool
                    if isnumv(p) and p == int(p) and 2 < p < 7]
            if ints and r.random() < 0.7:
                return r.choice(sorted(ints))
            if self.maxlen <= 2 and r.random() < 0.8:
                return self.maxlen
            return r.randint(0, self.maxlen)
        if "str" in kinds and "none" not in kinds and key not in self.forced:
            r = random.Random(self.draw(key))
            strs = [p for p in self.words if p in pool]
            if strs and r.random() < 0.9:
                return r.choice(strs)
        return Interpretation.leaf(self, t, key)

    # -- lists
    def elements(self, base):
        """The elements of the list a term stands for."""
        o = base.op
        if o == "phi":
            return self.phi(base, self.elements)
        if o in ("loopout", "atexit", "atend"):
            return self.loopterm(base, self.elements)
        if o == "ite":
            return self.elements(base.args[
                1 if self.boolean(base.args[0]) else 2])
        if o == "seq":
            out = []
            for p in base.args:
                if p.op == "e":
                    out.append(self.item(p.args[0]))
                elif p.op == "seg":
                    lo, hi = self.num(p.args[1]), self.num(p.args[2])
                    es = self.elements(p.args[0])
                    if not 0 <= lo <= hi <= len(es):
                        raise Undef("segment")
                    out += es[int(lo):int(hi)]
                else:
                    out += self.elements(p.args[0])
            return out
        if o == "store":
            es = list(self.elements(base.args[0]))
            i = self.position(base.args[1], len(es))
            es[i] = self.item(base.args[2])
            return es
        if o in ("tuple", "listc"):
            return [self.item(x) for x in base.args]
        if o == "slice":
            es = self.elements(base.args[0])
            lo, hi = [None if x is tm.NONE else int(self.num(x))
                      for x in base.args[1:3]]
            return es[lo:hi]
        if o == "call":
            n, a = base.args[0], base.args[1:]
            if n == "inserted":
                es = list(self.elements(a[0]))
                es.insert(int(self.num(a[1])), self.item(a[2]))
                return es
            if n == "deleted":
                es = list(self.elements(a[0]))
                del es[self.position(a[1], len(es))]
                return es
            if n == "reversedlist":
                return self.elements(a[0])[::-1]
            if n == "sorted":
                es = self.elements(a[0])
                if a[1] is not tm.NONE or not is_bool(a[2]) or \
                        not all(isnumv(x) for x in es):
                    raise Undef("sorted")
                return sorted(es, reverse=a[2] is TRUE)
            if n == "list" and a[0].op not in KNOWN:
                raise Undef("list")
        if o == "copy":
            return self.elements(base.args[1])
        if o in ("sym", "attr", "idx", "call"):
            n = self.value(mk("call", "len", self.lenbase(base)))
            if not isinstance(n, int) or n < 0 or n > 12:
                raise Undef("length")
            return [self.item(mk("idx", base, const(i))) for i in range(n)]
        raise Poison("list " + o)

    def lenbase(self, v):
        from .engine import PARALLEL
        if v.op == "attr" and v.args[1] in PARALLEL:
            return mk("attr", v.args[0], PARALLEL[v.args[1]])
        return v

    def position(self, t, n):
        i = self.num(t)
        if i != int(i) or not -n <= i < n:
            raise Undef("index")
        return int(i) % n

    def item(self, t):
        v = self.opkey(t)
        return v

    def opkey(self, x):
        o = x.op
        if o == "phi":
            return self.phi(x, self.opkey)
        if o in ("loopout", "atexit", "atend"):
            return self.loopterm(x, self.opkey)
        if o == "ite":
            return self.opkey(x.args[1 if self.boolean(x.args[0]) else 2])
        if o == "idx":
            r = self.element(x, None)
            if r is not None:
                return r[0]
        if x in self.strings:
            return self.value(x)
        return Interpretation.opkey(self, x)

    def element(self, x, _):
        """idx into a list that was built here -> (value,), else None."""
        base, i = x.args
        b = base
        if self.built(b):
            es = self.elements(b)
            return (es[self.position(i, len(es))],)
        return None

    def built(self, b):
        if b.op in ("seq", "store", "listc", "tuple"):
            return True
        if b.op == "phi":
            try:
                return self.phi(b, self.built)
            except Undef:
                return False
        if b.op in ("loopout", "atexit", "atend"):
            return self.loopterm(b, self.built)
        if b.op == "ite":
            return self.built(b.args[1 if self.boolean(b.args[0]) else 2])
        if b.op == "slice":
            return True
        return b.op == "call" and (
            b.args[0] in ("inserted", "deleted", "reversedlist") or
            b.args[0] == "sorted" and b.args[2] is tm.NONE
            and is_bool(b.args[3]))

    def stringbase(self, t):
        return t in self.strings

    def _value(self, t):
        o, a = t.op, t.args
        if o not in KNOWN:
            raise Poison("operation " + o)
        if o == "phi":
            return self.phi(t, self.value)
        if o in ("loopout", "atexit", "atend"):
            return self.loopterm(t, self.value)
        if o == "lidx":
            if a[0] not in self.env:
                raise Undef("index outside its loop")
            return self.env[a[0]]
        if o == "loopexit":
            if a[0] not in self.loops.t:
                raise Undef("unknown loop")
            return self.end(a[0])[1]
        if o == "seq" and len(a) == 1 and a[0].op in ("seg", "lst") and \
                a[0].args[0] in self.strings:
            s = self.value(a[0].args[0])
            if a[0].op == "lst":
                return s
            lo, hi = self.num(a[0].args[1]), self.num(a[0].args[2])
            return s[max(0, int(lo)):max(0, int(hi))]
        if o in ("seq", "store"):
            return ("seq",) + exchange(("e", x) for x in self.elements(t))
        if o == "call" and a[0] in ("inserted", "deleted", "reversedlist"):
            return ("seq",) + exchange(("e", x) for x in self.elements(t))
        if o == "slice":
            return ("seq",) + exchange(("e", x) for x in self.elements(t))
        if o == "call" and a[0] == "len":
            if a[1] in self.strings:
                return len(self.value(a[1]))
            if self.built(a[1]):
                return len(self.elements(a[1]))
            if a[1].op in ("phi", "loopout", "atexit", "atend"):
                f = lambda x: self.value(mk("call", "len", self.lenbase(x)))
                return self.phi(a[1], f) if a[1].op == "phi" else \
                    self.loopterm(a[1], f)
        if o == "call" and a[0] in (".isdigit", ".isalpha", ".isupper",
                                    ".islower"):
            v = self.value(a[1])
            if isinstance(v, str):
                return getattr(v, a[0][1:])()
        if o == "idx" and a[0] in self.strings:
            s = self.value(a[0])
            return s[self.position(a[1], len(s))]
        if o == "idx":
            r = self.element(t, None)
            if r is not None:
                v = r[0]
                return v
            i = self.value(a[1])
            if isnumv(i) and i < 0 and i == int(i) and \
                    a[0].op in ("attr", "sym"):
                n = self.value(mk("call", "len", self.lenbase(a[0])))
                return self.value(mk("idx", a[0], const(int(n + i)))) \
                    if n + i >= 0 else self.undef("index")
            if isnumv(i) and a[0].op in ("attr", "sym"):
                n = self.value(mk("call", "len", self.lenbase(a[0])))
                if i >= n:
                    raise Undef("index")
        if o == "char":
            s = self.strvalue(a[0])
            if s is not None:
                return s[self.position(a[1], len(s))]
        if o == "strslice":
            s = self.strvalue(a[0])
            if s is not None:
                lo, hi = [None if x is tm.NONE else int(self.num(x))
                          for x in a[1:3]]
                return s[lo:hi]
        if t in self.strings and o in ("sym", "attr", "idx", "call"):
            return self.string(t)
        if o == "truth":
            v = a[0]
            if self.built(v) if v.op in ("phi", "loopout", "atexit", "atend",
                                         "seq", "store") else False:
                return len(self.elements(v)) > 0
        if o == "in":
            return self.contains(t)
        if o == "call" and a[0] == "next" and len(a) == 3:
            try:
                return self.value(a[1])
            except Undef:
                return self.value(a[2])
        if o == "call" and a[0] in ("maxof", "minof") and len(a) == 2:
            try:
                es = self.elements(a[1])
            except Poison:
                es = [None]
            if not es:
                raise Undef("of nothing")
            if all(isnumv(x) for x in es):
                return (max if a[0] == "maxof" else min)(es)
        return Interpretation._value(self, t)

    def undef(self, why):
        raise Undef(why)

    def strvalue(self, x):
        v = self.value(x)
        return v if isinstance(v, str) else None

    def contains(self, t):
        x, c = t.args[0], t.args[1]
        if c.op in ("tuple", "listc", "set"):
            v = self.value(x)
            return any(veq(v, self.value(y)) for y in c.args)
        if c.op == "const" and isinstance(c.args[0], str):
            v = self.value(x)
            if isinstance(v, str):
                return v in c.args[0]
        if c in self.strings:
            v = self.value(x)
            if isinstance(v, str):
                return v in self.value(c)
        if c.op in ("seq", "phi", "loopout", "atexit", "atend", "attr",
                    "sym", "store", "idx"):
            v = self.opkey(x)
            return any(veq(v, y) for y in self.elements(c))
        if t in self.forced:
            return self.forced[t]
        return bool(self.draw("in", self.key(t)) & 1)

    def key(self, t):
        if t.op in ("idx",) and isinstance(t.args[1], T):
            # positions are numbers
            return "idx(%s,%s)" % (canon(self.opkey(t.args[0])),
                                   canon(self.num(t.args[1])))
        if t.op == "isinstance":
            return "isinstance(%s)" % ",".join(
                canon(self.opkey(x)) if isinstance(x, T) else str(x)
                for x in t.args)
        return Interpretation.key(self, t)


def words_of(cls, terms=()):
    out = set()
    for t in terms:
        # what is looked for at the start, at the end or inside of a string
        if t.op == "call" and t.args[0] in STRINGCALLS or t.op == "in":
            out |= {x.args[0] for x in t.args if isinstance(x, T)
                    and x.op == "const" and isinstance(x.args[0], str)}
    for p in cls.pool.values():
        out |= {x for x in p if isinstance(x, str)}
    return sorted(out - {""})


def string_bases(terms):
    """Terms that are taken apart as strings."""
    out, maybe, lists = set(), set(), set()
    for t in terms:
        b = None
        if t.op in ("char", "strslice"):
            b = t.args[0]
        elif t.op == "call" and t.args[0] in STRINGCALLS:
            b = t.args[1]
        elif t.op == "in" and t.args[0].op == "const" and isinstance(
                t.args[0].args[0], str):
            maybe.add(t.args[1])
        elif t.op in ("idx", "lst", "seg", "slice", "store"):
            lists.add(t.args[0])
        if b is not None:
            if b.op in ("sym", "attr", "idx", "call"):
                out.add(b)
    return out | {b for b in maybe - lists if b.op in ("sym", "attr")}


def run_of(it, t):
    """(effects, all of them?)"""
    try:
        v = it.value(t)
    except Endless as e:
        if e.trace is None:
            raise
        return e.trace, False
    if not (isinstance(v, tuple) and v[:1] == ("seq",)) or not all(
            x[0] == "e" for x in v[1:]):
        raise Undef("no list of effects")
    return [x[1] for x in v[1:]], True


def separate(parts, loops, live, foreign, seed=1, seconds=20.0,
             samples=4000, need=2, logs=()):
    """{number: verdict DIFFERENT} for those of parts [(code term, reference
    term, condition)] that an interpretation tells apart; logs are the
    numbers of those that are lists of effects."""
    roots = list(live) + [t for p in parts for t in p]
    seen = set()
    for r in roots:
        tm.subterms(r, seen)
    cls = Classes(roots)
    strings = string_bases(seen)
    words = words_of(cls, seen)
    if strings:
        words += [c for c in "2Z" if c not in words]
    t0 = time.process_time()
    out, first, hits = {}, {}, {}
    defined = [0] * len(parts)
    for i in range(samples):
        todo = [n for n in range(len(parts)) if n not in out and not (
            i > 500 and defined[n] < 4)]
        if not todo or time.process_time() - t0 > seconds:
            break
        it = Unrolled(cls, seed * 1000003 + i, loops, foreign, words, strings)
        if i % 2:
            # near a place where the two diagrams part
            try:
                if i % 4 == 3:
                    steer(it)
                bias(it, *parts[todo[i // 2 % len(todo)]],
                     onlynumbers=True)
            except (Undef, Poison, ZeroDivisionError, OverflowError,
                    RecursionError, ValueError):
                pass
        for n in todo:
            x, y, given = parts[n]
            it.steps = 0
            try:
                try:
                    if given is not TRUE and not it.boolean(given):
                        continue
                except Endless:
                    if n not in logs:
                        raise
                if n in logs:
                    try:
                        a, b = it.value(x), it.value(y)
                    except Endless:
                        a, b = run_of(it, x), run_of(it, y)
                        defined[n] += 1
                        if agree(a, b):
                            continue
                        a, b = [("seq",) + tuple(("e", z) for z in w[0])
                                for w in (a, b)]
                else:
                    a, b = it.value(x), it.value(y)
            except (Undef, Poison, ZeroDivisionError, OverflowError,
                    RecursionError):
                continue
            defined[n] += 1
            if veq(a, b) or i % 2 and raised(a) and raised(b):
                continue
            first.setdefault(n, (it, a, b))
            hits[n] = hits.get(n, 0) + 1
            if hits[n] >= need:
                it0, a, b = first[n]
                out[n] = Verdict(
                    DIFFERENT, "%s instead of %s (first iterations of the "
                    "loops)" % (showv(a), showv(b)), witness(it0))
    separate.defined = defined
    return out


def steer(it):
    """Let the outer loops run for an iteration or two."""
    rng = random.Random(it.seed * 17 + 3)
    for lid, L in it.loops.t.items():
        if L.parent in it.loops.t or L.leave is tm.FALSE or L.leave is TRUE:
            continue
        for j in range(rng.choice((1, 2, 3))):
            def go():
                for _ in range(3):
                    try:
                        if not it.boolean(L.leave):
                            return
                    except (Undef, ZeroDivisionError, OverflowError):
                        pass
                    for v, val in parting(L.leave, TRUE, TRUE, rng):
                        try:
                            if it.value(v) is not val:
                                nudge(it, v, val, rng, True)
                        except (Undef, ZeroDivisionError, OverflowError):
                            pass
            it.within(lid, j, go)


def raised(v):
    return isinstance(v, tuple) and v[:1] == ("tok",) and \
        str(v[1]).startswith("exccls")


def swapped(v, w):
    """Another value of the same kind."""
    if isinstance(v, bool):
        return not v
    if isnumv(v):
        return w if w else v + Fraction(1, 16)
    if isinstance(v, str):
        return v + "?"
    if isinstance(v, list) and v:
        return v[:-1] + [swapped(v[-1], w)]
    if isinstance(v, tuple) and len(v) > 1 and v[0] in ("seq", "e"):
        return v[:-1] + (swapped(v[-1], w),)
    return v


def matters(it, x, a, lid, key):
    """Would the result be another one if the carried location had another
    value after the iteration in which the loops come apart?"""
    for w in (Fraction(10 ** 7), Fraction(-10 ** 7), 0):
        u = Unrolled(it.c, it.seed, it.loops, it.foreign, (), it.strings)
        u.beside(it)
        u.near = it.near
        u.other = (lid, key, it.where, w)
        try:
            if not veq(u.value(x), a):
                return True
        except (Undef, Poison, ZeroDivisionError, OverflowError,
                RecursionError):
            pass
    return False


def nest(loops, lid):
    """The loop and those around it, outermost first."""
    out = []
    while lid is not None and lid in loops.t and lid not in out:
        out.insert(0, lid)
        lid = loops.t[lid].parent
    return out


def parted(it, loops, cl, rl, what, ct, rt):
    """Does what the two loops do differ in an iteration that is run?"""
    def at(i):
        i1 = it.boolean(loops.t[cl[i]].entry)
        i2 = it.boolean(loops.t[rl[i]].entry)
        if i1 != i2:
            n, left = it.end(cl[i] if i1 else rl[i])
            return n > 0 or left
        if not i1:
            return False
        if i == len(cl) - 1:
            if what == "iterations" or what.startswith("initial"):
                try:
                    a, b = it.value(ct), it.value(rt)
                    if what == "iterations" and isnumv(a) and isnumv(b):
                        a, b = max(a, 0), max(b, 0)
                    return not veq(a, b)
                except (Undef, Poison, ZeroDivisionError):
                    return False
        e1, e2 = it.end(cl[i]), it.end(rl[i])
        last = i == len(cl) - 1
        if last and e1 != e2 and what.startswith("condition"):
            return True
        n = min(e1[0] + e1[1], e2[0] + e2[1], 3)
        for j in range(n):
            old = it.env
            it.env = dict(old)
            it.env[cl[i]] = it.env[rl[i]] = j
            try:
                if not last:
                    if at(i + 1):
                        return True
                elif not veq(it.value(ct), it.value(rt)):
                    it.where = j
                    return True
            except (Undef, Poison, ZeroDivisionError, OverflowError):
                pass
            finally:
                it.env = old
        return False
    return at(0)


def harmless(part, loops, live, foreign, blamed, seed=1, seconds=20.0,
             samples=20000, need=3000, least=300, alike=60):
    """Is the difference between two loops without a consequence?  Looks for
    interpretations in which the loops do come apart: True if the results
    are the same in all of these, False if one of them differs, None if too
    few are found."""
    what, lid, (rid, ct, rt) = blamed
    cl, rl = nest(loops, lid), nest(loops, rid)
    if len(cl) != len(rl):
        return None
    roots = list(live) + list(part)
    seen = set()
    for r in roots:
        tm.subterms(r, seen)
    cls = Classes(roots)
    strings = string_bases(seen)
    words = words_of(cls, seen)
    if strings:
        words += [c for c in "2Z" if c not in words]
    t0 = time.process_time()
    x, y, given = part
    apart = same = 0
    key = what[len("next value of "):] if what.startswith("next ") else None
    todo = [None] * samples
    for i in range(6 * samples):
        spent = time.process_time() - t0
        if spent > seconds or not todo or not apart and (
                i > 12000 or spent > seconds / 2):
            break
        it = Unrolled(cls, seed * 1000003 + i, loops, foreign, words, strings)
        other = todo.pop()
        if other is not None:
            it.beside(other)
        try:
            if given is not TRUE and not it.boolean(given):
                continue
            a, b = it.value(x), it.value(y)
            if not veq(a, b):
                return False
            if parted(it, loops, cl, rl, what, ct, rt):
                apart += 1
                if key is not None and matters(it, x, a, lid, key):
                    # the same result so far, but not because the value is
                    # without meaning: it may mean the same
                    same += 1
                    if same >= alike:
                        return True
                if other is None:
                    # what is like it may tell more
                    todo += [it] * 30
        except (Undef, Poison, ZeroDivisionError, OverflowError,
                RecursionError):
            continue
        if apart >= need:
            return None if same else True
    if not apart and key is not None and key.startswith("content(ref("):
        # the elements of a list of the function's own, which may as well
        # mean the same
        return True
    return True if apart >= least and not same else None


def witness(it):
    out = {}
    for k, v in it.memo.items():
        t = k if isinstance(k, T) else k[0]
        if t.op in ("sym", "attr", "idx", "char", "call") and not isinstance(
                v, Exception) and not (t.op == "call"
                                       and t.args[0] in NUMCALLS):
            s = tm.show(t)
            if len(s) < 60 and isinstance(v, (int, float, Fraction, str,
                                              bool, type(None))) and \
                    not it.loops.free(t):
                out[s] = showv(v)
    return dict(sorted(out.items())[:14])
