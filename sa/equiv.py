"""Deciding equality of value-number terms.

Two terms are equal when they have the same normal form.  Terms whose normal
forms differ are compared by random interpretation (Gulwani & Necula, "Global
value numbering using random interpretation"): every atom of the terms gets a
pseudo-random value, chosen so that ties and orderings occur, uninterpreted
operations are interpreted by a pseudo-random function of their operands, and
the terms are folded in that interpretation.  The program under analysis is
never run: the objects folded are the summaries of the analysis.

The answer is EQUAL, DIFFERENT (with the interpretation that separates the
terms) or UNDECIDED (something in the terms is not modelled, or no sample was
defined).  Loops are related to loops: same iteration space, same values
carried from one iteration to the next (by induction), same way of leaving.
"""
import math
import random
import zlib
from fractions import Fraction

from . import terms as tm
from .terms import T, mk, is_const, is_num, cval, TRUE, FALSE, NONE

EQUAL, DIFFERENT, UNDECIDED = "equal", "different", "undecided"
SAMPLES = 240


class Undef(Exception):
    pass


class Poison(Exception):
    pass


# ---- classes of atoms ----------------------------------------------------
class Classes(object):
    """Which kind of value the atoms of some terms take, by usage."""

    def __init__(self, roots):
        self.kind, self.pool, self.parent = {}, {}, {}
        seen = set()
        for r in roots:
            tm.subterms(r, seen)
        for t in seen:
            self.visit(t)
        for t in seen:
            if t.op == "in" and t.args[0].op == "const" and isinstance(
                    t.args[0].args[0], str) and "str" in self.of(t.args[1])[1]:
                self.part(t.args[1], t.args[0].args[0])

    def part(self, t, c):
        """Text that a string is searched for."""
        for x in (c, c + "?", "?" + c, "?" + c + "?"):
            self.note(t, "str", x)

    def find(self, s):
        while self.parent.get(s, s) != s:
            s = self.parent[s]
        return s

    def union(self, a, b):
        a, b = self.find(a), self.find(b)
        if a != b:
            self.parent[a] = b
            for d in (self.kind, self.pool):
                if a in d:
                    d.setdefault(b, set()).update(d.pop(a))

    def note(self, t, kind, c=None):
        s = sig(t)
        if s is None:
            return
        s = self.find(s)
        if kind:
            self.kind.setdefault(s, set()).add(kind)
        if c is not None:
            self.pool.setdefault(s, set()).add(c)

    def visit(self, t):
        o, a = t.op, t.args
        if o == "sum" or o == "prod":
            for x in a:
                if isinstance(x, T):
                    self.note(x, "num")
        elif o == "cmp":
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if is_num(y):
                    self.note(x, "num", cval(y))
                elif is_const(y):
                    v = cval(y)
                    self.note(x, "none" if v is None else
                              "bool" if isinstance(v, bool) else "str", v)
                elif tm.isbool(y):
                    self.note(x, "bool")
                elif y.op in ("sum", "prod"):
                    self.note(x, "num")
                    if y.op == "sum" and cval(y.args[0]) != 0:
                        self.note(x, None, cval(y.args[0]))
            sa, sb = sig(a[1]), sig(a[2])
            if sa is not None and sb is not None:
                self.union(sa, sb)
            if a[0] == "<":
                for x in a[1:]:
                    self.note(x, "num")
        elif o == "call" and a[0] in ("lower", "upper", ".lower", ".upper",
                                      ".title"):
            # a string in any case is compared like its lower case
            self.note(a[1], "str")
            self.note(a[1], "case")
            sa, sb = sig(a[1]), sig(t)
            if sa is not None and sb is not None:
                self.union(sa, sb)
        elif o == "call" and a[0] in ("startswith", "endswith") and \
                is_const(a[2]) and isinstance(cval(a[2]), str) and \
                sig(a[1]) is not None:
            self.part(a[1], cval(a[2]))
        elif o == "truth":
            self.note(a[0], "bool?")
        elif o == "idx":
            self.note(a[1], "int")
        elif o == "char":
            self.note(a[1], "int")
        elif o in ("seg", "slice", "strslice"):
            self.note(a[1], "int")
            self.note(a[2], "int")
        elif o == "call" and a[0] in NUMCALLS:
            for x in a[1:]:
                self.note(x, "num")
        elif o == "concat":
            for x in a:
                self.note(x, "str")

    def of(self, t):
        s = sig(t)
        s = self.find(s) if s is not None else None
        return s, self.kind.get(s, ()), self.pool.get(s, ())


NUMCALLS = frozenset(["sqrt", "sin", "cos", "tan", "asin", "acos", "atan",
                      "atan2", "log", "exp", "abs", "min", "max", "ceil",
                      "floor", "pow", "mod", "floordiv", "log10", "hypot",
                      "int", "round"])


COUNTS = frozenset(["len", "index", "count"])

TELLING = frozenset(["str", "repr", "format", ".format", "isinstance", "type",
                     "hash", "%", "print"])


def sig(t):
    """Atoms with the same signature hold the same kind of value."""
    o, a = t.op, t.args
    if o == "sym":
        return "sym:" + a[0]
    if o == "attr":
        return "attr:" + a[1]
    if o == "idx":
        s = sig(a[0])
        return None if s is None else s + "[]"
    if o in ("phi", "loopout"):
        return "%s:%s:%s" % ("loop", a[0], a[1])
    if o in ("atexit", "atend"):
        return sig(a[1])
    if o == "lidx":
        return "lidx:%s" % a[0]
    if o == "call" and a[0] not in NUMCALLS:
        return "call:" + a[0]
    if o == "char":
        return "char"
    if o == "copy":
        return sig(a[1])
    return None


# ---- evaluation ----------------------------------------------------------
def h(seed, *key):
    return zlib.crc32(repr((seed,) + key).encode()) & 0xffffffff


def canon(v):
    if isinstance(v, float):
        if v != v:
            return "nan"
        return "%.9e" % v if v else "0.0"
    if isinstance(v, Fraction):
        return canon(float(v)) if v.denominator != 1 else canon(float(v))
    if isinstance(v, bool):
        return repr(v)
    if isinstance(v, int):
        return canon(float(v))
    if isinstance(v, tuple):
        return "(" + ",".join(canon(x) for x in v) + ")"
    return repr(v)


def isnumv(v):
    return isinstance(v, (int, float, Fraction)) and not isinstance(v, bool)


def veq(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        if isinstance(a, bool) and isinstance(b, bool):
            return a is b
        if isnumv(a) or isnumv(b):
            return float(a) == float(b)
        return False
    if isnumv(a) and isnumv(b):
        if isinstance(a, float) or isinstance(b, float):
            a, b = float(a), float(b)
            return abs(a - b) <= 1e-9 * max(1e-12, abs(a), abs(b))
        return a == b
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(veq(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def exchange(items):
    """A sequence, with the effects on different objects put in a fixed
    order."""
    out, run = [], []
    for x in list(items) + [None]:
        if x is not None and x[0] == "e" and isinstance(x[1], tuple) and \
                x[1] and x[1][0] == "effect":
            run.append(x)
            continue
        out += sorted(run, key=lambda y: y[1][1])
        run = []
        if x is not None:
            out.append(x)
    return tuple(out)


NUMBERS = [Fraction(x) for x in (
    0, 1, 2, 3, 5, 10, 35, 90, 120, 660, 2889, 5153, 6371)]


class Interpretation(object):
    def __init__(self, classes, seed, foreign=None):
        self.c, self.seed = classes, seed
        self.foreign = foreign
        self.forced = {}
        self.mode = seed % 4
        self.memo = {}
        r = random.Random(seed * 7919 + 1)
        self.base = [Fraction(r.randint(1, 4000), r.choice(
            (1, 1, 2, 4, 7, 16, 100))) for _ in range(3)]

    near = None

    def forget(self):
        self.memo = {}

    def draw(self, *what):
        """The pseudo-random number for something: in the neighbourhood of
        another interpretation, mostly what it is there."""
        x = h(self.seed, *what)
        if self.near is not None and x // 1024 % 100 < 80:
            return h(self.near, *what)
        return x

    def leaf(self, t, key):
        if key in self.forced:
            v = self.forced[key]
            if isnumv(v) and v < 0 and t.op == "call" and \
                    t.args[0] in COUNTS:
                raise Undef("a negative number of things")
            return v
        s, kinds, pool = self.c.of(t)
        k = self.draw(key)
        r = random.Random(k)
        if "none" in kinds and r.random() < 0.3:
            return None
        if t.op == "lidx" or ("int" in kinds and "str" not in kinds) or \
                tm.isint(t) or (
                    t.op == "call" and t.args[0] in COUNTS):
            lim = 4 if self.mode in (0, 1) else 9
            ints = [int(p) for p in pool
                    if isnumv(p) and p == int(p) and abs(p) < 10000]
            if ints and r.random() < 0.3:
                v = r.choice(sorted(ints)) + r.choice((0, 0, 1, -1))
                return abs(v) if t.op == "call" and t.args[0] in COUNTS \
                    else v
            lo = 0 if t.op in ("lidx", "call") else -1
            v = r.randint(lo, lim)
            return v
        if "str" in kinds:
            strs = sorted(p for p in pool if isinstance(p, str))
            if strs and r.random() < 0.85:
                x = r.choice(strs)
                if "case" in kinds:
                    x = r.choice((x, x, x.upper(), x.lower(), x.title()))
                return x
            if "case" in kinds:
                return "?" + r.choice("aAbB")
            return "?" + str(r.randint(0, 2))
        if "bool" in kinds or ("bool?" in kinds and "num" not in kinds):
            return bool(r.getrandbits(1))
        nums = [p for p in pool if isnumv(p)
                and abs(p) != float("inf")]
        if self.mode in (0, 1):
            cand = list(self.base)
            if nums:
                cand += [Fraction(x) for x in nums]
                cand += [Fraction(x) + Fraction(1, 8) for x in nums]
            if r.random() < 0.85:
                return r.choice(cand)
        if nums and r.random() < 0.3:
            c = Fraction(r.choice(sorted(nums, key=float)))
            return c + r.choice((Fraction(0), Fraction(1, 16),
                                 Fraction(-1, 16), Fraction(1)))
        if r.random() < 0.08:
            return Fraction(0)
        mag = r.choice((1, 1, 10, 100, 1000))
        v = Fraction(r.randint(1, 997), r.choice((1, 3, 8, 64, 997))) * mag
        if r.random() < 0.08:
            v = -v
        return v

    def value(self, t):
        m = self.memo
        if t in m:
            v = m[t]
            if isinstance(v, Exception):
                raise v
            return v
        try:
            v = self._value(t)
        except (Undef, Poison) as e:
            m[t] = e
            raise
        m[t] = v
        return v

    def num(self, t):
        v = self.value(t)
        if isinstance(v, bool):
            return int(v)
        if not isnumv(v):
            raise Undef("not a number")
        if isinstance(v, float) and (v != v):
            raise Undef("nan")
        return v

    def boolean(self, t):
        v = self.value(t)
        if v is True or v is False:
            return v
        raise Undef("not a boolean")

    def _value(self, t):
        o, a = t.op, t.args
        if o == "num":
            return a[0]
        if o == "const":
            return a[0]
        if o == "pi":
            return math.pi
        if o == "effect":
            return ("effect", canon(self.opkey(a[0]))) + tuple(
                self.opkey(x) for x in a[1:])
        if o == "opaque" or o == "unmatched":
            raise Poison(a[0])
        if o == "call" and a[0] in ("startswith", "endswith", "lower",
                                    "upper", "strip") or o == "in":
            v = self.known_text(t)
            if v is not None:
                return v
        if t.op == "call" and t.args[0] == "float" and len(t.args) == 2:
            # a number stays what it is
            v = self.value(t.args[1])
            if isnumv(v) and not isinstance(v, bool):
                return v
        if self.foreign is not None and self.foreign(t):
            raise Poison("no counterpart of " + tm.show(t)[:60])
        if o == "ite":
            return self.value(a[1] if self.boolean(a[0]) else a[2])
        if o == "sum":
            v = a[0].args[0]
            for i in range(1, len(a), 2):
                v = v + self.mulv(a[i].args[0], self.num(a[i + 1]))
            return v
        if o == "prod":
            v = a[0].args[0]
            for i in range(1, len(a), 2):
                x = self.num(a[i + 1])
                p = a[i]
                if p < 0:
                    if x == 0:
                        raise Undef("division by zero")
                    if isinstance(x, int):
                        x = Fraction(x)
                    v = self.mulv(v, self.power(x, p))
                else:
                    v = self.mulv(v, self.power(x, p))
            return v
        if o == "cmp":
            x, y = self.value(a[1]), self.value(a[2])
            if a[0] == "==":
                return veq(x, y)
            if isinstance(x, bool):
                x = int(x)
            if isinstance(y, bool):
                y = int(y)
            if isinstance(x, str) and isinstance(y, str):
                return x < y
            if not (isnumv(x) and isnumv(y)):
                raise Undef("unordered")
            return x < y and not veq(x, y)
        if o == "truth":
            v = self.value(a[0])
            if v is None:
                return False
            if isinstance(v, bool):
                return v
            if isnumv(v):
                return v != 0
            if isinstance(v, str):
                return len(v) > 0
            if isinstance(v, tuple) and v and v[0] == "seq":
                if len(v) == 1:
                    return False
                if any(p[0] == "e" for p in v[1:]):
                    return True
            return bool(self.draw("truth", canon(v)) & 1)
        if o == "call":
            n = a[0]
            if n in NUMCALLS:
                return self.numcall(n, a[1:])
            if n in ("zerodivision", "indexerror", "keyerror"):
                raise Undef(n)
            if n == "str":
                v = self.opkey(a[1])
                if isinstance(v, str) or isinstance(v, tuple) and v and \
                        v[0] == "concat":
                    return v
            if n == "len":
                v = self.value(a[1])
                if isinstance(v, str):
                    return len(v)
                if v is None:
                    # nothing there is as false as an empty list
                    return 0
            if n in ("startswith", "endswith"):
                y = self.value(a[2])
                if n == "startswith" and isinstance(y, str) and len(y) == 1:
                    return self.value(tm.mk("char", a[1], tm.ZERO)) == y
        if o == "concat":
            vs = [self.value(x) for x in a]
            if all(isinstance(v, str) for v in vs):
                return "".join(vs)
            out = []
            for v in vs:
                # however the text was put together
                for p in v[1:] if isinstance(v, tuple) and v and \
                        v[0] == "concat" else (v,):
                    if isinstance(p, str) and out and \
                            isinstance(out[-1], str):
                        out[-1] += p
                    elif p != "":
                        out.append(p)
            return ("concat",) + tuple(out) if len(out) > 1 else out[0]
        if o == "seq":
            return self.seqvalue(a)
        if o in ("tuple", "listc"):
            return (o,) + tuple(self.value(x) for x in a)
        if o == "struct":
            out = ["struct", a[0]]
            for i in range(1, len(a), 2):
                out += [a[i], self.value(a[i + 1])]
            return tuple(out)
        if o == "e":
            return ("e", self.value(a[0]))
        if o == "lst":
            return ("lst", self.value(a[0]))
        if o == "isnan" or o == "isinf" or o == "exc":
            if t in self.forced:
                return self.forced[t]
            return self.draw(o, canon(self.value(a[0]))) % 6 == 0
        if o in ("in", "isinstance", "loopexit"):
            if t in self.forced:
                return self.forced[t]
            return bool(self.draw(o, self.key(t)) & 1)
        if o in ("sym", "phi", "lidx", "loopout"):
            return self.leaf(t, self.key(t))
        if o in ("char", "strslice"):
            v = self.piece(t)
            if v is not None:
                return v
        if o in ("atexit", "atend"):
            # the value of an iteration we do not know which
            self.atoms_defined(a[1])
            return self.leaf(a[1], self.key(t))
        return self.leaf(t, self.key(t)) if o in (
            "attr", "idx", "char", "call", "copy", "after", "slice",
            "strslice") else ("tok", self.key(t))

    def known_text(self, t):
        """A question about strings whose values are known."""
        o, a = t.op, t.args
        if o == "in":
            if not (a[0].op == "const" and isinstance(a[0].args[0], str)):
                return None
            if a[1].op not in LEAFOPS or "str" not in self.c.of(a[1])[1]:
                return None
            v = self.value(a[1])
            return a[0].args[0] in v if isinstance(v, str) else None
        x = self.value(a[1])
        if not isinstance(x, str):
            return None
        if a[0] in ("startswith", "endswith"):
            y = self.value(a[2])
            return getattr(x, a[0])(y) if isinstance(y, str) else None
        return getattr(x, a[0])() if len(a) == 2 else None

    def piece(self, t):
        """A character or a slice of a string whose value is known."""
        if t.args[0].op == "sym" or any(
                x.op in ("phi", "lidx", "loopout", "atexit", "atend")
                for i in t.args[1:] for x in tm.subterms(i)):
            return None
        s = self.value(t.args[0])
        i = [self.value(x) for x in t.args[1:]]
        if not isinstance(s, str) or not all(
                isnumv(x) and x == int(x) for x in i):
            return None
        i = [int(x) for x in i]
        if t.op == "strslice":
            return s[max(i[0], 0):max(i[1], 0)]
        if 0 <= i[0] < len(s):
            return s[i[0]]
        raise Undef("indexerror")

    def atoms_defined(self, t):
        for x in tm.subterms(t):
            if x.op in ("opaque", "unmatched"):
                raise Poison(x.args[0])

    def key(self, t):
        """Operation and operand values of an uninterpreted term."""
        a = t.args
        if t.op == "copy":
            return "copy" + canon(self.opkey(a[1]))
        if t.op in ("attr", "idx", "char") or t.op == "call":
            base = []
            for x in a:
                if isinstance(x, T):
                    v = self.opkey(x)
                    if t.op == "call" and isinstance(v, tuple) and v and \
                            v[0] in ("tuple", "listc") and \
                            a[0] not in TELLING:
                        # nothing but its text tells a list from a tuple
                        v = ("seq",) + tuple(("e", y) for y in v[1:])
                    x = canon(v)
                base.append(str(x))
            return t.op + "(" + ",".join(base) + ")"
        if t.op in ("atexit", "atend"):
            return "%s%s" % (t.op, a[1].id)
        return t.op + "(" + ",".join(
            canon(self.opkey(x)) if isinstance(x, T) else str(x)
            for x in a) + ")"

    def opkey(self, x):
        """Value of an operand; objects are identified by how they are
        reached, not by a number that could coincide with another's."""
        if x.op == "ite" and not tm.isbool(x):
            return self.opkey(x.args[1 if self.boolean(x.args[0]) else 2])
        if x.op in ("sym", "attr", "copy", "after") or (
                x.op in ("idx", "phi", "loopout", "call", "atexit", "atend")
                and not (x.op == "call" and x.args[0] in NUMCALLS)
                and not self.numeric(x)):
            s, kinds, pool = self.c.of(x)
            if not kinds:
                return ("obj", self.key(x))
            if x.op == "sym" and x.args[0] == "self":
                return ("obj", "self")
        return self.value(x)

    def numeric(self, x):
        s, kinds, pool = self.c.of(x)
        return bool(kinds)

    def power(self, x, p):
        try:
            return x ** p
        except (OverflowError, ZeroDivisionError):
            raise Undef("overflow")

    def mulv(self, x, y):
        try:
            return x * y
        except OverflowError:
            raise Undef("overflow")

    def seqvalue(self, pieces):
        if len(pieces) == 1 and pieces[0].op == "lst":
            # all of a list is that list
            return self.value(pieces[0].args[0])
        out = []
        for p in pieces:
            if p.op == "e":
                out.append(("e", self.value(p.args[0])))
            elif p.op == "seg":
                b = self.opkey(p.args[0])
                lo, hi = self.num(p.args[1]), self.num(p.args[2])
                if lo == hi:
                    continue
                if lo > hi:
                    raise Undef("segment")
                if out and out[-1][0] == "seg" and veq(out[-1][1], b) and \
                        out[-1][3] == lo:
                    out[-1] = ("seg", b, out[-1][2], hi)
                else:
                    out.append(("seg", b, lo, hi))
            else:
                v = self.opkey(p.args[0])
                if isinstance(v, tuple) and v and v[0] == "seq":
                    out += v[1:]
                else:
                    out.append(("lst", v))
        return ("seq",) + exchange(out)

    def numcall(self, n, a):
        v = [self.num(x) for x in a]
        try:
            if n == "abs":
                return abs(v[0])
            if n in ("min", "max"):
                return (min if n == "min" else max)(v)
            if n == "ceil":
                return math.ceil(v[0])
            if n == "floor":
                return math.floor(v[0])
            if n == "int":
                return int(v[0])
            if n == "round":
                return round(float(v[0]), *[int(x) for x in v[1:]])
            if n == "mod":
                return v[0] % v[1]
            if n == "floordiv":
                return v[0] // v[1]
            if n == "pow":
                r = float(v[0]) ** float(v[1])
                if isinstance(r, complex):
                    raise Undef("complex")
                return r
            f = [float(x) for x in v]
            if n == "sqrt" and isinstance(v[0], Fraction) and v[0] >= 0:
                p, q = math.isqrt(v[0].numerator), math.isqrt(
                    v[0].denominator)
                if p * p == v[0].numerator and q * q == v[0].denominator:
                    return Fraction(p, q)
            return getattr(math, n)(*f)
        except (ValueError, ZeroDivisionError, OverflowError, TypeError):
            raise Undef(n)


class Verdict(object):
    def __init__(self, status, why="", witness=None, terms=None):
        self.status, self.why = status, why
        self.witness, self.terms = witness, terms

    def __bool__(self):
        return self.status == EQUAL

    __nonzero__ = __bool__


def compare(a, b, seed=1, samples=SAMPLES, need=2, given=TRUE,
            foreign=None):
    """Are the terms a and b equal wherever given holds?"""
    if a is b:
        return Verdict(EQUAL)
    cls = Classes([a, b, given])
    nd, hits, first, poisoned = 0, 0, None, None
    for i in range(2 * samples):
        it = Interpretation(cls, seed * 1000003 + i, foreign)
        if i >= samples:
            # near the places where the two diagrams part
            if nd == 0 and i > samples + 40:
                break
            bias(it, a, b, given)
        elif nd == 0 and i > samples // 2 and poisoned:
            break
        try:
            if given is not TRUE and not it.boolean(given):
                continue
        except Undef:
            continue
        except Poison as e:
            poisoned = str(e)
            continue
        try:
            x = it.value(a)
            y = it.value(b)
        except Undef:
            continue
        except Poison as e:
            poisoned = str(e)
            continue
        except (OverflowError, ZeroDivisionError):
            continue
        nd += 1
        if not veq(x, y):
            hits += 1
            if first is None:
                first = (it, x, y)
            if hits >= need:
                it, x, y = first
                return Verdict(DIFFERENT, "%s instead of %s" % (
                    showv(x), showv(y)), describe(it, a, b), (a, b))
    if nd < 8:
        return Verdict(UNDECIDED, poisoned or "no defined sample")
    if hits:
        return Verdict(UNDECIDED, "single witness")
    if poisoned:
        return Verdict(UNDECIDED, poisoned)
    return Verdict(EQUAL, "random interpretation, %d samples" % nd)


# ---- biased choice of atoms ----------------------------------------------
BOOLATOMS = ("isnan", "isinf", "exc", "in", "isinstance", "loopexit")


def parting(a, b, given, rng):
    """Literals of a random path on which the diagrams a and b part."""
    lits = []
    for _ in range(400):
        if a is b:
            return lits
        vs = [v for v in (tm._top(a), tm._top(b), tm._top(given))
              if v is not None]
        if not vs:
            if a.op == b.op and len(a.args) == len(b.args):
                dif = [(x, y) for x, y in zip(a.args, b.args)
                       if x is not y and isinstance(x, T)
                       and isinstance(y, T)]
                if dif:
                    a, b = rng.choice(dif)
                    continue
            # conditions inside the operands
            a, b = inner(a, rng), inner(b, rng)
            if a is None and b is None:
                return lits
            a, b = a or FALSE, b or FALSE
            if a is b:
                return lits
            continue
        v = min(vs, key=lambda t: t.id)
        opts = []
        for val in (True, False):
            x, y, g = (tm._cof(t, v, val) for t in (a, b, given))
            if g is not FALSE and x is not y:
                opts.append((val, x, y, g))
        if not opts:
            return lits
        val, a, b, given = rng.choice(opts)
        lits.append((v, val))
        if tm._top(v) is None:
            return lits
    return lits


def inner(t, rng):
    cs = [x for x in tm.subterms(t) if x.op == "ite"]
    cs.sort(key=lambda x: x.id)
    return rng.choice(cs) if cs else None


def bias(it, a, b, given, onlynumbers=False):
    rng = random.Random(it.seed * 31 + 7)
    lits = parting(a, b, given, rng)
    for rnd in range(4):
        bad = 0
        for v, val in lits:
            try:
                if it.value(v) is val:
                    continue
            except (Undef, ZeroDivisionError, OverflowError):
                pass
            except Poison:
                return
            bad += 1
            try:
                nudge(it, v, val, rng, onlynumbers)
            except (Undef, Poison, ZeroDivisionError, OverflowError):
                pass
        if not bad:
            break


LEAFOPS = ("sym", "attr", "idx", "lidx", "phi", "loopout", "char", "call",
           "atexit", "atend", "copy")


def leaves(t, it):
    out = []
    for x in tm.subterms(t):
        if x.op in LEAFOPS and not (x.op == "call" and x.args[0] in NUMCALLS):
            out.append(x)
    out.sort(key=lambda x: x.id)
    return out


def nudge(it, v, val, rng, onlynumbers=False):
    if onlynumbers and (v.op != "cmp" or not (
            isnumv(it.value(v.args[1])) and isnumv(it.value(v.args[2])))):
        return
    if v.op in BOOLATOMS:
        it.forced[v] = val
        it.forget()
        return
    if v.op == "truth":
        x = v.args[0]
        if x.op in LEAFOPS:
            it.forced[leafkey(it, x)] = val
            it.forget()
        return
    if v.op != "cmp":
        return
    o, x, y = v.args
    vx = it.value(x) if x.op not in ("opaque",) else None
    vy = it.value(y)
    if not (isnumv(vx) and isnumv(vy)):
        for p, q in ((x, vy), (y, vx)):
            if p.op in LEAFOPS and o == "==":
                k = leafkey(it, p)
                if val:
                    it.forced[k] = q
                else:
                    s, kinds, pool = it.c.of(p)
                    it.forced[k] = rng.choice(sorted(
                        [z for z in pool if isinstance(z, str)]) or ["?9"])
                it.forget()
                return
        return
    cand = [t for t in leaves(x, it) + leaves(y, it)]
    rng.shuffle(cand)
    # a tolerance: inside it, not a unit away
    small = sorted({abs(Fraction(cval(t))) / 2
                    for t in tm.subterms(x) | tm.subterms(y) if is_num(t)
                    and 0 < abs(cval(t)) < 0.05})
    small = tuple(small[:1]) * 4
    for t in cand[:6]:
        try:
            k = leafkey(it, t)
            v0 = it.value(t)
        except (Undef, Poison):
            continue
        if not isnumv(v0):
            continue
        whole = isinstance(v0, int)
        saved = it.forced.get(k, v0)

        def gap(z):
            it.forced[k] = z
            it.forget()
            return it.num(y) - it.num(x)
        try:
            g0 = gap(v0)
            g1 = gap(v0 + 1)
            slope = g1 - g0
            if slope == 0 or (isinstance(slope, float)
                              and abs(slope) < 1e-12):
                it.forced[k] = saved
                it.forget()
                continue
            if o == "==":
                want = 0 if val else rng.choice((1, -1))
            elif val:
                want = rng.choice((Fraction(1, 16), 1, 1, 5) + small)
            else:
                want = rng.choice((0, 0, Fraction(-1, 16), -1))
            z = v0 + (want - g0) / (slope if isinstance(slope, float)
                                    else Fraction(slope))
            if whole:
                z = int(math.floor(z)) if z != int(z) else int(z)
                if t.op == "lidx" and z < 0:
                    z = v0
            elif isinstance(z, float):
                if z != z or abs(z) > 1e12:
                    raise Undef("far")
            it.forced[k] = z
            it.forget()
            if it.value(v) is val:
                return
        except (Undef, ZeroDivisionError, OverflowError, ValueError,
                TypeError):
            pass
        it.forced[k] = saved
        it.forget()


def leafkey(it, t):
    if t.op in ("atexit", "atend"):
        return it.key(t)
    return it.key(t)


def showv(v):
    if isinstance(v, Fraction):
        return "%g" % float(v)
    if isinstance(v, float):
        return "%g" % v
    if isinstance(v, tuple):
        if v and v[0] in ("tok", "obj"):
            return v[1][:60]
        return "<" + " ".join(showv(x) for x in v)[:160] + ">"
    return str(v)


def describe(it, a, b):
    out = {}
    for t, v in it.memo.items():
        if t.op in ("sym", "attr", "idx", "lidx", "phi", "call", "loopout",
                    "char") and not isinstance(v, Exception) and \
                not (t.op == "call" and t.args[0] in NUMCALLS):
            s = tm.show(t)
            if len(s) < 60 and isinstance(v, (int, float, Fraction, str,
                                              bool, type(None))):
                out[s] = showv(v)
    return dict(sorted(out.items())[:14])


# ---- relating loops ------------------------------------------------------
def capped(a, b):
    """Is one number of iterations the other one, but at most a constant?"""
    for x, y in ((a, b), (b, a)):
        m = {}
        for t in tm.subterms(x):
            if t.op == "call" and t.args[0] == "min" and len(t.args) == 3 and \
                    any(is_num(u) for u in t.args[1:]):
                m[t] = [u for u in t.args[1:] if not is_num(u)][0]
        if m and tm.substitute(x, m) is y:
            return True
    return False


class Relation(object):
    """Relates the terms of a code summary to those of a reference."""

    def __init__(self, code, ref, live, seed=1, clive=None):
        self.clive = clive
        self.code, self.ref = code, ref
        self.live = live        # reference loops that matter
        self.cl, self.rl = code.loops, ref.loops
        self.map = {}           # code loop id -> (ref loop id, keymap)
        self.used = set()
        self.failed = {}        # code loop id -> list of attempts
        self.busy = set()
        self.phi = {}           # code phi/lidx term -> ref term
        self.memo = {}
        self.inv = {}           # ref phi -> what it always equals
        self.seed = seed
        self.nloops = 0
        self.oneside = set()
        self.guessed = set()

    def tr(self, t, memo=None):
        """Translate a code term to the reference's loop names."""
        memo = self.memo if memo is None else memo
        if t in memo:
            return memo[t]
        r = self._tr(t, memo)
        memo[t] = r
        return r

    def _tr(self, t, memo):
        o, a = t.op, t.args
        if o in ("phi", "lidx"):
            if t in self.phi:
                return self.phi[t]
            if a[0] in self.rl:
                return t
            return mk("unmatched", "%s of the loop at line %d" % (
                a[1] if o == "phi" else "index",
                self.cl[a[0]].line if a[0] in self.cl else 0))
        if o in ("loopout", "loopexit", "atexit", "atend"):
            if a[0] in self.rl and a[0] not in self.cl:
                return t
            m = self.matched(a[0])
            if m is None:
                return mk("unmatched", "loop at line %d" %
                          self.cl[a[0]].line)
            if o == "loopexit":
                return mk("loopexit", m[0])
            if o == "loopout":
                k = m[1].get(a[1])
                if k is None:
                    return mk("unmatched", "%s after the loop at line %d" % (
                        a[1], self.cl[a[0]].line))
                return mk("loopout", m[0], k)
            return mk(o, m[0], self.tr(a[1]))
        if not any(isinstance(x, T) for x in a):
            return t
        args = [self.tr(x) if isinstance(x, T) else x for x in a]
        if all(x is y for x, y in zip(args, a)):
            return t
        return tm.rebuild(o, args)

    def in_order(self, parent):
        """Match the loops in program order, so that loops that compute the
        same are not crossed over."""
        for lid in sorted(self.cl):
            if self.cl[lid].parent == parent and (
                    self.clive is None or lid in self.clive):
                self.matched(lid)

    def matched(self, lid):
        if lid in self.map:
            return self.map[lid]
        if lid in self.failed or lid in self.busy:
            return None
        L = self.cl[lid]
        self.busy.add(lid)
        attempts = []
        try:
            # loops whose results enter this one do not depend on the
            # hypotheses made for it
            for k, (ci, cp, cn) in L.carried.items():
                self.tr(ci)
            if L.n is not None:
                self.tr(L.n)
            par = None
            if L.parent is not None and L.parent in self.map:
                par = self.map[L.parent][0]
            for rid in sorted(self.live):
                if rid in self.used:
                    continue
                R = self.rl[rid]
                if R.parent != par:
                    continue
                ok, rep, inner = self.try_match(L, R)
                if ok:
                    self.nloops += 1
                    return self.map[lid]
                attempts.append((rid, rep, inner))
        finally:
            self.busy.discard(lid)
        self.failed[lid] = attempts
        return None

    def save(self):
        return (dict(self.map), set(self.used), dict(self.failed),
                dict(self.phi), dict(self.inv))

    def restore(self, s):
        self.map, self.used, self.failed, self.phi, self.inv = (
            dict(s[0]), set(s[1]), dict(s[2]), dict(s[3]), dict(s[4]))
        self.memo = {}

    def eq(self, code_t, ref_t, given=TRUE):
        x = self.tr(code_t)
        if self.inv:
            x = tm.substitute(x, self.inv)
            ref_t = tm.substitute(ref_t, self.inv)
        v = compare(x, ref_t, self.seed, given=given, foreign=self.foreign)
        if v.status == DIFFERENT:
            c = self.leaving(x, ref_t)
            if c is not TRUE:
                v = compare(x, ref_t, self.seed, given=tm.and_(given, c),
                            foreign=self.foreign)
        if v.status == DIFFERENT:
            # a loop without an iteration leaves what there was before it
            m = self.untouched(x, ref_t)
            if m:
                w = compare(tm.substitute(x, m), tm.substitute(ref_t, m),
                            self.seed, given=given, foreign=self.foreign)
                if w.status != DIFFERENT:
                    v = w
        if v.status == DIFFERENT:
            # the value a counter has after its loop supposes that the loop
            # is not beyond its end before it starts
            c = self.counted()
            if c is not TRUE and compare(
                    x, ref_t, self.seed, given=tm.and_(given, c),
                    foreign=self.foreign).status != DIFFERENT:
                v = Verdict(UNDECIDED, "loop that does not start")
        return v

    def untouched(self, *ts):
        """What a value is after a loop, said with its value before it."""
        out = {}
        for t in set().union(*[tm.subterms(t) for t in ts]):
            if t.op != "loopout" or t.args[0] not in self.used:
                continue
            R = self.rl[t.args[0]]
            if R.n is None or is_num(R.n) or R.parent is not None:
                continue
            for k, (init, phi, nxt) in R.carried.items():
                if kn(k) == t.args[1] and init is not None:
                    out[t] = tm.ite(tm.cmp_("<", tm.ZERO, R.n), t, init)
        return out

    def dropped(self, code_t, ref_t, given):
        """A loop of the reference without a counterpart, where the code has
        what there was before the loop: (loop, key)"""
        x = self.tr(code_t)
        if any(t.op == "unmatched" for t in tm.subterms(x)) or \
                not self.nothing_left():
            return None
        gone, y = {}, ref_t
        for _ in range(8):
            m = {}
            for t in tm.subterms(y):
                if t.op == "loopout" and t.args[0] not in self.used and \
                        t.args[0] in self.rl:
                    R = self.rl[t.args[0]]
                    for k, (init, phi, nxt) in R.carried.items():
                        if kn(k) == t.args[1] and R.parent is None and \
                                nxt is not phi:
                            if init.op == "seq":
                                # a list, where its name stands for it
                                ps = init.args
                                if len(ps) != 1 or ps[0].op != "lst":
                                    return None
                                init = ps[0].args[0]
                            m[t] = init
                            gone[R.id] = R, k, y
            if not m:
                break
            y = tm.substitute(y, m)
        if not gone or len(set(gone)) != 1:
            return None
        if self.inv:
            x = tm.substitute(x, self.inv)
            y = tm.substitute(y, self.inv)
        if x is not y and compare(
                x, y, self.seed, given=given,
                foreign=self.foreign).status != EQUAL:
            return None
        R, k, y = list(gone.values())[0]
        if R.entry is FALSE or R.n is tm.ZERO:
            return None
        return R, k

    def counted(self):
        """No loop with a counter that is used after it has a negative number
        of iterations."""
        out = TRUE
        for i in sorted(self.used):
            R = self.rl[i]
            if R.n is None or not getattr(R, "final", None) or is_num(R.n):
                continue
            c = tm.not_(tm.cmp_("<", R.n, tm.ZERO))
            out = tm.and_(out, c)
            p = R.parent
            if p is not None and p in self.rl:
                for op in ("atexit", "atend"):
                    out = tm.and_(out, self.ref.interp.bool_after(
                        op, self.rl[p], c))
        return out

    def leaving(self, *ts):
        """What holds in the iteration that leaves a loop early: one of the
        conditions for leaving."""
        plain, wrapped = set(), set()
        seen, todo = set(), list(ts)
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op in ("loopexit", "atexit") and x.args[0] in self.rl:
                plain.add(x.args[0])
            if x.op in ("atexit", "atend"):
                # an inner loop, seen from behind the outer one
                y = x.args[1]
                if x.args[0] in self.rl and y.op in ("atexit", "loopexit") \
                        and y.args[0] in self.rl:
                    wrapped.add((x.op, x.args[0], y.args[0]))
                continue
            todo += [y for y in x.args if isinstance(y, T)]
        out = TRUE
        for i in sorted(plain):
            out = tm.and_(out, self.left(i))
        for op, outer, i in sorted(wrapped):
            c = self.left(i)
            if c is not TRUE:
                out = tm.and_(out, self.ref.interp.bool_after(
                    op, self.rl[outer], c))
        return out

    def left(self, i):
        """If this loop was left early, then for one of its reasons."""
        R = self.rl[i]
        leave = getattr(R, "leave", FALSE)
        entry = R.entry
        L = next((self.cl[a] for a, b in self.map.items() if b == i), None)
        if L is not None and L.entry is not TRUE and entry is not TRUE:
            e = self.tr(L.entry)
            entry = tm.or_(entry, e) if not any(
                x.op == "unmatched" for x in tm.subterms(e)) else TRUE
        else:
            entry = TRUE
        entry = tm.or_(tm.not_(tm.truth(mk("loopexit", i))), entry)
        if R.n is None and R.cond is TRUE:
            entry = tm.and_(entry, tm.truth(mk("loopexit", i)))
        if leave is TRUE or leave is FALSE:
            return entry
        why = self.ref.interp.bool_after("atexit", R, leave)
        if R.n is not None:
            j = mk("atexit", i, R.idx)
            tm.INTS.add(j)
            why = tm.and_(why, tm.cmp_("<", j, R.n),
                          tm.not_(tm.cmp_("<", j, tm.ZERO)))
        return tm.and_(entry, tm.or_(
            tm.not_(tm.truth(mk("loopexit", i))), why))

    def foreign(self, t):
        """Terms without a meaning on the other side."""
        if t.op in ("loopexit", "atexit") and t.args[0] in self.rl and \
                self.nothing_left():
            # the code has no loop left that could do what this one does
            return False
        if t.op in ("loopout", "loopexit", "atexit", "atend"):
            return t.args[0] not in self.used
        if t.op in ("phi", "lidx"):
            return t.args[0] not in self.used
        if t.op == "call" and t.args[0] not in NUMCALLS:
            if t.args[0] == "len" and self.told is not None and \
                    t.args[1].op == "attr" and t.args[1] not in self.told:
                # the reference does not look at this list at all
                return False
            return t.args[0] in self.oneside
        return False

    told = None

    def nothing_left(self):
        return all(i in self.map for i in self.cl
                   if self.clive is None or i in self.clive)

    def try_match(self, L, R):
        """Are the two loops the same?  -> (bool, report)"""
        keep = self.save()
        rep = []
        if (L.n is None) != (R.n is None):
            return False, [("iterations", Verdict(UNDECIDED), None)], {}
        if L.n is not None:
            v = self.eq(L.n, R.n)
            if v.status == DIFFERENT and not capped(self.tr(L.n), R.n) and any(
                    x.op == "call" and x.args[0] in ("min", "max", "ceil")
                    for x in tm.subterms(L.n) | tm.subterms(R.n)):
                v = Verdict(UNDECIDED, "iteration space")
            rep.append(("iterations", v, (R.id, L.n, R.n)))
        pairs = self.pair(L, R)
        self.phi[L.idx] = R.idx
        keymap = {}
        for ck, rk in pairs.items():
            self.phi[L.carried[ck][1]] = R.carried[rk][1]
            keymap[kn(ck)] = kn(rk)
        self.memo = {}
        self.map[L.id] = (R.id, keymap)
        self.used.add(R.id)
        for phi, rel in L.invariants.items():
            x = self.phi.get(phi)
            if x is not None and x.op == "phi":
                rel = self.tr(rel)
                if not any(y.op == "unmatched" for y in tm.subterms(rel)):
                    self.inv[x] = rel
        self.inv.update(R.invariants)
        self.in_order(L.id)
        for ck, rk in pairs.items():
            ci, cp, cn = L.carried[ck]
            ri, rp, rn = R.carried[rk]
            rep.append(("initial value of " + kn(ck),
                        self.eq(ci, ri, R.entry),
                        (R.id, ci, ri)))
            v = self.eq(cn, rn, tm.and_(R.alive, R.entry))
            if ck in self.guessed and v.status == DIFFERENT:
                v = Verdict(UNDECIDED, "no unique counterpart")
            rep.append(("next value of " + kn(ck), v, (R.id, cn, rn)))
        rep.append(("condition for staying in", self.eq(L.cond, R.cond, R.entry),
                    (R.id, L.cond, R.cond)))
        rep.append(("condition for leaving", self.eq(L.leave, R.leave, R.entry),
                    (R.id, L.leave, R.leave)))
        missing = [rk for rk in R.carried if rk not in pairs.values()
                   and R.carried[rk][2] is not R.carried[rk][1]]
        for rk in missing:
            rep.append((("effect on" if rk[0] != "l" else "local") + " " +
                        kn(rk), Verdict(UNDECIDED, "no counterpart"), None))
        if all(v.status == EQUAL for w, v, _ in rep if not w.startswith(
                "local ")):
            return True, rep, {}
        inner = {k: v for k, v in self.failed.items() if k not in keep[2]}
        self.restore(keep)
        return False, rep, inner

    def blame(self, failed=None, depth=0):
        """Loops that do correspond to a loop of the reference but for one
        or two components, which definitely differ: [(loop, what, verdict, (loop of the
        reference, code term, reference term))].
        Empty when the difference is not pinned down."""
        failed = self.failed if failed is None else failed
        out = []
        for lid in sorted(failed):
            best = None
            for rid, rep, inner in failed[lid]:
                good = sum(v.status == EQUAL for w, v, _ in rep)
                bad = [(w, v, s) for w, v, s in rep if v.status == DIFFERENT]
                und = [(w, v) for w, v, _ in rep if v.status == UNDECIDED
                       and not w.startswith("local ")]
                blamed = []
                if und and inner and depth < 3:
                    blamed = self.blame(inner, depth + 1)
                key = (good, -len(bad))
                if best is None or key > best[0]:
                    best = (key, bad, und, blamed)
            if best is None:
                continue
            (good, _), bad, und, blamed = best
            named = {"next value of " + kn(k)
                     for k in self.cl[lid].carried
                     if k[0] != "l" and k[1].op != "ref"}
            if blamed and len(bad) <= 1:
                out += blamed
                continue
            if und or not bad:
                continue
            if len(bad) > 2:
                idle = self.idle(lid)
                bad = [x for x in bad if x[0] not in idle] or bad
            if len(bad) > 2 and not all(w.startswith(
                    "next value of ") and w in named for w, v, _ in bad):
                # more than one thing differs: only if these are locations
                # outside the function, which cannot be mistaken
                continue
            if good < 3 and not self.only(lid):
                continue
            out += [(self.cl[lid], w, v, s) for w, v, s in bad]
        return out

    def idle(self, lid):
        """Next values of locals that nothing else in the loop uses."""
        L, out = self.cl[lid], set()
        for k, c in L.carried.items():
            if k[0] != "l":
                continue
            used = set()
            for q, x in L.carried.items():
                if q != k:
                    tm.subterms(x[2], used)
            for t in (L.cond, L.leave):
                tm.subterms(t, used)
            if c[1] not in used:
                out.add("next value of " + kn(k))
        return out

    def only(self, lid):
        """Is this the only unmatched loop at its level, with a single
        unmatched loop of the reference to compare with, over the same
        iterations?"""
        L = self.cl[lid]
        if len(self.failed_by_level(L.parent)) != 1:
            return False
        par = self.map[L.parent][0] if L.parent in self.map else None
        rs = [r for r in self.live if r not in self.used
              and self.rl[r].parent == par]
        if len(rs) != 1:
            return False
        R = self.rl[rs[0]]
        if L.n is None or R.n is None:
            return L.n is None and R.n is None
        return True

    def failed_by_level(self, parent):
        return [i for i in self.cl if self.cl[i].parent == parent
                and (self.clive is None or i in self.clive)
                and i not in self.map]

    def steps_alike(self, c, r):
        """Does one iteration make the same of two carried locations?"""
        keep = self.save()
        self.phi[c[1]] = r[1]
        self.memo = {}
        try:
            return self.eq(c[2], r[2]).status == EQUAL
        finally:
            self.restore(keep)

    def pair(self, L, R):
        """Pair the carried locations of two loops."""
        out, used = {}, set()
        for ck in L.carried:
            if ck[0] == "l":
                continue
            for rk in R.carried:
                if rk in used or rk[0] != ck[0]:
                    continue
                if self.tr(ck[1]) is rk[1] and ck[2:] == rk[2:]:
                    out[ck] = rk
                    used.add(rk)
        loc = [k for k in L.carried if k[0] == "l" or k not in out]
        cand = {}
        for ck in loc:
            cand[ck] = []
            for rk in R.carried:
                if rk in used or (rk[0] != ck[0]):
                    continue
                if ck[0] != "l" and ck[1].op != "ref":
                    continue
                if rk[0] != "l" and rk[1].op != "ref":
                    continue
                if ck[0] == "f" and ck[2:] != rk[2:]:
                    continue
                if self.eq(L.carried[ck][0], R.carried[rk][0]):
                    cand[ck].append(rk)
        # unique candidates by initial value, then by what one iteration
        # makes of them, then by name
        free = [r for r in R.carried if r not in used]
        cc = Colours(self.cl, L, [k for k in loc if k not in out])
        rc = Colours(self.rl, R, free)
        byname = lambda ck, cs: [r for r in cs if r[0] == "l"
                                 and kn(r) == kn(ck)]
        for rnd in range(4):
            for ck in loc:
                if ck in out:
                    continue
                cs = [r for r in cand[ck] if r not in used]
                if not cs:
                    continue
                pick = None
                if rnd == 0:
                    same = byname(ck, cs)
                    if same:
                        pick = same[0]
                elif rnd == 1:
                    sh = [r for r in cs if cc.of(ck) == rc.of(r)]
                    if sh:
                        pick = sh[0]
                elif rnd == 2:
                    if len(cs) == 1:
                        pick = cs[0]
                        rivals = [k for k in loc if k not in out and
                                  pick in cand[k]]
                        if len(rivals) > 1 and not self.steps_alike(
                                L.carried[ck], R.carried[pick]):
                            pick = None
                else:
                    pick = cs[0]
                    if sum(1 for k in loc if k not in out and
                           pick in cand[k]) > 1 or len(cs) > 1:
                        self.guessed.add(ck)
                if pick is not None:
                    out[ck] = pick
                    used.add(pick)
        for ck in loc:
            if ck in out:
                continue
            for rk in R.carried:
                if rk not in used and kn(rk) == kn(ck) and rk[0] == ck[0]:
                    out[ck] = rk
                    used.add(rk)
            if ck not in out and ck[0] == "f":
                # o.x = o.x + y  for  o.x += y
                rk = ("c", mk("attr", self.tr(ck[1]), ck[2]))
                if rk in R.carried and rk not in used:
                    out[ck] = rk
                    used.add(rk)
        return out


class Colours(object):
    """What an iteration makes of the carried locations, up to the names of
    the locations: refined until stable."""

    def __init__(self, loops, L, keys):
        self.loops, self.L = loops, L
        self.col = {}
        self.phis = {L.carried[k][1]: k for k in keys}
        for k in keys:
            self.col[k] = 0
        self.memo = {}
        for k in keys:
            self.col[k] = self.h(L.carried[k][0])
        for _ in range(3):
            self.memo = {}
            new = {k: hash((self.col[k], self.h(L.carried[k][2])))
                   for k in keys}
            self.col = new

    def of(self, k):
        return self.col.get(k)

    def h(self, t):
        if t not in self.memo:
            self.memo[t] = 0
            self.memo[t] = self._h(t)
        return self.memo[t]

    def _h(self, t):
        o, a = t.op, t.args
        if o == "phi":
            if t in self.phis:
                return hash(("phi", self.col[self.phis[t]]))
            if a[0] in self.loops:
                for k, c in self.loops[a[0]].carried.items():
                    if c[1] is t:
                        return hash(("phi", self.h(c[0])))
            return hash(("phi", a[0] == self.L.id))
        if o == "lidx":
            return hash(o)
        if o == "loopout":
            for k, c in (self.loops[a[0]].carried.items()
                         if a[0] in self.loops else ()):
                if kn(k) == a[1]:
                    return hash((o, self.h(c[0]), self.h(c[2])))
            return hash(o)
        if o == "loopexit":
            if a[0] in self.loops:
                return hash((o, self.h(self.loops[a[0]].leave)))
            return hash(o)
        if o in ("atexit", "atend"):
            return hash((o, self.h(a[1])))
        if o == "ref":
            return hash(o)
        if o == "ite":
            fs, todo, seen = set(), [t], set()
            while todo:
                x = todo.pop()
                if x in seen:
                    continue
                seen.add(x)
                if x.op == "ite":
                    todo += x.args
                else:
                    fs.add(self.h(x))
            return hash((o, frozenset(fs)))
        hs = [self.h(x) if isinstance(x, T) else hash(str(x)) for x in a]
        if o in ("sum", "prod", "cmp"):
            hs = sorted(hs)
        return hash((o,) + tuple(hs))


def kn(k):
    if k[0] == "l":
        return k[1]
    if k[0] == "f":
        return "%s.%s" % (tm.show(k[1]), k[2])
    return "content(%s)" % tm.show(k[1])
