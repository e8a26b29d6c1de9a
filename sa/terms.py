"""Hash-consed value-number terms.

A term is the abstract value the analysis computes for an expression.  Terms
are built through the smart constructors below, which put them in a light
normal form (linear sums, monomials, folded constants, flattened booleans), so
that most equal expressions get the same value number syntactically.  The
remaining equalities are decided in equiv.py.
"""
import math
import re
from fractions import Fraction

_FMT = re.compile(r"%[-0-9.]*[a-zA-Z]")
_table = {}
_next = [0]


class T(object):
    __slots__ = ("op", "args", "id", "poison", "_k")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, other):
        return self is other

    def __lt__(self, other):
        return self.id < other.id


def mk(op, *args):
    key = (op,) + tuple(a.id if isinstance(a, T) else (type(a).__name__, a)
                        for a in args)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.id = _next[0]
        _next[0] += 1
        t.poison = op == "opaque" or any(
            isinstance(a, T) and a.poison for a in args)
        t._k = None
        _table[key] = t
    return t


def fresh_id():
    _next[0] += 1
    return _next[0]


def const(v):
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return mk("const", v)
    if isinstance(v, (int, float)):
        if isinstance(v, float) and v == v and abs(v) != float("inf"):
            v = Fraction(repr(v))
            if v.denominator == 1:
                v = int(v)
        return mk("num", v)
    if isinstance(v, Fraction):
        if v.denominator == 1:
            return mk("num", int(v))
        return mk("num", v)
    if isinstance(v, bytes):
        return mk("const", v.decode("latin1"))
    if v is Ellipsis:
        return mk("const", "...")
    return opaque("const %r" % (v,))


def opaque(why, *deps):
    return mk("opaque", why, fresh_id())


TRUE = const(True)
FALSE = const(False)
NONE = const(None)
ZERO = const(0)
ONE = const(1)
PI = mk("pi")


def sym(name):
    return mk("sym", name)


def is_const(t):
    return t.op in ("const", "num")


def cval(t):
    return t.args[0]


def is_num(t):
    return t.op == "num"


def _exact(v):
    """Numbers as Fractions where that is lossless enough for folding."""
    if isinstance(v, Fraction) or isinstance(v, int):
        return Fraction(v)
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return None
        return Fraction(repr(v))
    return None


def _num(fr):
    if fr.denominator == 1:
        return mk("num", int(fr))
    return mk("num", fr)


# ---- arithmetic ----------------------------------------------------------
def _linear(t):
    """t as ({atom: coefficient}, constant)."""
    if t.op == "num":
        e = _exact(cval(t))
        if e is not None:
            return {}, e
        return {t: Fraction(1)}, Fraction(0)
    if t.op == "sum":
        c = _exact(cval(t.args[0]))
        d = {}
        for i in range(1, len(t.args), 2):
            d[t.args[i + 1]] = _exact(cval(t.args[i]))
        return d, c
    if t.op == "prod":
        c = _exact(cval(t.args[0]))
        if c is not None and c != 1:
            rest = _mkprod(Fraction(1), {
                t.args[i + 1]: t.args[i] for i in range(1, len(t.args), 2)})
            return {rest: c}, Fraction(0)
    return {t: Fraction(1)}, Fraction(0)


def _mksum(d, c):
    items = [(a, k) for a, k in d.items() if k != 0]
    if not items:
        return _num(c)
    if len(items) == 1 and c == 0:
        a, k = items[0]
        if k == 1:
            return a
        return _scale(a, k)
    items.sort(key=lambda x: x[0].id)
    args = [_num(c)]
    for a, k in items:
        args += [_num(k), a]
    return mk("sum", *args)


def _scale(a, k):
    if k == 0:
        return ZERO
    if a.op == "num":
        e = _exact(cval(a))
        if e is not None:
            return _num(e * k)
    m, c = _mono(a)
    return _mkprod(c * k, m)


def _mono(t):
    """t as ({base: integer power}, coefficient)."""
    if t.op == "num":
        e = _exact(cval(t))
        if e is not None:
            return {}, e
    if t.op == "prod":
        c = _exact(cval(t.args[0]))
        return {t.args[i + 1]: t.args[i]
                for i in range(1, len(t.args), 2)}, c
    return {t: 1}, Fraction(1)


def _mkprod(c, m):
    if c == 0:
        return ZERO
    items = [(b, p) for b, p in m.items() if p != 0]
    if not items:
        return _num(c)
    if len(items) == 1 and c == 1 and items[0][1] == 1:
        return items[0][0]
    # distribute a pure number over a sum so that -(a-b) == b-a
    if len(items) == 1 and items[0][1] == 1 and items[0][0].op == "sum":
        d, k = _linear(items[0][0])
        return _mksum({a: v * c for a, v in d.items()}, k * c)
    items.sort(key=lambda x: x[0].id)
    args = [_num(c)]
    for b, p in items:
        args += [p, b]
    return mk("prod", *args)


def add(*ts):
    d, c = {}, Fraction(0)
    for t in ts:
        td, tc = _linear(t)
        c += tc
        for a, k in td.items():
            d[a] = d.get(a, 0) + k
    return _mksum(d, c)


def neg(t):
    return _scale(t, Fraction(-1)) if t.op != "sum" else _mksum(
        *[({a: -k for a, k in _linear(t)[0].items()}), -_linear(t)[1]])


def sub(a, b):
    return add(a, neg(b))


def mul(*ts):
    m, c = {}, Fraction(1)
    for t in ts:
        tm, tc = _mono(t)
        c *= tc
        for b, p in tm.items():
            m[b] = m.get(b, 0) + p
    return _mkprod(c, m)


def div(a, b):
    bm, bc = _mono(b)
    if bc == 0:
        return mk("call", "zerodivision", a)
    am, ac = _mono(a)
    m = dict(am)
    for x, p in bm.items():
        m[x] = m.get(x, 0) - p
    return _mkprod(ac / bc, m)


def power(a, b):
    if is_num(b) and isinstance(cval(b), int) and -4 <= cval(b) <= 4:
        n = cval(b)
        if n == 0:
            return ONE
        m, c = _mono(a)
        if c == 0:
            return ZERO if n > 0 else mk("call", "zerodivision", a)
        return _mkprod(c ** n, {x: p * n for x, p in m.items()})
    if is_num(b) and _exact(cval(b)) == Fraction(1, 2):
        return fcall("sqrt", a)
    return mk("call", "pow", a, b)


def fcall(name, *args):
    if all(is_num(a) for a in args):
        try:
            vals = [float(cval(a)) if name != "abs" else cval(a)
                    for a in args]
            if name == "abs":
                return const(abs(vals[0]))
            if name in ("min", "max"):
                return const((min if name == "min" else max)(
                    cval(a) for a in args))
            if name == "ceil":
                return const(math.ceil(vals[0]))
            if name == "floor":
                return const(math.floor(vals[0]))
        except Exception:
            pass
    if name in ("min", "max"):
        flat = []
        for a in args:
            if a.op == "call" and a.args[0] == name:
                flat += a.args[1:]
            else:
                flat.append(a)
        args = sorted(set(flat), key=lambda t: t.id)
        if len(args) == 1:
            return args[0]
    if name == "abs" and args[0].op == "sum":
        # |a-b| == |b-a|
        n = neg(args[0])
        if n.id < args[0].id:
            args = (n,)
    return mk("call", name, *args)


def binop(op, a, b):
    if op == "+":
        if a.op == "const" and b.op == "const" and isinstance(
                cval(a), str) and isinstance(cval(b), str):
            return const(cval(a) + cval(b))
        if isstr(a) or isstr(b):
            return concat(a, b)
        return add(a, b)
    if op == "-":
        return sub(a, b)
    if op == "*":
        if a.op == "const" and isinstance(cval(a), str):
            if is_num(b):
                return const(cval(a) * int(cval(b)))
            return mk("call", "strrep", a, b)
        if b.op == "const" and isinstance(cval(b), str):
            return binop("*", b, a)
        return mul(a, b)
    if op == "/":
        return div(a, b)
    if op == "**":
        return power(a, b)
    if op == "%":
        if is_num(a) and is_num(b) and cval(b):
            return const(cval(a) % cval(b))
        if isstr(a):
            return strformat(a, b)
        return mk("call", "mod", a, b)
    if op == "//":
        if is_num(a) and is_num(b) and cval(b):
            return const(cval(a) // cval(b))
        return mk("call", "floordiv", a, b)
    return mk("call", "binop" + op, a, b)


_SPEC = re.compile(r"(?s)(?:(.)?([<>^=]))?([-+ ]?)(#?)(0?)(\d*)([,_]?)"
                   r"(\.\d+)?([a-zA-Z%]?)$")
NUMTYPES = "dfFeEgGnxXob%"


def fmt(x, spec):
    """The text of x under a format specification."""
    if spec.op == "const":
        s = cval(spec)
        if x.op == "const" and isinstance(cval(x), str):
            try:
                return const(format(cval(x), s))
            except ValueError:
                pass
        m = _SPEC.match(s)
        if m:
            fill, align, sign, alt, zero, width, sep, prec, kind = m.groups()
            if kind in NUMTYPES and kind and align == ">" and \
                    fill in (None, " ") and not zero:
                align = fill = None
            if not kind and isstr(x) and not align and width:
                align = "<"
            if kind == "s" or (align and not kind and not prec and not zero
                               and not sign and not alt and not sep):
                # padding a number is padding its text
                if x.op == "call" and x.args[0] == "str":
                    x = x.args[1]
            if kind == "s":
                kind = ""
                if width and not align:
                    align = "<"
            if not width and align in ("<", ">", "^"):
                align = fill = None
            if fill == " ":
                fill = None
            if sign == "-":
                sign = ""
            s = "".join(y or "" for y in (fill, align, sign, alt, zero, width,
                                          sep, prec, kind))
        if s == "":
            return text(x)
        spec = const(s)
    elif spec.op == "concat" and spec.args[-1].op == "const" and \
            cval(spec.args[-1]) == "s":
        first = spec.args[0]
        if x.op == "call" and x.args[0] == "str":
            x = x.args[1]
        if first.op == "const":
            spec = concat(*spec.args[:-1])
        else:
            spec = concat(const("<"), *spec.args[:-1])
    return mk("call", "fmt", x, spec)


def text(x):
    """str(x)"""
    if isstr(x):
        return x
    if is_num(x) and isinstance(cval(x), int):
        return const(str(cval(x)))
    return mk("call", "str", x)


def strformat(a, b):
    """'...%s...' % b as a concatenation."""
    if a.op == "const":
        args = list(b.args) if b.op == "tuple" else [b]
        parts = _FMT.split(cval(a))
        specs = _FMT.findall(cval(a))
        if len(specs) == len(args) and "%" not in "".join(parts):
            out = []
            for i, p in enumerate(parts):
                out.append(const(p))
                if i < len(args):
                    x, sp = args[i], specs[i][1:]
                    if sp in ("s", "d", "i"):
                        x = text(x)
                    elif sp == "r":
                        x = mk("call", "repr", x)
                    elif sp.endswith("s"):
                        w = sp[:-1]
                        x = fmt(text(x), const(
                            ("<" + w[1:] if w.startswith("-") else ">" + w)
                            + "s"))
                    elif sp.startswith("-"):
                        x = fmt(x, const("<" + sp[1:].replace("i", "d")))
                    else:
                        x = fmt(x, const(sp.replace("i", "d")))
                    out.append(x)
            return concat(*out)
    return mk("call", "strformat", a, b)


def isstr(t):
    return (t.op == "const" and isinstance(cval(t), str)) or \
        t.op in ("concat", "strslice", "char") or (
            t.op == "call" and t.args[0] in TEXTS) or (
            t.op == "attr" and t.args[1] in STRATTRS)


STRATTRS = ("name", "puristName", "modelName")
TEXTS = ("str", "repr", "fmt", "strrep", "join", "lower", "upper", "strip",
         "rstrip", "lstrip")


def concat(*ts):
    """String concatenation with merging of adjacent slices."""
    out = []
    for t in ts:
        for p in (t.args if t.op == "concat" else (t,)):
            if p.op == "const" and cval(p) == "":
                continue
            if out and out[-1].op == "const" and p.op == "const":
                out[-1] = const(cval(out[-1]) + cval(p))
            elif out and _sl(out[-1]) and _sl(p) \
                    and _sl(out[-1])[0] is _sl(p)[0] \
                    and _sl(out[-1])[2] is _sl(p)[1]:
                out[-1] = mk("strslice", _sl(p)[0], _sl(out[-1])[1],
                             _sl(p)[2])
            else:
                out.append(p)
    if not out:
        return const("")
    if len(out) == 1:
        return out[0]
    return mk("concat", *out)


def _sl(t):
    if t.op == "strslice":
        return t.args
    if t.op == "char":
        return (t.args[0], t.args[1], add(t.args[1], ONE))
    return None


# ---- booleans and gates ---------------------------------------------------
# Booleans and gated values are kept as reduced ordered decision diagrams over
# atomic conditions (ordered by creation): an inner node is ("ite", atom, hi,
# lo), an atom by itself stands for ite(atom, TRUE, FALSE).  Two gated values
# that branch on the same atomic conditions therefore get the same value
# number however the branches were nested, flipped or returned early.
_CMP = {"<": lambda a, b: a < b, "<=": lambda a, b: a <= b,
        "==": lambda a, b: a == b}
ATOMS = frozenset(["cmp", "in", "isnan", "isinf", "exc", "loopexit",
                   "isinstance", "truth"])
INTS = set()
INTNAMES = frozenset("""currBranch mohoBranch cmbBranch iocbBranch sourceBranch
startBranch endBranch disconBranch branchNum maxRayParamIndex minRayParamIndex
velLayerNum pLayerNum sLayerNum layerNum layerNumber""".split())
INTCALLS = frozenset("""closestBranchToDepth findBranch layerNumberAbove
layerNumberBelow layerNumForDepth getNumLayers getNumBranches""".split())


def isint(t):
    if t.op == "num":
        return isinstance(cval(t), int)
    if t.op == "lidx" or t in INTS:
        return True
    if t.op in ("attr", "phi", "loopout", "sym"):
        # the numbers of branches and layers
        n = t.args[0] if t.op == "sym" else t.args[1]
        return isinstance(n, str) and n.rsplit(".", 1)[-1] in INTNAMES
    if t.op == "call":
        return t.args[0] in ("len", "ceil", "floor", "index", "count",
                             "int") or isinstance(t.args[0], str) and \
            t.args[0].rsplit(".", 1)[-1] in INTCALLS
    if t.op == "sum":
        return all(isint(a) if isinstance(a, T) else True for a in t.args)
    if t.op == "prod":
        return isint(t.args[0]) and all(
            isint(a) if isinstance(a, T) else a > 0 for a in t.args[1:])
    return False


def _nonnum(t):
    return t.op in ("const", "ref", "seq", "struct", "tuple", "concat",
                    "strslice", "char", "new", "class", "set", "dictval",
                    "store", "bound", "func", "exccls") or isbool(t)


def _sides(lin, c):
    left = {a: -k for a, k in lin.items() if k < 0}
    right = {a: k for a, k in lin.items() if k > 0}
    if not right or (left and c < 0):
        if not right:
            return _mksum(left, Fraction(0)), _num(c)
        return _mksum(left, -c), _mksum(right, Fraction(0))
    if not left:
        return _num(-c), _mksum(right, Fraction(0))
    return _mksum(left, Fraction(0)), _mksum(right, c)


def ncount(t, limit=64):
    """Number of decision nodes of a gated term (up to a limit)."""
    seen, todo = set(), [t]
    while todo and len(seen) < limit:
        x = todo.pop()
        if x.op == "ite" and x not in seen:
            seen.add(x)
            todo += [x.args[1], x.args[2]]
    return len(seen)


def cmp_(op, a, b):
    if op == ">":
        return cmp_("<", b, a)
    if op == ">=":
        return not_(cmp_("<", a, b))
    if op == "<=":
        return not_(cmp_("<", b, a))
    if op == "is":
        op = "=="
    if op in ("isnot", "!="):
        return not_(cmp_("==", a, b))
    if a.op == "ite" and not isbool(a) and ncount(a) * max(
            1, ncount(b)) <= 64:
        return ite(a.args[0], cmp_(op, a.args[1], b),
                   cmp_(op, a.args[2], b))
    if b.op == "ite" and not isbool(b) and ncount(b) <= 64:
        return ite(b.args[0], cmp_(op, a, b.args[1]),
                   cmp_(op, a, b.args[2]))
    if is_const(a) and is_const(b):
        try:
            x, y = cval(a), cval(b)
            if op == "==" and (x is None or y is None):
                return const(x is y)
            return const(_CMP[op](x, y))
        except TypeError:
            return FALSE if op == "==" else opaque("cmp")
    if op == "==":
        if a is b:
            return TRUE
        for x, y in ((a, b), (b, a)):
            if isbool(x) and (y is TRUE or (is_num(y) and cval(y) == 1)):
                return x
            if isbool(x) and (y is FALSE or (is_num(y) and cval(y) == 0)):
                return not_(x)
            if x.op == "ref" and is_const(y):
                return FALSE
            if y is NONE and (isbool(x) or x.op in (
                    "num", "sum", "prod", "seq", "struct", "tuple")):
                return FALSE
        if isbool(a) and isbool(b):
            return ite(a, b, not_(b))
        if _nonnum(a) or _nonnum(b):
            if b.id < a.id:
                a, b = b, a
            return mk("cmp", "==", a, b)
    elif a is b:
        return FALSE
    elif _nonnum(a) or _nonnum(b):
        return mk("cmp", "<", a, b)
    lin, c = _linear(sub(b, a))
    if not lin:
        return const(c > 0 if op == "<" else c == 0)
    lead = min(lin, key=lambda t: t.id)
    k = abs(lin[lead]) if op == "<" else lin[lead]
    lin = {x: v / k for x, v in lin.items()}
    c = c / k
    if op == "==":
        left, right = _sides(lin, c)
        return mk("cmp", "==", left, right)
    flip = False
    if all(isint(x) for x in lin) and all(
            v.denominator == 1 for v in lin.values()) and \
            c.denominator == 1 and lin[lead] < 0:
        # d > 0  <=>  not (1 - d > 0)  over the integers
        lin = {x: -v for x, v in lin.items()}
        c = 1 - c
        flip = True
    left, right = _sides(lin, c)
    r = mk("cmp", "<", left, right)
    return not_(r) if flip else r


def isbool(t):
    if t.op in ATOMS or t is TRUE or t is FALSE:
        return True
    if t.op == "ite":
        if t._k is None:
            t._k = isbool(t.args[1]) and isbool(t.args[2])
        return t._k
    return False


def _top(t):
    if t.op == "ite":
        return t.args[0]
    if t.op in ATOMS:
        return t
    return None


def _cof(t, v, val):
    """Cofactor of a diagram with respect to its possible top atom."""
    if t.op == "ite":
        if t.args[0] is v:
            return t.args[1] if val else t.args[2]
        return t
    if t is v:
        return TRUE if val else FALSE
    return t


_ite_memo = {}


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    key = (c, a, b)
    r = _ite_memo.get(key)
    if r is not None:
        return r
    if not isbool(c):
        c = truth(c)
        r = ite(c, a, b)
        _ite_memo[key] = r
        return r
    v = _top(c)
    for x in (a, b):
        w = _top(x)
        if w is not None and w.id < v.id:
            v = w
    r = node(v, ite(_cof(c, v, True), _cof(a, v, True), _cof(b, v, True)),
             ite(_cof(c, v, False), _cof(a, v, False), _cof(b, v, False)))
    _ite_memo[key] = r
    return r


def _related(v, w, val):
    """Truth value of atom w given that atom v is val, or None."""
    if v.op != "cmp" or w.op != "cmp":
        return None
    vo, vl, vr = v.args
    wo, wl, wr = w.args
    if val:
        if wo == "==" and vo == "==":
            for x, c in ((vl, vr), (vr, vl)):
                if is_const(c):
                    for y, d in ((wl, wr), (wr, wl)):
                        if y is x and is_const(d) and d is not c:
                            return False
            return None
        if vo == "<":
            if wo == "<" and wl is vr and wr is vl:
                return False
            if wo == "==" and ((wl is vl and wr is vr)
                               or (wl is vr and wr is vl)):
                return False
        if vo == "==" and wo == "<" and (
                (wl is vl and wr is vr) or (wl is vr and wr is vl)):
            return False
    if wo == "<" and vo == "<":
        # bounds by constants on the same expression
        if is_num(vl) and is_num(wl) and vr is wr:        # c < x
            if val and cval(wl) <= cval(vl):
                return True
            if not val and cval(wl) >= cval(vl):
                return False
        if is_num(vr) and is_num(wr) and vl is wl:        # x < c
            if val and cval(wr) >= cval(vr):
                return True
            if not val and cval(wr) <= cval(vr):
                return False
        if is_num(vl) and is_num(wr) and vr is wl:        # c < x ; x < d
            if val and cval(wr) <= cval(vl):
                return False
            if not val and cval(wr) > cval(vl):
                return True
        if is_num(vr) and is_num(wl) and vl is wr:        # x < c ; d < x
            if val and cval(wl) >= cval(vr):
                return False
            if not val and cval(wl) < cval(vr):
                return True
    if wo == "<" and vo == "==" and val:
        for x, c in ((vl, vr), (vr, vl)):
            if is_num(c):
                if wl is x and is_num(wr):
                    return cval(c) < cval(wr)
                if wr is x and is_num(wl):
                    return cval(wl) < cval(c)
    if wo == "==" and vo == "<":
        for x, c in ((wl, wr), (wr, wl)):
            if is_num(c):
                if vl is x and is_num(vr):
                    inside = cval(c) < cval(vr)
                elif vr is x and is_num(vl):
                    inside = cval(vl) < cval(c)
                else:
                    continue
                if inside != val:
                    return False
    return None


def _under(t, v, val, memo):
    """Simplify diagram t assuming atom v is val."""
    if t.op != "ite" and t.op not in ATOMS:
        return t
    if t in memo:
        return memo[t]
    w = _top(t)
    g = val if w is v else _related(v, w, val)
    if g is not None:
        r = _under(_cof(t, w, g), v, val, memo)
    elif t.op == "ite":
        h = _under(t.args[1], v, val, memo)
        l = _under(t.args[2], v, val, memo)
        r = t if h is t.args[1] and l is t.args[2] else _raw(w, h, l)
    else:
        r = t
    memo[t] = r
    return r


def _raw(v, hi, lo):
    if hi is lo:
        return hi
    if hi is TRUE and lo is FALSE:
        return v
    return mk("ite", v, hi, lo)


def node(v, hi, lo):
    if hi is lo:
        return hi
    if v.op == "cmp":
        hi = _under(hi, v, True, {})
        lo = _under(lo, v, False, {})
    return _raw(v, hi, lo)


def not_(a):
    if is_const(a):
        return const(not cval(a))
    if not isbool(a):
        a = truth(a)
    return ite(a, FALSE, TRUE)


def and_(*ts):
    r = TRUE
    for t in ts:
        r = ite(r, t if isbool(t) else truth(t), FALSE)
        if r is FALSE:
            return r
    return r


def or_(*ts):
    r = FALSE
    for t in ts:
        r = ite(r, TRUE, t if isbool(t) else truth(t))
        if r is TRUE:
            return r
    return r


def implies(a, b):
    return and_(a, not_(b)) is FALSE


def restrict(f, c, memo=None):
    """Simplify diagram f where only the inputs in c matter."""
    if c is TRUE or c is FALSE:
        return f
    memo = {} if memo is None else memo
    vf, vc = _top(f), _top(c)
    if vf is None or vc is None:
        return f
    key = (f, c)
    if key in memo:
        return memo[key]
    if vc.id < vf.id:
        c1, c0 = _cof(c, vc, True), _cof(c, vc, False)
        if c1 is FALSE:
            r = restrict(_under(f, vc, False, {}), c0, memo)
        elif c0 is FALSE:
            r = restrict(_under(f, vc, True, {}), c1, memo)
        else:
            r = restrict(f, or_(c1, c0), memo)
    else:
        v = vf
        c1, c0 = _cof(c, v, True), _cof(c, v, False)
        f1, f0 = _cof(f, v, True), _cof(f, v, False)
        if c1 is FALSE:
            r = restrict(f0, c0, memo)
        elif c0 is FALSE:
            r = restrict(f1, c1, memo)
        else:
            r = node(v, restrict(f1, c1, memo), restrict(f0, c0, memo))
    memo[key] = r
    return r


def literals(c):
    """Atoms implied by a boolean diagram: [(atom, value)]."""
    out = []
    seen = set()
    todo = [c]
    atoms = []
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        v = _top(x)
        if v is None:
            continue
        if v not in atoms:
            atoms.append(v)
        if x.op == "ite":
            todo += [x.args[1], x.args[2]]
    atoms.sort(key=lambda t: t.id)
    for v in atoms:
        if ite(v, FALSE, c) is FALSE:
            out.append((v, True))
        elif ite(v, c, FALSE) is FALSE:
            out.append((v, False))
    return out


def drop(c, v, val):
    """c with the literal (v is val) assumed."""
    return _under(c, v, val, {})


def truth(t):
    if isbool(t):
        return t
    if is_const(t):
        return const(bool(cval(t)))
    if t.op == "ite":
        return ite(t.args[0], truth(t.args[1]), truth(t.args[2]))
    if t.op in ("seq", "listc", "tuple") and (
            not t.args or any(p.op == "e" for p in t.args)):
        return const(bool(t.args))
    return mk("truth", t)


# ---- traversal -----------------------------------------------------------
def subterms(t, seen=None):
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        for a in x.args:
            if isinstance(a, T):
                stack.append(a)
    return seen


def substitute(t, mapping, memo=None):
    memo = {} if memo is None else memo
    if t in mapping:
        return mapping[t]
    if t in memo:
        return memo[t]
    if not any(isinstance(a, T) for a in t.args):
        return t
    args = [substitute(a, mapping, memo) if isinstance(a, T) else a
            for a in t.args]
    if all(x is y for x, y in zip(args, t.args)):
        memo[t] = t
        return t
    r = rebuild(t.op, args)
    memo[t] = r
    return r


def rebuild(op, args):
    if op == "sum":
        out = [args[0]]
        for i in range(1, len(args), 2):
            out.append(mul(args[i], args[i + 1]))
        return add(*out)
    if op == "prod":
        out = [args[0]]
        for i in range(1, len(args), 2):
            out.append(power(args[i + 1], const(args[i]))
                       if args[i] != 1 else args[i + 1])
        return mul(*out)
    if op == "cmp":
        return cmp_(*args)
    if op == "truth":
        return truth(args[0])
    if op == "ite":
        return ite(*args)
    if op == "concat":
        return concat(*args)
    if op == "idx":
        return index(*args)
    if op == "call" and args[0] in ("abs", "min", "max"):
        return fcall(*args)
    return mk(op, *args)


def index(base, i):
    """Pure indexing into an immutable value."""
    if base.op in ("tuple", "listc") and is_num(i) \
            and isinstance(cval(i), int) and \
            -len(base.args) <= cval(i) < len(base.args):
        return base.args[cval(i)]
    if base.op == "const" and isinstance(cval(base), str) and is_num(i):
        try:
            return const(cval(base)[cval(i)])
        except IndexError:
            return mk("call", "indexerror", base, i)
    if base.op == "ite":
        return ite(base.args[0], index(base.args[1], i),
                   index(base.args[2], i))
    return mk("idx", base, i)


def show(t, depth=0):
    if depth > 12:
        return "..."

    def s(x):
        return show(x, depth + 1) if isinstance(x, T) else str(x)
    o, a = t.op, t.args
    if o in ("const", "num"):
        return repr(a[0]) if o == "const" else (
            str(a[0]) if not isinstance(a[0], Fraction)
            else (str(float(a[0])) if a[0].denominator in (
                2, 5, 10, 100, 1000, 4, 20, 50) else str(a[0])))
    if o == "sym":
        return a[0]
    if o == "pi":
        return "pi"
    if o == "attr":
        return s(a[0]) + "." + a[1]
    if o in ("idx", "char"):
        return s(a[0]) + "[" + s(a[1]) + "]"
    if o in ("slice", "strslice"):
        return "%s[%s:%s]" % (s(a[0]), s(a[1]), s(a[2]))
    if o == "call":
        return a[0] + "(" + ", ".join(s(x) for x in a[1:]) + ")"
    if o == "sum":
        out = []
        if cval(a[0]) != 0:
            out.append(s(a[0]))
        for i in range(1, len(a), 2):
            k = cval(a[i])
            x = s(a[i + 1])
            out.append(x if k == 1 else "-" + x if k == -1
                       else "%s*%s" % (s(a[i]), x))
        return "(" + " + ".join(out).replace("+ -", "- ") + ")"
    if o == "prod":
        nu, de = [], []
        if cval(a[0]) != 1:
            nu.append(s(a[0]))
        for i in range(1, len(a), 2):
            p = a[i]
            x = s(a[i + 1])
            (nu if p > 0 else de).append(
                x if abs(p) == 1 else "%s**%d" % (x, abs(p)))
        r = "*".join(nu) or "1"
        if de:
            r += "/" + "/".join(de)
        return "(" + r + ")"
    if o == "cmp":
        return "(%s %s %s)" % (s(a[1]), a[0], s(a[2]))
    if o == "truth":
        return "bool(%s)" % s(a[0])
    if o == "ite" and isbool(t):
        if a[1] is FALSE and a[2] is TRUE:
            return "not " + s(a[0])
        if a[1] is FALSE:
            return "(not %s and %s)" % (s(a[0]), s(a[2]))
        if a[2] is FALSE:
            return "(%s and %s)" % (s(a[0]), s(a[1]))
        if a[1] is TRUE:
            return "(%s or %s)" % (s(a[0]), s(a[2]))
        if a[2] is TRUE:
            return "(not %s or %s)" % (s(a[0]), s(a[1]))
    if o == "ite":
        return "(%s if %s else %s)" % (s(a[1]), s(a[0]), s(a[2]))
    if o == "opaque":
        return "<?%s>" % a[0]
    if o == "copy":
        return "copy(%s)" % s(a[1])
    if o == "struct":
        return a[0] + "{" + ", ".join(
            "%s=%s" % (a[i], s(a[i + 1])) for i in range(1, len(a), 2)) + "}"
    if o == "phi":
        return "%s'%s" % (a[1], a[0])
    if o == "loopout":
        return "%s after loop%s" % (a[1], a[0])
    if o == "seq":
        return "[" + ", ".join(s(x) for x in a) + "]"
    if o == "seg":
        return "*%s[%s:%s]" % (s(a[0]), s(a[1]), s(a[2]))
    return o + "(" + ", ".join(s(x) for x in a) + ")"
