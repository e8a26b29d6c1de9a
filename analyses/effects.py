"""Which objects can a query change?

An interprocedural may-write analysis over access paths.  Every function that
a query reaches is summarised; each write (attribute, list element, list
mutation) is attributed to the object it starts from: an object allocated in
the call, a private copy, a parameter, or the receiver.  Mutation summaries
are propagated through the call graph up to the tools' own methods.  A write
is a violation when it can reach a loaded model (anything a tool holds as its
model), an object shared by a class or a module, or an argument list of the
caller."""
import ast

from sa import terms as tm
from sa.terms import T, mk, sym
from sa.engine import Interp, Unsupported
from sa.contracts import ANCHORS, EFFECTS

ENTRY = ("TauPyModel", "TauP_Time", "TauP_Pierce", "TauP_Path",
         "SeismicPhase", "Arrival", "Arrivals")
MODEL_CLASSES = ("TauModel", "TauBranch", "SlownessModel", "SlownessLayer",
                 "VelocityModel", "VelocityLayer", "CriticalDepth",
                 "DepthRange", "SphericalSModel")
# attributes of query tools through which a loaded model is reached
MODEL_ATTRS = frozenset("""tMod tModDepth sMod vMod model tauBranches layers
PLayers SLayers criticalDepths highSlownessLayerDepthsP
highSlownessLayerDepthsS fluidLayerDepths noDisconDepths""".split())
ALLOWED_CLASS = ("DEBUG", "debug", "verbose")
KLIMIT = 8
FRESH = ("fresh", (), ())


class Recorder(Interp):
    """The interpreter, keeping every write and deep copies apart."""

    def __init__(self, *a, **k):
        Interp.__init__(self, *a, **k)
        self.writes = []

    def note(self, kind, base, name, line):
        f = self.frames[-1]
        self.writes.append((kind, base, name, f.module.path,
                            line or self.line))

    line = 0

    def stmt(self, s, st):
        before, self.line = self.line, s.lineno
        try:
            return Interp.stmt(self, s, st)
        finally:
            self.line = before

    def setattr_(self, base, name, v, st, line=None):
        self.note("attribute", base, name, line)
        return Interp.setattr_(self, base, name, v, st, line)

    def mutate(self, t, st, fn, cond=tm.TRUE):
        self.note("elements", t, None, None)
        return Interp.mutate(self, t, st, fn, cond)

    def extcall(self, n, a, k, st, e):
        if n == "deepcopy" and a:
            self.nref += 1
            return mk("copy", self.nref, self.freeze(a[0], st))
        if n == "copy" and a and a[0].op != "ref":
            self.nref += 1
            r = mk("shallow", self.nref, a[0])
            c = self.classname(a[0])
            if c:
                self.types[r] = c
            return r
        return Interp.extcall(self, n, a, k, st, e)


class Summary(object):
    def __init__(self, qual, func, it, s, params):
        self.qual, self.func, self.it, self.s = qual, func, it, s
        self.params = params
        self.mods = {}      # (kind, path) -> (kind of write, where, chain)


class Effects(object):
    def __init__(self, program):
        self.p = program
        self.sums = {}
        self.failed = {}

    def summarise(self, qual):
        if qual in self.sums or qual in self.failed:
            return self.sums.get(qual)
        try:
            f = self.p.func(qual)
            op = set(ANCHORS) - {qual}
            it = Recorder(self.p, opaque_calls=op, effects=EFFECTS & op)
            s = it.summarise(f)
        except Exception as e:
            self.failed[qual] = "%s: %s" % (type(e).__name__, e)
            return None
        r = Summary(qual, f, it, s, f.params())
        self.sums[qual] = r
        for t, q, args, g, line in it.calls:
            self.summarise(q)
        return r

    # ---- where an object comes from -----------------------------------
    def roots(self, t, S, path=(), seen=(), depth=0):
        """{(kind, name, path)}: the objects that t.path may denote."""
        path = path[:KLIMIT]
        if depth > 60 or (t, path) in seen:
            return set()
        seen = seen + ((t, path),)
        rec = lambda x, p=path: self.roots(x, S, p, seen, depth + 1)
        o = t.op
        if o == "sym":
            n = t.args[0]
            if n in S.params:
                return {("param", n, path)}
            return {("unknown", n, path)}
        if o == "attr":
            return rec(t.args[0], (t.args[1],) + path)
        if o in ("idx", "char"):
            return rec(t.args[0], ("[]",) + path)
        if o == "ite":
            return rec(t.args[1]) | rec(t.args[2])
        if o == "copy":
            return {FRESH}
        if o == "after":
            return rec(t.args[1])
        if o == "ref":
            if not path:
                return {FRESH}
            info = S.it.refinfo.get(t)
            v = None
            for st in [S.s.final] if hasattr(S.s, "final") else []:
                if path[0] == "[]":
                    v = st.heap.get(("c", t))
                else:
                    v = st.heap.get(("f", t, path[0]))
            if v is None:
                return {("unknown", "", path)}
            if path[0] == "[]":
                return rec(v)
            return rec(v, path[1:])
        if o == "shallow":
            if not path:
                return {FRESH}
            return rec(t.args[1])
        if o == "struct":
            if not path:
                return {FRESH}
            if path[0] in t.args[1::2]:
                return rec(t.args[2 + 2 * list(t.args[1::2]).index(path[0])],
                           path[1:])
            return {("unknown", "", path)}
        if o in ("seq", "listc", "tuple", "store", "slice", "compr",
                 "concat"):
            if not path:
                return {FRESH}
            if path[0] != "[]":
                return {("unknown", "", path)}
            out = set()
            if o == "seq":
                for p in t.args:
                    if p.op == "e":
                        out |= rec(p.args[0], path[1:])
                    elif p.op in ("lst", "seg"):
                        out |= rec(p.args[0])
                    else:
                        out |= self.inside(p, S, path[1:], seen, depth)
            elif o in ("listc", "tuple"):
                for p in t.args:
                    out |= rec(p, path[1:])
            elif o == "store":
                out = rec(t.args[0]) | rec(t.args[2], path[1:])
            else:
                out = rec(t.args[0])
            return out
        if o in ("phi", "loopout"):
            L = S.it.loops.get(t.args[0])
            if L is not None:
                from sa.engine import keyname
                out = set()
                for k, (init, phi, nxt) in L.carried.items():
                    if keyname(k) == t.args[1]:
                        out |= rec(init)
                        if nxt is not phi:
                            out |= rec(nxt)
                return out
        if o in ("atexit", "atend"):
            return rec(t.args[-1])
        if o == "class":
            return {("class", t.args[0], path)}
        if o == "module":
            return {("module", t.args[0], path)}
        if o == "call":
            return self.call_roots(t, S, path, seen, depth)
        return {("unknown", o, path)}

    def inside(self, p, S, path, seen, depth):
        """Elements of a comprehension-like piece: its element terms."""
        out = set()
        for a in p.args:
            if isinstance(a, T):
                out |= self.roots(a, S, path, seen, depth + 1)
        return {r for r in out if r[0] != "unknown"}

    def call_roots(self, t, S, path, seen, depth):
        """What the result of an uninterpreted call may share with its
        arguments."""
        q = t.args[0]
        if q in self.p.classes:
            return {FRESH} if not path else {("unknown", q, path)}
        if q in ("sorted", "reversedlist", "range", "concat", "list"):
            if not path:
                return {FRESH}
            return self.roots(t.args[1], S, path, seen, depth + 1) \
                if len(t.args) > 1 and isinstance(t.args[1], T) else set()
        C = self.sums.get(q)
        if C is None:
            return {("unknown", q, path)}
        names = [x for x in C.params]
        if C.func.kind == "classmethod":
            names = names[1:]
        args = dict(zip(names, t.args[1:]))
        out = set()
        for e in C.s.exits:
            if e.kind != "return":
                continue
            for r in self.roots(e.value, C, path, (), depth + 1):
                out |= self.through(r, args, S, seen, depth)
        return out

    def through(self, r, args, S, seen=(), depth=0):
        """A root of the callee, seen from the caller."""
        kind, name, path = r
        if kind == "param":
            if name in args and isinstance(args[name], T):
                return self.roots(args[name], S, path, seen, depth + 1)
            return {("unknown", name, path)}
        return {r}

    # ---- mutation summaries -------------------------------------------
    def solve(self):
        for S in self.sums.values():
            for kind, base, name, path, line in S.it.writes:
                if name in ALLOWED_CLASS:
                    continue
                try:
                    rs = self.roots(base, S)
                except RecursionError:
                    continue
                for r in rs:
                    self.add(S, r, name, "%s:%d" % (path, line),
                             ["%s writes %s" % (S.qual, name or kind)])
        changed = True
        rounds = 0
        while changed and rounds < 12:
            changed = False
            rounds += 1
            for S in list(self.sums.values()):
                for t, q, args, g, line in S.it.calls:
                    C = self.sums.get(q)
                    if C is None:
                        continue
                    for (kind, pn, path, name), (where, chain) in list(
                            C.mods.items()):
                        r = (kind, pn, path)
                        for r2 in self.through(r, args, S):
                            if self.add(S, r2, name, where, [
                                    "%s (line %d)" % (S.qual, line)]
                                    + chain):
                                changed = True

    def add(self, S, r, name, where, chain):
        kind, pn, path = r
        if kind in ("fresh", "unknown"):
            return False
        if kind == "param" and pn == "self" and S.qual.endswith(
                ".__init__") and not path:
            return False
        k = (kind, pn, path, name)
        if k in S.mods or len(chain) > 8:
            return False
        S.mods[k] = (where, chain)
        return True


def mutable_literal(e):
    if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp)):
        return True
    return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
        e.func.id in ("list", "dict", "set")


MUTATORS = ("append", "insert", "extend", "pop", "remove", "clear", "sort",
            "reverse", "add", "update", "setdefault", "popitem")


def shared_literals(program):
    """Mutable class attributes, module globals and parameter defaults that
    some function changes in place."""
    ok, bad = [], []
    for m in program.modules.values():
        if m.name == "setup":
            continue
        for c in m.classes.values():
            for attr, e in c.attrs.items():
                if not mutable_literal(e):
                    continue
                own = any(isinstance(n, ast.Attribute) and n.attr == attr
                          and isinstance(n.ctx, ast.Store)
                          and isinstance(n.value, ast.Name)
                          and n.value.id == "self"
                          for f in c.methods.values()
                          for n in ast.walk(f.node))
                site = None if own else changed_in_place(program, attr)
                item(ok, bad, c.name, "shared list %s" % attr, site,
                     "%s:%d" % (m.path, e.lineno),
                     "the %s of the class %s is shared by all its objects "
                     "and changed in place" % (attr, c.name))
        for f in list(m.functions.values()) + [
                f for c in m.classes.values() for f in c.methods.values()]:
            for pn, e in f.defaults().items():
                if not mutable_literal(e):
                    continue
                site = default_escapes(f, pn)
                item(ok, bad, f.qual, "default of %s" % pn, site,
                     f.where(e), "the default value of parameter %s is "
                     "shared by all calls and changed" % pn)
    return ok, bad


def item(ok, bad, function, what, site, where, why):
    d = dict(function=function, case="", what=what, why=why, where=where,
             witness=None, status="EQUAL",
             rule="no state shared between queries is changed")
    if site is None:
        d["why"] = "never changed in place"
        ok.append(d)
    else:
        d["status"] = "DIFFERENT"
        d["why"] = "%s, at %s" % (why, site)
        bad.append(d)


def changed_in_place(program, attr):
    for f in program.all_funcs():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Attribute) and n.func.attr in MUTATORS and \
                    isinstance(n.func.value, ast.Attribute) and \
                    n.func.value.attr == attr:
                return f.where(n)
            if isinstance(n, ast.Subscript) and isinstance(
                    n.ctx, (ast.Store, ast.Del)) and isinstance(
                    n.value, ast.Attribute) and n.value.attr == attr:
                return f.where(n)
            if isinstance(n, ast.AugAssign) and isinstance(
                    n.target, ast.Attribute) and n.target.attr == attr:
                return f.where(n)
    return None


def default_escapes(f, pn):
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                and n.func.attr in MUTATORS and isinstance(
                    n.func.value, ast.Name) and n.func.value.id == pn:
            return f.where(n)
        if isinstance(n, ast.Subscript) and isinstance(
                n.ctx, (ast.Store, ast.Del)) and isinstance(
                n.value, ast.Name) and n.value.id == pn:
            return f.where(n)
    return None


def is_tool(program, cname):
    c = program.classes.get(cname)
    return c is not None and any(x.name in ENTRY for x in program.mro(c))


def run(program, tier, seed):
    E = Effects(program)
    entries = []
    for c in program.classes.values():
        if is_tool(program, c.name):
            entries += [f.qual for f in c.methods.values()]
    for q in sorted(entries):
        E.summarise(q)
    E.solve()
    ok, bad = shared_literals(program)
    open_ = [dict(function=q, case="", what="effects", status="UNDECIDED",
                  why=w, where="", witness=None)
             for q, w in sorted(E.failed.items())]
    seen = set()
    for q in sorted(E.sums):
        S = E.sums[q]
        cls = S.func.cls.name if S.func.cls else None
        tool = cls is not None and is_tool(program, cls)
        n = 0
        for (kind, pn, path, name), (where, chain) in sorted(
                S.mods.items(), key=repr):
            why = None
            full = path + ((name,) if name else ())
            if kind == "class":
                why = "changes the class %s (%s)" % (pn, ".".join(full))
            elif kind == "module":
                why = "changes the module %s" % pn
            elif tool and pn == "self":
                hit = [a for a in path if a in MODEL_ATTRS]
                if hit:
                    why = "changes %s, part of a loaded model" % ".".join(
                        ("self",) + full)
            elif tool and S.func.name == "__init__" or tool:
                if any(a in MODEL_ATTRS for a in path) or pn == "tMod":
                    why = "changes %s, part of a loaded model" % ".".join(
                        (pn,) + full)
            if why is None:
                continue
            n += 1
            if (where, why.split()[1]) in seen:
                continue
            seen.add((where, why.split()[1]))
            bad.append(dict(
                function=q, case="", what="effects", status="DIFFERENT",
                why="%s: %s" % (why, " -> ".join(chain)), where=where,
                witness=None, rule="a query writes only to objects it "
                "allocated, to private copies, and to the tool itself"))
        if not n:
            ok.append(dict(
                function=q, case="", what="effects", status="EQUAL",
                why="%d writes, %d calls, none to a loaded model" % (
                    len(S.it.writes), len(S.it.calls)),
                where=S.func.where(), witness=None))
    return ok, bad, open_
