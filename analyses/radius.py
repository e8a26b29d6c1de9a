"""Where does the planet's radius come from?

Constant provenance: inside a function body no value in the range of the
Earth's radius may be written down or taken from a class or module default,
and every call of a function with a radius parameter passes one."""
import ast

NEAR = (6300.0, 6450.0)
NAME = "radiusOfEarth"
RULE = "the radius used in a computation is the radius of its model"


def is_radius(e):
    return isinstance(e, ast.Constant) and isinstance(
        e.value, (int, float)) and not isinstance(e.value, bool) and \
        NEAR[0] <= e.value <= NEAR[1]


def fallback_nodes(fn):
    """Expressions that only replace a radius that was not given."""
    out = set()
    for n in ast.walk(fn):
        if isinstance(n, (ast.If, ast.IfExp)) and any(
                isinstance(c, ast.Constant) and c.value is None
                for c in ast.walk(n.test)):
            for x in ast.walk(n):
                out.add(id(x))
        if isinstance(n, ast.BoolOp) and isinstance(n.op, ast.Or):
            for x in ast.walk(n):
                out.add(id(x))
    return out


def body_nodes(func):
    for s in func.node.body:
        for n in ast.walk(s):
            yield n


def run(program, tier, seed):
    ok, bad, open_ = [], [], []
    defaults = {}       # class or module level names holding a radius
    for m in program.modules.values():
        for n, e in m.consts.items():
            if is_radius(e):
                defaults[(m.name, n)] = e
        for c in m.classes.values():
            for n, e in c.attrs.items():
                if is_radius(e) or (isinstance(e, ast.Name)
                                    and (m.name, e.id) in defaults):
                    defaults[(c.name, n)] = e
    assigned = {}       # class -> attributes set on its objects
    for c in program.classes.values():
        assigned[c.name] = {
            n.attr for k in program.mro(c) for f in k.methods.values()
            for n in ast.walk(f.node) if isinstance(n, ast.Attribute)
            and isinstance(n.ctx, ast.Store)
            and isinstance(n.value, ast.Name) and n.value.id == "self"}
    byname = {}
    for f in program.all_funcs():
        byname.setdefault(f.name, []).append(f)
    for c in program.classes.values():
        init = program.find_method(c, "__init__")
        if init is not None:
            byname.setdefault(c.name, []).append(init)
    for f in program.all_funcs():
        if f.module.name in ("setup", "header"):
            continue
        found = []
        skip = fallback_nodes(f.node)
        for n in body_nodes(f):
            if id(n) in skip:
                continue
            if is_radius(n):
                found.append((n, "the literal %s is used" % n.value))
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) \
                    and (f.module.name, n.id) in defaults and \
                    n.id not in f.params() and not any(
                        isinstance(x, ast.Name) and x.id == n.id
                        and isinstance(x.ctx, ast.Store)
                        for x in ast.walk(f.node)):
                found.append((n, "the constant %s is used" % n.id))
            elif isinstance(n, ast.Attribute) and isinstance(
                    n.ctx, ast.Load) and isinstance(n.value, ast.Name):
                v = n.value.id
                if v == "cls" and f.cls is not None:
                    v = f.cls.name
                if v in program.classes and any(
                        (k.name, n.attr) in defaults
                        for k in program.mro(program.classes[v])):
                    found.append((n, "the class default %s.%s is used" % (
                        v, n.attr)))
                elif v == "self" and f.cls is not None and \
                        n.attr not in assigned[f.cls.name] and any(
                            (k.name, n.attr) in defaults
                            for k in program.mro(f.cls)):
                    found.append((n, "self.%s is only ever the class "
                                  "default" % n.attr))
            elif isinstance(n, ast.Call):
                nm = n.func.id if isinstance(n.func, ast.Name) else \
                    n.func.attr if isinstance(n.func, ast.Attribute) \
                    else None
                for g in byname.get(nm, []) if nm != "__init__" else ():
                    if g.module.name == "header":
                        continue
                    ps = g.params()
                    if NAME not in ps or any(
                            k.arg in (NAME, None) for k in n.keywords) or \
                            any(isinstance(x, ast.Starred)
                                for x in n.args):
                        continue
                    i = ps.index(NAME)
                    if ps[0] in ("self", "cls") and g.cls is not None:
                        i -= 1
                    if len(n.args) <= i:
                        found.append((n, "%s is called without the radius "
                                      "and takes its default" % nm))
        d = dict(function=f.qual, case="", what="radius provenance",
                 witness=None, rule=RULE)
        for n, why in found:
            bad.append(dict(d, status="DIFFERENT", why=why,
                            where=f.where(n)))
        if not found:
            ok.append(dict(d, status="EQUAL", where=f.where(),
                           why="no constant radius"))
    return ok, bad, open_
