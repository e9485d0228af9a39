"""State of the library that its own functions may assign.

Contracts hold whatever happened before: while a function is verified, every such cell holds an arbitrary value of its kind
(numbers and truth values are symbolic; anything else is opaque, so that code whose result depends on it is not accepted).
A write to a cell is therefore no violation of a functional contract by itself; P26 reports every write."""
import ast
import types
import collections
from fractions import Fraction
from . import terms as tm
from .terms import T, Unsupported

MUTATORS = {"append", "appendleft", "add", "update", "setdefault", "pop", "popleft", "popitem", "clear", "extend", "insert", "remove",
            "discard", "sort", "reverse", "__setitem__", "__delitem__"}
KEPT = {"pysolar.constants.aberration_coeffs"} | {"pysolar.numeric." + n for n in (
    "degrees cos sin radians tan pi acos atan asin atan2 exp log e where tm_yday tm_hour tm_min current_mod").split()}
_n = [0]


class Opaque:
    """an unknown value"""

    def __getattribute__(self, n):
        raise Unsupported("reads state that calls of the library leave behind")


def _unknown(self, *a, **k):
    raise Unsupported("reads state that calls of the library leave behind")


for _m in ("__bool__ __eq__ __ne__ __lt__ __le__ __gt__ __ge__ __hash__ __len__ __iter__ __getitem__ __contains__ __call__ __add__ __radd__ "
           "__sub__ __rsub__ __mul__ __rmul__ __truediv__ __rtruediv__ __mod__ __rmod__ __pow__ __rpow__ __neg__ __pos__ __abs__ __float__ __int__ "
           "__index__ __round__ __floordiv__ __rfloordiv__ __and__ __or__ __xor__ __next__ __enter__ __exit__ __setitem__ __delitem__ __iadd__ "
           "__str__ __repr__ __format__").split():
    setattr(Opaque, _m, _unknown)
OPAQUE = Opaque()


def _box(base):
    """a container with unknown contents: it can be written, not read"""
    d = {n: _unknown for n in dir(base) if callable(getattr(base, n)) and n not in (
        "__class__", "__new__", "__init__", "__getattribute__", "__setattr__", "__delattr__", "__init_subclass__", "__subclasshook__",
        "__dir__", "__reduce__", "__reduce_ex__", "__getstate__", "__sizeof__", "__class_getitem__", "__doc__")}
    for n in ("append", "appendleft", "add", "update", "clear", "extend", "insert", "discard", "sort", "reverse", "__setitem__", "__delitem__"):
        if n in d:
            d[n] = lambda self, *a, **k: None
    for n in ("__iadd__", "__ior__"):
        if n in d:
            d[n] = lambda self, o: self
    return type("Unknown_" + base.__name__, (base,), d)


BOXES = {b: _box(b) for b in (dict, list, set, collections.deque, collections.OrderedDict, collections.defaultdict)}


UNKNOWN = frozenset(BOXES.values()) | {Opaque}


class Attr:
    """where a value is kept: an attribute, a closure variable or a default argument"""

    def __init__(self, o, k):
        self.o, self.k = o, k
        self.id = (id(o), k)

    def get(self):
        return self.o.__dict__.get(self.k, _get)

    def set(self, v):
        setattr(self.o, self.k, v)

    def drop(self):
        if self.k in self.o.__dict__:
            delattr(self.o, self.k)


class Closed(Attr):
    def __init__(self, c):
        self.o = c
        self.id = id(c)

    def get(self):
        try:
            return self.o.cell_contents
        except ValueError:
            return _get

    def set(self, v):
        self.o.cell_contents = v

    def drop(self):
        del self.o.cell_contents


class Default(Attr):
    def get(self):
        return self.o.__defaults__[self.k]

    def set(self, v):
        d = list(self.o.__defaults__)
        d[self.k] = v
        self.o.__defaults__ = tuple(d)

    def drop(self):
        pass


class Found:
    """a value of the library that an expression names: path, value, where it is kept (inside: it lies within that container)"""

    def __init__(self, path, value, slot, inside=False):
        self.path, self.value, self.slot, self.inside = path, value, slot, inside


def walk(n, into=False):
    """the statements and expressions of a function, without those of functions inside it"""
    stack = list(n.body) if isinstance(n.body, list) else [n.body]
    while stack:
        x = stack.pop()
        yield x
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        stack.extend(ast.iter_child_nodes(x))


def frozen(v):
    """nothing inside this container can be changed in place: all of it is numbers, texts, ..., functions"""
    def fixed(x):
        return x is None or isinstance(x, (int, float, complex, str, bytes, Fraction, T, types.BuiltinFunctionType)) or \
            type(x) in (tuple, frozenset) and all(map(fixed, x))
    xs = list(v.values()) if isinstance(v, dict) else list(v) if isinstance(v, (list, tuple, set, frozenset)) else []
    return bool(xs) and all(map(fixed, xs))


class Scope:
    def __init__(self, n):
        self.n, self.name = n, getattr(n, "name", "<lambda>")
        a = n.args
        self.args = [x.arg for x in a.posonlyargs + a.args]
        loc = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [a.vararg, a.kwarg] if x is not None}
        self.glob, self.free, self.sources = set(), set(), {}
        for x in walk(n):
            if isinstance(x, ast.Global):
                self.glob |= set(x.names)
            elif isinstance(x, ast.Nonlocal):
                self.free |= set(x.names)
            elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                loc.add(x.id)
                self.sources.setdefault(x.id, [])
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                loc.add(x.name)
        for x in walk(n):
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    if isinstance(t, ast.Name):
                        self.sources[t.id].append((x.value, False))
                    else:
                        self.lose(t)
            elif isinstance(x, ast.NamedExpr):
                self.sources[x.target.id].append((x.value, False))
            elif isinstance(x, ast.For):
                if isinstance(x.target, ast.Name):
                    self.sources[x.target.id].append((x.iter, True))
                else:
                    self.lose(x.target)
            elif isinstance(x, ast.withitem) and x.optional_vars is not None:
                self.lose(x.optional_vars)
        self.loc = loc - self.glob - self.free
        self.seen = set()

    def lose(self, t):
        for x in ast.walk(t):
            if isinstance(x, ast.Name) and x.id in self.sources:
                self.sources[x.id].append((None, False))


class _Scan(ast.NodeVisitor):
    def __init__(self, world, mod, live):
        self.w, self.d, self.mod, self.live = world, mod.__dict__, mod, live
        self.found, self.writers = {}, set()
        self.scopes, self.classes = [], []

    def cell(self, path, slot):
        if path not in KEPT and not (isinstance(getattr(slot, "k", None), str) and slot.k.startswith("__")):
            if self.scopes:
                self.writers.add(self.scopes[0].name)
            if slot.id not in {s.id for s in self.found.values()}:
                self.found[path] = slot

    # -- scopes
    def visit_FunctionDef(self, n):
        self.scopes.append(Scope(n))
        self.generic_visit(n)
        self.scopes.pop()
    visit_Lambda = visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.classes.append(n.name)
        self.generic_visit(n)
        self.classes.pop()

    def functions(self, name):
        """the function objects made from a definition in this module"""
        return [(p, f) for p, f in self.live["func"] if f.__globals__ is self.d and f.__code__.co_name == name]

    def closed(self, name):
        """the closure variables of that name which this function sees"""
        out = []
        for p, f in self.functions(self.scopes[-1].name):
            for v, c in zip(f.__code__.co_freevars, f.__closure__ or ()):
                if v == name:
                    s = Closed(c)
                    out.append(Found("%s.__closure__ %s" % (p, name), s.get(), s))
        return out

    def resolve(self, n):
        """what of the library a name, attribute chain or element may be"""
        if isinstance(n, ast.Name):
            if not self.scopes or not any(n.id in s.loc for s in self.scopes) and n.id not in self.scopes[-1].free:
                return [Found("%s.%s" % (self.mod.__name__, n.id), self.d[n.id], Attr(self.mod, n.id))] if n.id in self.d else []
            s = self.scopes[-1]
            if n.id not in s.loc:
                return self.closed(n.id)
            out = []
            if n.id in s.args:
                if self.classes and s.args[0] == n.id:
                    out += [Found(p, o, None) for p, o in self.live["obj"] if type(o).__name__ == self.classes[-1]]
                for p, f in self.functions(s.name):
                    i = s.args.index(n.id) - (len(s.args) - len(f.__defaults__ or ()))
                    if i >= 0:
                        out.append(Found("%s.__defaults__[%d]" % (p, i), f.__defaults__[i], Default(f, i)))
            src = s.sources.get(n.id, [])
            if src and n.id not in s.seen and all(e is not None for e, _ in src):
                s.seen.add(n.id)
                rs = [(self.resolve(e), inside) for e, inside in src]
                s.seen.discard(n.id)
                if all(r for r, _ in rs):
                    out += [Found(f.path, None if inside else f.value, f.slot, f.inside or inside) for r, inside in rs for f in r]
            return out
        if isinstance(n, ast.Attribute):
            out = []
            for f in self.resolve(n.value):
                o = f.value
                if f.inside:
                    out.append(f)
                    continue
                p = "%s.%s" % (o.__name__ if isinstance(o, types.ModuleType) and o.__name__ in self.w.modules else f.path, n.attr)
                if n.attr in getattr(o, "__dict__", {}):
                    out.append(Found(p, o.__dict__[n.attr], Attr(o, n.attr)))
            return out
        if isinstance(n, ast.Subscript):
            return [Found(f.path, None, f.slot, True) for f in self.resolve(n.value) if f.slot is not None and (f.inside or type(f.value) in BOXES)]
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("get", "setdefault", "values", "items", "__getitem__"):
                return [Found(f.path, None, f.slot, True) for f in self.resolve(n.func.value)
                        if f.slot is not None and (f.inside or type(f.value) in BOXES)]
            if isinstance(n.func, ast.Name) and n.func.id == "getattr" and len(n.args) >= 2 and isinstance(n.args[1], ast.Constant):
                return self.resolve(ast.Attribute(n.args[0], str(n.args[1].value), ast.Load()))
        return []

    def store(self, t):
        if not self.scopes:
            return
        if isinstance(t, ast.Name):
            if t.id in self.scopes[-1].glob:
                self.cell("%s.%s" % (self.mod.__name__, t.id), Attr(self.mod, t.id))
            elif t.id in self.scopes[-1].free:
                for f in self.closed(t.id):
                    self.cell(f.path, f.slot)
        elif isinstance(t, ast.Attribute):
            for f in self.resolve(t.value):
                self.attribute(f, t.attr)
        elif isinstance(t, ast.Subscript):
            if isinstance(t.value, ast.Call) and isinstance(t.value.func, ast.Name) and t.value.func.id == "globals" \
                    and isinstance(t.slice, ast.Constant):
                self.cell("%s.%s" % (self.mod.__name__, t.slice.value), Attr(self.mod, t.slice.value))
            else:
                self.container(t.value)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.store(x)
        elif isinstance(t, ast.Starred):
            self.store(t.value)

    def attribute(self, f, name):
        o = f.value
        if f.inside:
            self.cell(f.path, f.slot)
        elif isinstance(o, types.ModuleType):
            if o.__name__ in self.w.modules:
                self.cell("%s.%s" % (o.__name__, name), Attr(o, name))
        elif isinstance(o, (types.FunctionType, type)) or type(o).__module__.startswith("pysolar"):
            self.cell("%s.%s" % (f.path, name), Attr(o, name))

    def container(self, n):
        for f in self.resolve(n):
            if f.slot is not None and (f.inside and not frozen(f.slot.get()) or not f.inside and type(f.value) in BOXES):
                self.cell(f.path, f.slot)

    def visit_Assign(self, n):
        for t in n.targets:
            self.store(t)
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.store(n.target)
        if isinstance(n, ast.AugAssign) and self.scopes and isinstance(n.target, (ast.Name, ast.Attribute)):
            self.container(n.target)
        self.generic_visit(n)
    visit_AnnAssign = visit_For = visit_NamedExpr = visit_AugAssign

    def visit_Delete(self, n):
        for t in n.targets:
            self.store(t)
        self.generic_visit(n)

    def visit_withitem(self, n):
        if n.optional_vars is not None:
            self.store(n.optional_vars)
        self.generic_visit(n)

    def visit_Call(self, n):
        if self.scopes and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
            self.container(n.func.value)
        if self.scopes and isinstance(n.func, ast.Name) and n.func.id in ("setattr", "delattr") and len(n.args) >= 2 \
                and isinstance(n.args[1], ast.Constant):
            for f in self.resolve(n.args[0]):
                self.attribute(f, str(n.args[1].value))
        self.generic_visit(n)


def find(world):
    """{path: where it is kept} of the cells that functions of the library assign"""
    out = {}
    world.writers = set()
    live = {"func": [], "obj": []}
    for kind, path, o, _ in world.snapshot():
        if kind in live:
            live[kind].append((path, o))
    for name, m in list(world.modules.items()):
        if not isinstance(m, types.ModuleType) or name not in world.files:
            continue
        s = _Scan(world, m, live)
        s.visit(ast.parse(open(world.files[name], encoding="utf-8").read()))
        out.update(s.found)
        world.writers |= s.writers
    return out


def leading_to(world):
    """names of the functions that assign a cell or (going by names) call one that does"""
    uses = {}
    for name in world.files:
        for d in ast.parse(open(world.files[name], encoding="utf-8").read()).body:
            for f in [d] if isinstance(d, ast.FunctionDef) else d.body if isinstance(d, ast.ClassDef) else ():
                if isinstance(f, ast.FunctionDef):
                    uses.setdefault(f.name, set()).update(x.id if isinstance(x, ast.Name) else x.attr for x in ast.walk(f)
                                                          if isinstance(x, (ast.Name, ast.Attribute)))
                    if isinstance(d, ast.ClassDef):
                        uses.setdefault(d.name, set()).add(f.name)
    out = set(world.writers)
    while True:
        new = {f for f, u in uses.items() if u & out} - out
        if not new:
            return out
        out |= new


def paths(snap, found):
    """the names under which a heap difference lists these cells"""
    attrs = {s.id for s in found.values() if type(s) is Attr}
    closed = {s.id for s in found.values() if type(s) is Closed}
    fns = {s.id[0] for s in found.values() if type(s) is Default}
    owners = {a[0] for a in attrs}
    out = set()
    for kind, path, o, _ in snap:
        if kind == "func":
            out |= {"%s.__closure__[%d]" % (path, i) for i, c in enumerate(o.__closure__ or ()) if id(c) in closed}
            if id(o) in fns:
                out.add(path + ".__defaults__")
        if id(o) in owners:
            out |= {"%s.%s" % (path, k) for i, k in attrs if i == id(o)}
    return out


def _get(o, k):
    raise AssertionError        # only stands for "no value"


def _together(slots, choose):
    """with many cells that start out empty, all of them are empty or all hold something unknown"""
    if sum(1 for s in slots if s.get() is None or s.get() is _get or type(s.get()) is Opaque) <= 3:
        return choose
    first = []

    def f(options):
        if not first:
            first.append(choose((0, 1)))
        return options[first[0]]
    return f


def _arbitrary(path, v, choose):
    _n[0] += 1
    if isinstance(v, bool):
        return tm.var("state %s %d" % (path, _n[0]), "B")
    if isinstance(v, int) or isinstance(v, T) and v.sort == "I":
        return tm.var("state %s %d" % (path, _n[0]), "I")
    if isinstance(v, (float, Fraction, T)):
        return tm.var("state %s %d" % (path, _n[0]), "R")
    if v is None or v is _get:
        return choose([v, OPAQUE])
    if type(v) in BOXES:
        return BOXES[type(v)].__new__(BOXES[type(v)])
    return OPAQUE


def havoc(world, choose):
    """give every cell an arbitrary value; returns what restores them"""
    choose = _together(world.cells.values(), choose)
    old = []
    for path, slot in sorted(world.cells.items()):
        v = slot.get()
        old.append((path, slot, v))
        x = _arbitrary(path, v, choose)
        if x is not _get:
            slot.set(x)
    return old


def again(old, choose):
    """other code ran: the cells hold other arbitrary values"""
    choose = _together([slot for _, slot, _ in old], choose)
    for path, slot, v in old:
        x = _arbitrary(path, v, choose)
        if x is _get:
            if slot.get() is not _get:
                slot.drop()
        else:
            slot.set(x)


def unhavoc(old):
    for path, slot, v in old:
        if v is _get:
            if slot.get() is not _get:
                slot.drop()
        elif slot.get() is not v:
            slot.set(v)


def other_kinds(old):
    """cells that now hold something outside what havoc() covers"""
    out = []
    for path, slot, v in old:
        x = slot.get()
        sort = "B" if isinstance(v, bool) else "I" if isinstance(v, int) or isinstance(v, T) and v.sort == "I" else \
            "R" if isinstance(v, (float, Fraction, T)) else None
        if sort is None:
            continue
        ok = isinstance(x, T) and x.sort in {"B": "B", "I": "BI", "R": "BIR"}[sort] or isinstance(x, bool) \
            or isinstance(x, int) and sort in "IR" or isinstance(x, (float, Fraction)) and not tm.isspecial(x) and sort == "R"
        if not ok:
            out.append("%s, with a value of another kind" % path)
    return out
