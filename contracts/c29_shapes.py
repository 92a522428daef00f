"""C29 the representation registry resolves exactly the registered representation."""
from asyncz.shapes import registry as module
from asyncz.shapes.base import Shape
from asyncz.shapes.builtins import AnyShape, DataclassShape
from asyncz.shapes.errors import ShapeError, ShapeNotFoundError, ShapeRegistrationError

Registry = module.ShapeRegistry

NOTE = ("register, unregister, get, resolve and the two public helpers are verified for a registry of any content and every "
        "name; each leaves every other name's registration as it was. The listing of names is checked for up to three "
        "arbitrary registrations.")
ASSUMPTIONS = ["the registered representation is one of three representative classes (the code never distinguishes them "
               "beyond being a Shape class)"]


class _A(DataclassShape):
    pass


class _B(AnyShape):
    pass


class _NotShape:
    pass


KINDS = (_A, _B, Shape)
NAMES = ("pydantic", "msgspec", "a", "b", "", "any", "Pydantic")


def shape_codec():
    from pyvc.values import Codec, IntC, eng
    import z3

    def dec(t):
        for i, c in enumerate(KINDS[:-1]):
            if eng().branch(t[0] == i):
                return c
        return KINDS[-1]

    def enc(v):
        from pyvc.values import Unsupported
        if v not in KINDS:
            raise Unsupported("encode shape class")
        return (z3.IntVal(KINDS.index(v)),)

    return Codec((z3.IntSort(),), dec, enc, "shape class")


class State:
    """a registry of arbitrary content and what it said before the call"""

    def __init__(self, E):
        self.E = E
        if E.sym:
            from pyvc.values import SMap
            self.live = SMap.fresh(shape_codec(), "registry")
            self.old = self.live.copy()
        else:
            n = E.int("registered", 0, len(NAMES))
            self.live = {k: KINDS[E.int(f"kind{i}", 0, 2)] for i, k in enumerate(NAMES[:n])}
            self.old = dict(self.live)
        E.patch(Registry, "_registry", self.live)

    def name(self, label="name"):
        return self.E.key(label) if self.E.sym else self.E.choice(label, *NAMES, "other")

    def now(self):
        return Registry._registry

    def known(self, name):
        return self.E.truth(self.E.in_(name, self.old))

    def had(self, name):
        return self.old[name]

    def unchanged(self, but=None):
        E, now = self.E, self.now()
        if not E.sym:
            rest = lambda d: {k: v for k, v in d.items() if but is None or k != but}
            E.prove("every other registration is as before", rest(now) == rest(self.old))
            return
        o = E.key("any other name")
        if but is not None:
            E.assume(E.neg(o == but))
        was = self.known(o)
        E.prove("no other name appears or disappears", E.iff(E.in_(o, now), was))
        if was:
            E.prove("every other registration is as before", now[o] is self.old[o])


def register(E):
    s = State(E)
    good = E.choice("a proper name", True, False)
    name = s.name() if good else E.choice("improper name", None, 3, b"x", "")
    shape = E.choice("what", *KINDS, _NotShape, "pydantic", None, 5, _Inst)
    shape = _A() if shape is _Inst else shape
    replace = E.choice("replace", True, False, "unspecified")
    kw = {} if replace == "unspecified" else {"replace": replace}
    how = E.choice("how", "registry", "decorator")
    if how == "registry":
        r = E.run_call(Registry.register, name, shape, **kw)
    else:
        r = E.run_call(module.register_shape, name, **kw)
        if r.ok:
            r = E.run_call(r.value, shape)
    valid = good and E.truth(name != "") and any(shape is k for k in KINDS)
    known = valid and s.known(name)
    if not valid or (known and replace is not True):
        E.prove("an improper name, a non-shape or a taken name is refused", r.raised(ShapeRegistrationError))
        s.unchanged()
        E.reached("refused")
        return
    E.prove("otherwise accepted", r.ok)
    E.prove("the class is returned", r.value is shape)
    E.prove("the name now stands for the class", E.and_(E.in_(name, s.now()), s.now()[name] is shape))
    s.unchanged(name)
    E.reached("registered")


class _Inst:
    pass


def unregister(E):
    s = State(E)
    name = s.name()
    known = s.known(name)
    r = E.run_call(Registry.unregister, name)
    if known:
        E.prove("succeeds", r.ok)
        E.prove("the name is gone", E.neg(E.in_(name, s.now())))
        s.unchanged(name)
    else:
        E.prove("an unknown name is an error", r.raised(ShapeNotFoundError))
        s.unchanged()
    E.reached("done")


def resolve(E):
    s = State(E)
    what = E.choice("given", "nothing", "name", "class", "instance", "shape base class", "other")
    how = E.choice("how", "helper", "registry", "get")
    if how == "get" and what != "name":
        E.assume(False)
    name, inst = None, None
    if what == "name":
        name = given = s.name()
    elif what == "nothing":
        name, given = "pydantic", None
    elif what == "class":
        given = E.choice("class", _A, _B)
    elif what == "shape base class":
        given = Shape
    elif what == "instance":
        inst = given = E.choice("class", _A, _B)()
    else:
        given = E.choice("junk", 3, _NotShape, _NotShape(), ["pydantic"], b"pydantic", True)
    if how == "helper":
        r = E.run_call(module.resolve_shape) if what == "nothing" and E.choice("implicit", True, False) \
            else E.run_call(module.resolve_shape, given)
    elif how == "registry":
        r = E.run_call(Registry.resolve, given)
    else:
        r = E.run_call(Registry.get, given)
    if name is not None:
        if s.known(name):
            E.prove("a registered name resolves", r.ok)
            E.prove("to a representation of the class registered under it", type(r.value) is s.had(name))
        else:
            E.prove("an unknown name is an error", r.raised(ShapeNotFoundError))
    elif what == "other":
        E.prove("anything else is an error", r.raised(ShapeError))
    elif what == "instance":
        E.prove("an instance stands for itself", r.ok and r.value is inst)
    else:
        E.prove("a class gives an instance of it", r.ok and type(r.value) is given)
    s.unchanged()
    E.reached("resolved")


def available(E):
    n = E.int("registered", 0, 3)
    if E.sym:
        E.bounded.add("up to three registrations")
    names = []
    for i in range(3):
        if E.truth(i < n):
            k = E.key(f"name{i}") if E.sym else E.choice(f"name{i}", *NAMES)
            if E.truth(E.or_(*[k == x for x in names])) if names else False:
                E.assume(False)
            names.append(k)
    live = E.dict([(k, KINDS[i]) for i, k in enumerate(names)])
    E.patch(Registry, "_registry", live)
    r = E.run_call(Registry.available)
    E.prove("returns", r.ok)
    got = list(r.value)
    E.prove("a tuple with every name once", E.and_(isinstance(r.value, tuple), len(got) == len(names)))
    for k in names:
        E.prove("every name is listed", E.or_(*[g == k for g in got]))
    for a, b in zip(got, got[1:]):
        E.prove("in order", a < b)
    E.reached("listed")


UNITS = [register, unregister, resolve, available]


def history(E):
    """any sequence of operations against a reference dictionary (bounded: sampled)"""
    ref = {}
    E.patch(Registry, "_registry", {})
    for i in range(E.int("steps", 1, 12)):
        op = E.choice(f"op{i}", "register", "replace", "unregister", "get", "list", "resolve")
        name = E.choice(f"name{i}", *NAMES, "other")
        shape = KINDS[E.int(f"kind{i}", 0, 1)]
        if op in ("register", "replace"):
            r = E.run_call(Registry.register, name, shape, replace=op == "replace")
            if not name or (name in ref and op == "register"):
                E.prove("refused", r.raised(ShapeRegistrationError))
            else:
                E.prove("registered", r.ok and r.value is shape)
                ref[name] = shape
        elif op == "unregister":
            r = E.run_call(Registry.unregister, name)
            E.prove("removed exactly when known", r.ok if ref.pop(name, None) else r.raised(ShapeNotFoundError))
        elif op == "list":
            E.prove("the registered names in order", Registry.available() == tuple(sorted(ref)))
        else:
            r = E.run_call(Registry.get if op == "get" else module.resolve_shape, name)
            E.prove("resolved exactly as registered",
                    (r.ok and type(r.value) is ref[name]) if name in ref else r.raised(ShapeNotFoundError))
    E.reached("end of the history")


RUNTIME = [history]
