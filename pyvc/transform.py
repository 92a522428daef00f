"""Mechanical extraction of the real functions.

Each function under verification is taken from /repo's source text on every run
(`ast.parse` of the file that CPython imported the function from), rewritten so
that every operation whose operands may be symbolic goes through the verifier
(`__vc.*`), compiled, and executed.  Nothing is transcribed by hand.

What the rewriting drops: decorators (contextmanager is re-applied), annotations,
docstrings.  What it changes: calls, attribute loads, subscripts, `is`/`in` tests,
displays, comprehensions, f-strings and loops become calls of the verifier.
"""
from __future__ import annotations

import ast
import types

_files: dict[str, dict] = {}


def _index(filename: str) -> dict:
    if filename not in _files:
        with open(filename, encoding="utf-8") as fh:
            src = fh.read()
        tree = ast.parse(src, filename)
        idx: dict = {}
        for node in ast.walk(tree):
            if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                line = node.lineno
                if node.decorator_list:
                    line = min(line, min(d.lineno for d in node.decorator_list))
                idx[(node.name, line)] = node
            elif isinstance(node, ast.Lambda):
                idx.setdefault(("<lambda>", node.lineno), node)
        _files[filename] = idx
    return _files[filename]


VC = "__vc"


def _name(n, ctx=None):
    return ast.Name(id=n, ctx=ctx or ast.Load())


def _vc(attr):
    return ast.Attribute(value=_name(VC), attr=attr, ctx=ast.Load())


def _call(attr, *args, keywords=()):
    return ast.Call(func=_vc(attr), args=list(args), keywords=list(keywords))


def _const(v):
    return ast.Constant(value=v)


def _lam(body, args=()):
    return ast.Lambda(
        args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=a) for a in args], kwonlyargs=[],
                           kw_defaults=[], defaults=[]),
        body=body,
    )


def _assigned(nodes):
    """Names bound by statements (not descending into nested functions/classes)."""
    out: list[str] = []

    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            out.append(n.name)

        visit_AsyncFunctionDef = visit_FunctionDef

        def visit_ClassDef(self, n):
            out.append(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass

        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.append(n.id)

        def visit_ExceptHandler(self, n):
            if n.name:
                out.append(n.name)
            self.generic_visit(n)

    for n in nodes:
        V().visit(n)
    return sorted(set(x for x in out if not x.startswith("__vc")))


_INPLACE = {"append", "extend", "insert", "update", "pop", "popleft", "clear", "add", "remove", "discard",
            "appendleft", "setdefault", "popitem", "sort", "reverse"}


def _inplace(nodes):
    """Names whose object is (syntactically) modified in place by the statements."""
    out: set[str] = set()
    for top in nodes:
        for n in ast.walk(top):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in _INPLACE \
                    and isinstance(n.func.value, ast.Name):
                out.add(n.func.value.id)
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) \
                    and isinstance(n.value, ast.Name):
                out.add(n.value.id)
            elif isinstance(n, ast.AugAssign):
                t = n.target
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
                    out.add(t.value.id)
    return sorted(out)


class Rewriter(ast.NodeTransformer):
    def __init__(self, key):
        self.key = key  # function key, for loop identification
        self.loops = 0
        self.scopes = []  # names local to the enclosing functions
        self.tmp = 0

    def fresh(self, base):
        self.tmp += 1
        return f"__vc_{base}{self.tmp}"

    # ---- expressions -------------------------------------------------
    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in ("super", "locals") and not node.args:
            return node
        func = self.visit(node.func)
        args = [self.visit(a) for a in node.args]
        kws = [ast.keyword(arg=k.arg, value=self.visit(k.value)) for k in node.keywords]
        return ast.copy_location(_call("call", func, *args, keywords=kws), node)

    def visit_Starred(self, node):
        return ast.copy_location(ast.Starred(value=_call("star", self.visit(node.value)), ctx=node.ctx), node) \
            if isinstance(node.ctx, ast.Load) else node

    def visit_Attribute(self, node):
        value = self.visit(node.value)
        if isinstance(node.ctx, ast.Load):
            if isinstance(node.value, ast.Call) and isinstance(node.value.func, ast.Name) \
                    and node.value.func.id == "super":
                return ast.copy_location(ast.Attribute(value=value, attr=node.attr, ctx=node.ctx), node)
            return ast.copy_location(_call("getattr", value, _const(node.attr)), node)
        node.value = value
        return node

    def _slice(self, s):
        if isinstance(s, ast.Slice):
            g = lambda x: self.visit(x) if x is not None else _const(None)
            return ast.Call(func=_vc("slice"), args=[g(s.lower), g(s.upper), g(s.step)], keywords=[])
        return self.visit(s)

    def visit_Subscript(self, node):
        if isinstance(node.ctx, ast.Load):
            return ast.copy_location(_call("getitem", self.visit(node.value), self._slice(node.slice)), node)
        node.value = self.visit(node.value)
        node.slice = self.visit(node.slice)
        return node

    def visit_Compare(self, node):
        table = {ast.Is: "is_", ast.IsNot: "isnot", ast.In: "in_", ast.NotIn: "notin", ast.Eq: "eq",
                 ast.NotEq: "ne"}
        if len(node.ops) == 1:
            t = type(node.ops[0])
            left = self.visit(node.left)
            right = self.visit(node.comparators[0])
            if t in table:
                return ast.copy_location(_call(table[t], left, right), node)
            return ast.copy_location(ast.Compare(left=left, ops=node.ops, comparators=[right]), node)
        # a op b op c  ->  (a op (t := b)) and (t op c)
        parts = []
        left = node.left
        for i, (op, right) in enumerate(zip(node.ops, node.comparators)):
            if i < len(node.ops) - 1 and not isinstance(right, (ast.Constant, ast.Name)):
                t = self.fresh("c")
                parts.append(ast.Compare(left=left, ops=[op],
                                         comparators=[ast.NamedExpr(target=_name(t, ast.Store()), value=right)]))
                left = _name(t)
            else:
                parts.append(ast.Compare(left=left, ops=[op], comparators=[right]))
                left = right
        return ast.copy_location(ast.BoolOp(op=ast.And(), values=[self.visit(p) for p in parts]), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        return ast.copy_location(_call("binop", _const(type(node.op).__name__), node.left, node.right), node)

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit_JoinedStr(v.format_spec) if v.format_spec is not None else _const("")
                parts.append(_call("fmt", self.visit(v.value), _const(v.conversion), spec))
        return ast.copy_location(_call("fstr", *parts), node)

    def visit_List(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return ast.copy_location(_call("mklist", node), node)
        return node

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(_call("mkset", ast.List(elts=node.elts, ctx=ast.Load())), node)

    def visit_Dict(self, node):
        items = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                items.append(ast.Tuple(elts=[_const(True), self.visit(v)], ctx=ast.Load()))
            else:
                items.append(ast.Tuple(elts=[_const(False), self.visit(k), self.visit(v)], ctx=ast.Load()))
        return ast.copy_location(_call("mkdict", ast.List(elts=items, ctx=ast.Load())), node)

    def _comp(self, node, kind):
        # single synchronous generator over a (possibly symbolic) iterable
        if len(node.generators) == 1 and not node.generators[0].is_async and self._simple_target(
                node.generators[0].target) and not self._has_await(node):
            g = node.generators[0]
            tgt = g.target
            if isinstance(tgt, ast.Name):
                names, unpack = [tgt.id], False
            else:
                names, unpack = [e.id for e in tgt.elts], True
            cond = ast.BoolOp(op=ast.And(), values=g.ifs) if len(g.ifs) > 1 else (g.ifs[0] if g.ifs else None)
            clam = _lam(self.visit(cond), names) if cond is not None else _const(None)
            if kind == "dict":
                elt = ast.Tuple(elts=[node.key, node.value], ctx=ast.Load())
            else:
                elt = node.elt
            elam = _lam(self.visit(elt), names)
            return ast.copy_location(
                _call("comp", _const(kind), self.visit(g.iter), clam, elam,
                      _const(len(names) if unpack else 0)), node)
        self.generic_visit(node)
        for g in node.generators:
            if not g.is_async:
                g.iter = _call("iter", g.iter)
        if kind == "list":
            return ast.copy_location(_call("mklist", node), node)
        if kind == "set":
            lc = ast.ListComp(elt=node.elt, generators=node.generators)
            return ast.copy_location(_call("mkset", lc), node)
        if kind == "dict":
            lc = ast.ListComp(elt=ast.Tuple(elts=[_const(False), node.key, node.value], ctx=ast.Load()),
                              generators=node.generators)
            return ast.copy_location(_call("mkdict", lc), node)
        return node

    @staticmethod
    def _has_await(node):
        return any(isinstance(n, (ast.Await, ast.NamedExpr)) for n in ast.walk(node))

    @staticmethod
    def _simple_target(t):
        return isinstance(t, ast.Name) or (
            isinstance(t, ast.Tuple) and all(isinstance(e, ast.Name) for e in t.elts)
            and len({e.id for e in t.elts}) == len(t.elts))

    def visit_ListComp(self, node):
        return self._comp(node, "list")

    def visit_SetComp(self, node):
        return self._comp(node, "set")

    def visit_GeneratorExp(self, node):
        return self._comp(node, "gen")

    def visit_DictComp(self, node):
        return self._comp(node, "dict")

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return ast.copy_location(_call("not_", node.operand), node)
        return node

    # ---- statements --------------------------------------------------
    def visit_AnnAssign(self, node):
        if node.value is None:
            if isinstance(node.target, ast.Name):
                node.annotation = _const(None)
                return node
            return ast.copy_location(ast.Pass(), node)
        return self.visit(ast.copy_location(ast.Assign(targets=[node.target], value=node.value), node))

    def visit_Assign(self, node):
        value = self.visit(node.value)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            return ast.copy_location(
                ast.Expr(value=_call("setitem", self.visit(t.value), self._slice(t.slice), value)), node)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Attribute) and not (
                node.targets[0].attr.startswith("__") and not node.targets[0].attr.endswith("__")):
            t = node.targets[0]
            return ast.copy_location(
                ast.Expr(value=_call("setattr", self.visit(t.value), _const(t.attr), value)), node)
        if len(node.targets) == 1 and isinstance(node.targets[0], (ast.Tuple, ast.List)) and not any(
                isinstance(e, (ast.Starred, ast.Subscript)) for e in node.targets[0].elts):
            t = self.visit(node.targets[0])
            return ast.copy_location(
                ast.Assign(targets=[t], value=_call("unpack", value, _const(len(t.elts)))), node)
        node.value = value
        node.targets = [self.visit(t) for t in node.targets]
        return node

    def visit_AugAssign(self, node):
        value = self.visit(node.value)
        op = _const(type(node.op).__name__)
        t = node.target
        if isinstance(t, ast.Subscript):
            o, k = self.fresh("o"), self.fresh("k")
            return [ast.copy_location(s, node) for s in (
                ast.Assign(targets=[_name(o, ast.Store())], value=self.visit(t.value)),
                ast.Assign(targets=[_name(k, ast.Store())], value=self._slice(t.slice)),
                ast.Expr(value=_call("setitem", _name(o), _name(k),
                                     _call("iop", op, _call("getitem", _name(o), _name(k)), value))))]
        if isinstance(t, ast.Attribute):
            o = self.fresh("o")
            return [ast.copy_location(s, node) for s in (
                ast.Assign(targets=[_name(o, ast.Store())], value=self.visit(t.value)),
                ast.Expr(value=_call("setattr", _name(o), _const(t.attr),
                                     _call("iop", op, _call("getattr", _name(o), _const(t.attr)), value))))]
        return ast.copy_location(
            ast.Assign(targets=[_name(t.id, ast.Store())], value=_call("iop", op, _name(t.id), value)), node)

    def visit_Delete(self, node):
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.Expr(value=_call("delitem", self.visit(t.value), self._slice(t.slice))))
            else:
                out.append(ast.Delete(targets=[t]))
        return [ast.copy_location(o, node) for o in out]

    def _inpl(self, node):
        """names modified in place; those that are no locals of this function are marked ^"""
        local = self.scopes[-1] if self.scopes else ()
        return tuple(n if n in local else "^" + n for n in _inplace([node]))

    def _loopvar_restore(self, lname, names):
        out = []
        for n in names:
            out.append(ast.If(
                test=ast.Call(func=ast.Attribute(value=_name(lname), attr="has", ctx=ast.Load()),
                              args=[_const(n)], keywords=[]),
                body=[ast.Assign(targets=[_name(n, ast.Store())],
                                 value=ast.Call(func=ast.Attribute(value=_name(lname), attr="val", ctx=ast.Load()),
                                                args=[_const(n)], keywords=[]))],
                orelse=[ast.If(
                    test=ast.Call(func=ast.Attribute(value=_name(lname), attr="gone", ctx=ast.Load()),
                                  args=[_const(n)], keywords=[]),
                    body=[ast.Delete(targets=[_name(n, ast.Del())])], orelse=[])]))
        return out

    def visit_While(self, node):
        ordinal = self.loops
        self.loops += 1
        mod = _assigned([node])
        inpl = self._inpl(node)
        test = self.visit(node.test)
        body = self._block(node.body)
        orelse = self._block(node.orelse)
        lname = self.fresh("l")
        head = ast.Call(func=ast.Attribute(value=_name(lname), attr="head", ctx=ast.Load()),
                        args=[ast.Call(func=_name("locals"), args=[], keywords=[])], keywords=[])
        restore = self._loopvar_restore(lname, [*mod, *(n for n in inpl if n not in mod and n[0] != '^')])
        # while True: if not head(): ... so that havocked values are re-bound before the test is evaluated
        # test evaluated inside:  while L.head(locals()): <restore>; if not test: <else>; break; body
        stop = self.fresh("e")
        inner = restore + [
            ast.If(test=_call("not_", test),
                   body=[ast.Assign(targets=[_name(stop, ast.Store())], value=_const(True)), ast.Break()],
                   orelse=[])] + body
        stmts = [
            ast.Assign(targets=[_name(lname, ast.Store())],
                       value=_call("loop", _const(self.key), _const(ordinal), _const("while"), _const(None),
                                   ast.Constant(value=tuple(mod)), ast.Constant(value=inpl))),
            ast.Assign(targets=[_name(stop, ast.Store())], value=_const(False)),
            ast.Try(body=[ast.While(test=head, body=inner, orelse=[])], handlers=[], orelse=[],
                    finalbody=[ast.Expr(value=ast.Call(func=ast.Attribute(value=_name(lname), attr="leave",
                                                                          ctx=ast.Load()), args=[], keywords=[]))]),
        ]
        if orelse:
            stmts.append(ast.If(test=_name(stop), body=orelse, orelse=[]))
        return [ast.copy_location(s, node) for s in stmts]

    def visit_For(self, node):
        ordinal = self.loops
        self.loops += 1
        mod = _assigned([node])
        inpl = self._inpl(node)
        it = self.visit(node.iter)
        target = self.visit(node.target)
        body = self._block(node.body)
        orelse = self._block(node.orelse)
        lname = self.fresh("l")
        head = ast.Call(func=ast.Attribute(value=_name(lname), attr="head", ctx=ast.Load()),
                        args=[ast.Call(func=_name("locals"), args=[], keywords=[])], keywords=[])
        restore = self._loopvar_restore(lname, [*mod, *(n for n in inpl if n not in mod and n[0] != '^')])
        item = ast.Call(func=ast.Attribute(value=_name(lname), attr="item", ctx=ast.Load()), args=[], keywords=[])
        if isinstance(target, (ast.Tuple, ast.List)) and not any(isinstance(e, ast.Starred) for e in target.elts):
            item = _call("unpack", item, _const(len(target.elts)))
        stop = self.fresh("e")
        done = ast.Call(func=ast.Attribute(value=_name(lname), attr="done", ctx=ast.Load()), args=[], keywords=[])
        inner = restore + [
            ast.If(test=done,
                   body=[ast.Assign(targets=[_name(stop, ast.Store())], value=_const(True)), ast.Break()],
                   orelse=[]),
            ast.Assign(targets=[target], value=item)] + body
        stmts = [
            ast.Assign(targets=[_name(lname, ast.Store())],
                       value=_call("loop", _const(self.key), _const(ordinal), _const("for"), it,
                                   ast.Constant(value=tuple(mod)), ast.Constant(value=inpl))),
            ast.Assign(targets=[_name(stop, ast.Store())], value=_const(False)),
            ast.Try(body=[ast.While(test=head, body=inner, orelse=[])], handlers=[], orelse=[],
                    finalbody=[ast.Expr(value=ast.Call(func=ast.Attribute(value=_name(lname), attr="leave",
                                                                          ctx=ast.Load()), args=[], keywords=[]))]),
        ]
        if orelse:
            stmts.append(ast.If(test=_name(stop), body=orelse, orelse=[]))
        return [ast.copy_location(s, node) for s in stmts]

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        # verifier control flow must never be swallowed
        name = node.name or self.fresh("x")
        node.name = name
        node.type = node.type or _name("BaseException")
        node.body = [ast.Expr(value=_call("guard", _name(name)))] + node.body
        return node

    def visit_With(self, node):
        self.generic_visit(node)
        return node

    def _block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if r is None:
                continue
            out.extend(r if isinstance(r, list) else [r])
        return out

    def visit_FunctionDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        self._strip(node)
        a = node.args
        shared = {n for x in ast.walk(node) if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names}
        self.scopes.append({x.arg for x in (*a.posonlyargs, *a.args, *a.kwonlyargs, *([a.vararg] if a.vararg else []),
                                            *([a.kwarg] if a.kwarg else []))} | set(_assigned(node.body)) - shared)
        node.body = self._block(node.body) or [ast.Pass()]
        self.scopes.pop()
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def _strip(self, node):
        a = node.args
        for x in (*a.posonlyargs, *a.args, *a.kwonlyargs, *( [a.vararg] if a.vararg else []),
                  *([a.kwarg] if a.kwarg else [])):
            x.annotation = None
        node.returns = None
        if hasattr(node, "type_params"):
            node.type_params = []
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [self.visit(d) if d is not None else None for d in a.kw_defaults]

    def visit_Global(self, node):
        return node


_cache: dict = {}


class ExtractionError(Exception):
    pass


def find_node(fn: types.FunctionType):
    code = fn.__code__
    idx = _index(code.co_filename)
    node = idx.get((code.co_name, code.co_firstlineno))
    if node is None:
        raise ExtractionError(f"source of {fn.__module__}.{fn.__qualname__} not found")
    return node


def instrument(fn: types.FunctionType, vc) -> types.FunctionType:
    """The rewritten twin of a real function, sharing its globals, closure and defaults."""
    key = fn.__code__
    if key in _cache and not fn.__closure__:
        new = _cache[key]
        if new.__defaults__ is not fn.__defaults__ or new.__kwdefaults__ is not fn.__kwdefaults__:
            new = types.FunctionType(new.__code__, new.__globals__, new.__name__, fn.__defaults__, new.__closure__)
            new.__kwdefaults__ = fn.__kwdefaults__
        return new
    import copy

    node = copy.deepcopy(find_node(fn))
    rw = Rewriter(f"{fn.__module__}:{fn.__qualname__}")
    if isinstance(node, ast.Lambda):
        lam = ast.Lambda(args=node.args, body=rw.visit(node.body))
        fname = "__vc_lambda"
        fdef: ast.stmt = ast.Return(value=lam)
        body = [fdef]
    else:
        node.decorator_list = []
        if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) \
                and isinstance(node.body[0].value.value, str):
            node.body = node.body[1:] or [ast.Pass()]
        a = node.args
        a.defaults = [_const(None) for _ in a.defaults]
        a.kw_defaults = [None if d is None else _const(None) for d in a.kw_defaults]
        node = rw.visit_FunctionDef(node)
        node.decorator_list = []
        body = [node, ast.Return(value=_name(node.name))]
    free = fn.__code__.co_freevars
    factory = ast.FunctionDef(
        name="__vc_factory",
        args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=f) for f in free], kwonlyargs=[], kw_defaults=[],
                           defaults=[]),
        body=body, decorator_list=[], returns=None, type_params=[])
    mod = ast.Module(body=[factory], type_ignores=[])
    ast.fix_missing_locations(mod)
    code = compile(mod, fn.__code__.co_filename, "exec")
    g = fn.__globals__
    g[VC] = vc
    ns: dict = {}
    exec(code, g, ns)
    cells = []
    for c in fn.__closure__ or ():
        try:
            cells.append(c.cell_contents)
        except ValueError:
            cells.append(None)
    new = ns["__vc_factory"](*cells)
    # share the real closure cells where the names line up (so later rebinding is seen)
    if fn.__closure__ and new.__closure__:
        real = dict(zip(free, fn.__closure__))
        new = types.FunctionType(new.__code__, g, new.__name__, None,
                                 tuple(real.get(n, c) for n, c in zip(new.__code__.co_freevars, new.__closure__)))
    new.__defaults__ = fn.__defaults__
    new.__kwdefaults__ = fn.__kwdefaults__
    new.__vc_of__ = fn
    if not fn.__closure__:
        _cache[key] = new
    INSTRUMENTED.add(new.__code__)
    for c in _codes(new.__code__):
        INSTRUMENTED.add(c)
    return new


INSTRUMENTED: set = set()


def _codes(code):
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            yield c
            yield from _codes(c)
