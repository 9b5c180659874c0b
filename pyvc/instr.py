"""Mechanical, semantics-preserving instrumentation of gpkit's source.

Applied to the text of every gpkit module found in /repo at each run; nothing
is copied by hand.  On ordinary (concrete) data each hook falls through to the
original operation.  What changes:
  * `for T in IT`        -> iterates _pv.loop(id, IT, names) (+ havoc hooks)
  * comprehensions       -> the same loops, via _pv.gen
  * `f(args)`            -> _pv.call(f, args)   (dispatch on symbolic args)
  * {..} [..] set/dict displays and the bases dict/set -> capable subclasses
  * `except:` handlers   -> let the engine's control exceptions through
  * `a in b`, `not a in b`, tuple unpacking, attribute stores, f-strings and
    `%` on strings       -> hooks that fall through on concrete data
Dropped: docstrings are kept; line numbers are kept; annotations are kept.
"""
import ast
import copy

PV = "_pv"


def _name(n, ctx=None):
    return ast.Name(id=n, ctx=ctx or ast.Load())


def _pv(attr):
    return ast.Attribute(value=_name(PV), attr=attr, ctx=ast.Load())


class Assigned(ast.NodeVisitor):
    def __init__(self):
        self.names = []

    def visit_Name(self, node):
        if isinstance(node.ctx, (ast.Store, ast.Del)) and \
                node.id not in self.names:
            self.names.append(node.id)

    def visit_FunctionDef(self, node):
        if node.name not in self.names:
            self.names.append(node.name)

    def visit_Lambda(self, node):
        pass

    def visit_ListComp(self, node):
        pass
    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

    def visit_ExceptHandler(self, node):
        # handler names are deleted at the end of the handler
        for s in node.body:
            self.visit(s)


def assigned(stmts, skip_target=None):
    v = Assigned()
    for s in stmts:
        v.visit(s)
    names = v.names
    return names


# generators of these modules collect what they yield in a list (laziness is
# what this drops), so that loops which yield can carry invariants
EAGER = ("gpkit.constraints.set",)


class Yields(ast.NodeTransformer):
    found = False

    def visit_Expr(self, node):
        v = node.value
        if not isinstance(v, (ast.Yield, ast.YieldFrom)):
            return self.generic_visit(node)
        self.found = True
        f = "gen_yield" if isinstance(v, ast.Yield) else "gen_from"
        return ast.copy_location(ast.Expr(ast.Call(
            func=_pv(f), args=[_name("pv_yielded"),
                               v.value or ast.Constant(None)],
            keywords=[])), node)

    def visit_Return(self, node):
        self.returns = True
        return node

    def _inner(self, node):
        return node
    visit_FunctionDef = visit_Lambda = visit_ClassDef = _inner


def eager(body):
    y = Yields()
    y.returns = False
    new = [y.visit(copy.deepcopy(s)) for s in body]
    if not y.found or y.returns:
        return body
    i = 1 if isinstance(body[0], ast.Expr) and isinstance(
        body[0].value, ast.Constant) else 0
    first = ast.copy_location(ast.Assign(
        targets=[_name("pv_yielded", ast.Store())], value=ast.Call(
            func=_pv("gen_new"), args=[], keywords=[])), body[0])
    last = ast.copy_location(ast.Return(ast.Call(
        func=_pv("gen_done"), args=[_name("pv_yielded")], keywords=[])),
        body[-1])
    return new[:i] + [first] + new[i:] + [last]


class Instr(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.n = 0
        self.loops = []
        self.globals_ = [set()]
        self.scope = [["<module>", 0, 0]]

    def fresh(self):
        self.n += 1
        return self.n

    def locid(self, mark=""):
        "module:function#k, the k-th loop (or comprehension) of a function"
        f = self.scope[-1]
        i = 2 if mark else 1
        f[i] += 1
        return "%s:%s#%s%d" % (self.mod, ".".join(
            x[0] for x in self.scope[1:]) or "<module>", mark, f[i])

    # ---- loops
    def visit_For(self, node):
        lid = self.fresh()
        locid = self.locid()
        it = self.visit(node.iter)
        self.loops.append("_pvl_%d" % lid)
        body = [self.visit(s) for s in node.body]
        body = _flat(body)
        self.loops.pop()
        orelse = _flat([self.visit(s) for s in node.orelse])
        names = assigned(node.body) + [n for n in assigned(
            [ast.Assign(targets=[copy.deepcopy(node.target)],
                        value=ast.Constant(0))])]
        names = list(dict.fromkeys(names))
        names = [n for n in names if n not in self.globals_[-1]
                 and not n.startswith("_pv")]
        var = "_pvl_%d" % lid
        elt = "_pve_%d" % lid
        out = []
        out.append(ast.Assign(
            targets=[_name(var, ast.Store())],
            value=ast.Call(func=_pv("loop"), args=[
                ast.Constant(locid), it,
                ast.Tuple(elts=[ast.Constant(n) for n in names],
                          ctx=ast.Load())], keywords=[])))
        guard = self.guard(var, names)
        tgt = self.assign(node.target, _name(elt))
        new = ast.For(
            target=_name(elt, ast.Store()), iter=_name(var),
            body=copy.deepcopy(guard) + tgt + body,
            orelse=copy.deepcopy(guard) + orelse)
        out.append(new)
        return [ast.copy_location(s, node) for s in out]

    def guard(self, var, names):
        restore = []
        for n in names:
            restore.append(ast.If(
                test=ast.Compare(left=ast.Constant(n), ops=[ast.In()],
                                 comparators=[ast.Attribute(
                                     value=_name(var), attr="loc",
                                     ctx=ast.Load())]),
                body=[ast.Assign(
                    targets=[_name(n, ast.Store())],
                    value=ast.Subscript(
                        value=ast.Attribute(value=_name(var), attr="loc",
                                            ctx=ast.Load()),
                        slice=ast.Constant(n), ctx=ast.Load()))],
                orelse=[]))
        guard = []
        if restore:
            guard = [ast.If(test=ast.Attribute(value=_name(var), attr="loc",
                                               ctx=ast.Load()),
                            body=restore, orelse=[])]
        return guard

    def visit_AsyncFor(self, node):
        raise SyntaxError("async for")

    def visit_While(self, node):
        """while C: B   ->   for _ in _pv.wloop(..): if not C: exit; break
                                                     B"""
        if node.orelse:
            self.loops.append(None)
            self.generic_visit(node)
            self.loops.pop()
            return node
        lid = self.fresh()
        locid = self.locid()
        var = "_pvl_%d" % lid
        test = self.visit(node.test)
        self.loops.append(var)
        body = _flat([self.visit(s) for s in node.body])
        self.loops.pop()
        names = [n for n in dict.fromkeys(assigned(node.body))
                 if n not in self.globals_[-1] and not n.startswith("_pv")]
        out = [ast.Assign(
            targets=[_name(var, ast.Store())],
            value=ast.Call(func=_pv("wloop"), args=[
                ast.Constant(locid),
                ast.Tuple(elts=[ast.Constant(n) for n in names],
                          ctx=ast.Load())], keywords=[])),
            ast.For(
                target=_name("_pve_%d" % lid, ast.Store()), iter=_name(var),
                body=self.guard(var, names) + [ast.If(
                    test=ast.UnaryOp(op=ast.Not(), operand=test),
                    body=[ast.Expr(ast.Call(func=ast.Attribute(
                        value=_name(var), attr="exit", ctx=ast.Load()),
                        args=[], keywords=[])), ast.Break()],
                    orelse=[])] + body,
                orelse=[])]
        return [ast.copy_location(s, node) for s in out]

    def visit_Break(self, node):
        if self.loops and self.loops[-1]:
            return [ast.copy_location(ast.Expr(ast.Call(
                func=ast.Attribute(value=_name(self.loops[-1]), attr="brk",
                                   ctx=ast.Load()), args=[], keywords=[])),
                node), node]
        return node

    # ---- comprehensions
    def _gen(self, elt, gens):
        """_pv.gen(id, IT, lambda __e: [elt for T in (__e,) if C ...])"""
        lid = self.fresh()
        locid = self.locid("c")
        g0 = gens[0]
        it = g0.iter
        arg = "_pvx_%d" % lid
        inner_gens = [ast.comprehension(
            target=g0.target,
            iter=ast.Tuple(elts=[_name(arg)], ctx=ast.Load()),
            ifs=[i for i in g0.ifs], is_async=0)]
        body = elt
        if len(gens) > 1:
            body = self._gen_nested(elt, gens[1:])
            lst = ast.ListComp(elt=body, generators=inner_gens)
            lst = ast.Call(func=_pv("flat"), args=[lst], keywords=[])
        else:
            lst = ast.ListComp(elt=body, generators=inner_gens)
        lam = ast.Lambda(
            args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=arg)],
                               kwonlyargs=[], kw_defaults=[], defaults=[]),
            body=lst)
        return ast.Call(func=_pv("gen"), args=[
            ast.Constant(locid), it, lam], keywords=[])

    def _gen_nested(self, elt, gens):
        return self._gen(elt, gens)

    def _comp(self, node, elt, wrap):
        # transform the children first
        elt = self.visit(elt)
        gens = []
        for g in node.generators:
            if g.is_async:
                raise SyntaxError("async comprehension")
            gens.append(ast.comprehension(
                target=g.target, iter=self.visit(g.iter),
                ifs=[self.visit(i) for i in g.ifs], is_async=0))
        gen = self._gen(elt, gens)
        if wrap:
            gen = ast.Call(func=_pv(wrap), args=[gen], keywords=[])
        return ast.copy_location(gen, node)

    def visit_ListComp(self, node):
        return self._comp(node, node.elt, "listcomp")

    def visit_SetComp(self, node):
        return self._comp(node, node.elt, "setcomp")

    def visit_GeneratorExp(self, node):
        return self._comp(node, node.elt, None)

    def visit_DictComp(self, node):
        return self._comp(node, ast.copy_location(
            ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), node),
            "dictcomp")

    # ---- calls
    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in (
                "super", "locals", "globals", "vars", "dir", "eval", "exec"):
            self.generic_visit(node)
            return node
        node = self.generic_visit(node)
        args = [ast.Starred(value=ast.copy_location(ast.Call(
            func=_pv("star"), args=[a.value], keywords=[]), a),
            ctx=ast.Load()) if isinstance(a, ast.Starred) else a
            for a in node.args]
        return ast.copy_location(ast.Call(
            func=_pv("call"), args=[node.func] + args,
            keywords=node.keywords), node)

    def visit_Raise(self, node):
        "the cause may be a variable of a loop, of which nothing is known"
        node = self.generic_visit(node)
        if node.cause is not None:
            node.cause = ast.copy_location(ast.Call(
                func=_pv("cause"), args=[node.cause], keywords=[]), node.cause)
        return node

    # ---- displays
    def visit_Dict(self, node):
        node = self.generic_visit(node)
        if any(k is None for k in node.keys):
            return node
        return ast.copy_location(ast.Call(
            func=_pv("mkdict"),
            args=[ast.Tuple(elts=[ast.Tuple(elts=[k, v], ctx=ast.Load())
                                  for k, v in zip(node.keys, node.values)],
                            ctx=ast.Load())], keywords=[]), node)

    def visit_List(self, node):
        node = self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return ast.copy_location(ast.Call(
                func=_pv("mklist"), args=[node], keywords=[]), node)
        return node

    def visit_Set(self, node):
        node = self.generic_visit(node)
        return ast.copy_location(ast.Call(
            func=_pv("mkset"),
            args=[ast.Tuple(elts=node.elts, ctx=ast.Load())],
            keywords=[]), node)

    # ---- comparisons `in`, `is`
    def visit_Compare(self, node):
        node = self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            c = ast.Call(func=_pv("contains"),
                         args=[node.comparators[0], node.left], keywords=[])
            if isinstance(node.ops[0], ast.NotIn):
                c = ast.UnaryOp(op=ast.Not(), operand=c)
            return ast.copy_location(c, node)
        return node

    # ---- `and`, `or` whose later operands have no effects
    def visit_BoolOp(self, node):
        ok = all(_pure_expr(v) for v in node.values[1:])
        node = self.generic_visit(node)
        if not ok:
            return node
        thunks = [ast.Lambda(args=ast.arguments(
            posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[],
            defaults=[]), body=v) for v in node.values]
        return ast.copy_location(ast.Call(
            func=_pv("boolop"), args=[ast.Constant(
                isinstance(node.op, ast.Or))] + thunks, keywords=[]), node)

    # ---- assignments
    def assign(self, target, value):
        if isinstance(target, (ast.Tuple, ast.List)) and not any(
                isinstance(t, ast.Starred) for t in target.elts):
            value = ast.Call(func=_pv("unpack"),
                             args=[value, ast.Constant(len(target.elts))],
                             keywords=[])
        return [ast.Assign(targets=[target], value=value)]

    def visit_Assign(self, node):
        node.value = self.visit(node.value)
        node.targets = [self.visit(t) for t in node.targets]
        if len(node.targets) == 1:
            t = node.targets[0]
            if isinstance(t, (ast.Tuple, ast.List)) and not any(
                    isinstance(x, ast.Starred) for x in t.elts):
                if not (isinstance(node.value, ast.Tuple)
                        and len(node.value.elts) == len(t.elts)):
                    node.value = ast.copy_location(ast.Call(
                        func=_pv("unpack"),
                        args=[node.value, ast.Constant(len(t.elts))],
                        keywords=[]), node)
        pre = self.attr_hooks(node.targets, node)
        return pre + [node] if pre else node

    def attr_hooks(self, targets, node):
        "record attribute stores (frame conditions) before they happen"
        out = []
        for t in targets:
            for a in ast.walk(t):
                if isinstance(a, ast.Attribute) and \
                        isinstance(a.ctx, (ast.Store, ast.Del)) and \
                        _simple(a.value):
                    v = copy.deepcopy(a.value)
                    out.append(ast.copy_location(ast.Expr(ast.Call(
                        func=_pv("attrset"),
                        args=[v, ast.Constant(a.attr)], keywords=[])), node))
        return out

    def visit_AugAssign(self, node):
        node.value = self.visit(node.value)
        node.target = self.visit(node.target)
        pre = self.attr_hooks([node.target], node)
        return pre + [node] if pre else node

    def visit_Delete(self, node):
        node = self.generic_visit(node)
        pre = self.attr_hooks(node.targets, node)
        return pre + [node] if pre else node

    # ---- exceptions
    def visit_Try(self, node):
        node = self.generic_visit(node)
        if node.handlers:
            h = ast.ExceptHandler(type=_pv("Control"), name=None,
                                  body=[ast.Raise()])
            node.handlers.insert(0, ast.copy_location(h, node))
        return node

    # ---- class bases
    def visit_ClassDef(self, node):
        for i, b in enumerate(node.bases):
            if isinstance(b, ast.Name) and b.id in ("dict", "set", "list"):
                node.bases[i] = ast.copy_location(
                    _pv({"dict": "PvDict", "set": "PvSet",
                         "list": "PvListBase"}[b.id]), b)
        deco = node.decorator_list
        node.decorator_list = []
        saved, self.loops = self.loops, []
        self.scope.append([node.name, 0, 0])
        node.body = _flat([self.visit(s) for s in node.body])
        self.scope.pop()
        self.loops = saved
        node.decorator_list = deco
        return node

    def visit_FunctionDef(self, node):
        saved, self.loops = self.loops, []
        g = set()
        for s in ast.walk(node):
            if isinstance(s, (ast.Global, ast.Nonlocal)):
                g.update(s.names)
        self.globals_.append(g)
        if self.mod in EAGER:
            node.body = eager(node.body)
        node.args = self.visit(node.args)
        self.scope.append([node.name, 0, 0])
        node.body = _flat([self.visit(s) for s in node.body])
        self.scope.pop()
        self.globals_.pop()
        self.loops = saved
        return node

    def visit_Lambda(self, node):
        saved, self.loops = self.loops, []
        node = self.generic_visit(node)
        self.loops = saved
        return node

    def visit_JoinedStr(self, node):
        node = self.generic_visit(node)
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                v = ast.Tuple(elts=[
                    v.value, ast.Constant(v.conversion),
                    v.format_spec or ast.Constant("")], ctx=ast.Load())
            parts.append(v)
        return ast.copy_location(ast.Call(func=_pv("fstr"), args=parts,
                                          keywords=[]), node)

    def visit_BinOp(self, node):
        node = self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) \
                and isinstance(node.left.value, str):
            return ast.copy_location(ast.Call(
                func=_pv("fmt"), args=[node.left, node.right], keywords=[]),
                node)
        return node


def _simple(e):
    return isinstance(e, (ast.Name, ast.Constant)) or (
        isinstance(e, ast.Attribute) and _simple(e.value)) or (
        isinstance(e, ast.Subscript) and _simple(e.value)
        and isinstance(e.slice, (ast.Name, ast.Constant)))


def _pure_expr(v):
    "comparisons of arithmetic on variables: no effects"
    if isinstance(v, (ast.Name, ast.Constant)):
        return True
    if isinstance(v, ast.Attribute):
        return _pure_expr(v.value)
    if isinstance(v, ast.Compare):
        return all(_pure_expr(x) for x in [v.left] + v.comparators) and \
            not any(isinstance(o, (ast.In, ast.NotIn)) for o in v.ops)
    if isinstance(v, (ast.BinOp, ast.UnaryOp, ast.BoolOp)):
        return all(_pure_expr(x) for x in ast.iter_child_nodes(v)
                   if isinstance(x, ast.expr))
    if isinstance(v, ast.Call):
        return isinstance(v.func, ast.Name) and v.func.id in ("abs", "len") \
            and all(_pure_expr(x) for x in v.args) and not v.keywords
    return False


def _flat(stmts):
    out = []
    for s in stmts:
        if isinstance(s, list):
            out.extend(s)
        elif s is not None:
            out.append(s)
    return out


def instrument(src, filename, modname):
    tree = ast.parse(src, filename)
    ins = Instr(modname)
    tree.body = _flat([ins.visit(s) for s in tree.body])
    # bring the runtime into scope after any docstring / __future__ import
    imp = ast.Import(names=[ast.alias(name="pyvc.rt", asname=None)])
    bind = ast.Assign(targets=[_name(PV, ast.Store())],
                      value=ast.Attribute(value=_name("pyvc"), attr="rt",
                                          ctx=ast.Load()))
    i = 0
    if tree.body and isinstance(tree.body[0], ast.Expr) and isinstance(
            tree.body[0].value, ast.Constant):
        i = 1
    while i < len(tree.body) and isinstance(tree.body[i], ast.ImportFrom) \
            and tree.body[i].module == "__future__":
        i += 1
    tree.body[i:i] = [imp, bind]
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec"), ins.n
