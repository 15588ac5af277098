"""
Mechanical, meaning-preserving instrumentation of the source under test, done afresh on every run.

What is rewritten (inside functions only):
* for/while loops            -> calls of the loop rules, the loop body becoming a closure over the same variables
* comprehensions             -> the equivalent explicit loops
* [..] displays              -> tracked lists;  {..} displays are noted as new objects
* x is y, a % b, a[k], a op= b, obj.attr = v, a[k] = v, del, f-strings, calls of builtins, of .join() and of methods that
  change a container, which C code could not do on symbols, or which the loop rules must know about
Nothing is dropped: statements that can't be rewritten (loops with yield) are left as they are, and then run natively.
"""
import ast

BUILTINS = {
    "len", "int", "bool", "float", "bytes", "bytearray", "memoryview", "set", "frozenset", "list", "tuple", "range",
    "enumerate", "any", "all", "min", "max", "sum", "sorted", "divmod", "abs", "zip", "str", "repr", "reversed", "filter",
    "map", "isinstance", "next", "iter", "dict", "pow", "type", "round",
}

MUTATORS = {"add", "discard", "remove", "pop", "popitem", "clear", "setdefault", "update", "append", "extend", "insert", "sort",
            "reverse", "appendleft", "popleft"}


def _assigned(nodes):
    """names bound by the statements, in this scope"""
    out = []

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.append(n.id)

        def visit_ExceptHandler(self, n):
            if n.name:
                out.append(n.name)
            self.generic_visit(n)

        def visit_FunctionDef(self, n):
            out.append(n.name)

        visit_AsyncFunctionDef = visit_FunctionDef
        visit_ClassDef = visit_FunctionDef

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            # only the walrus leaks
            for m in ast.walk(n):
                if isinstance(m, ast.NamedExpr):
                    out.append(m.target.id)

        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        def visit_Import(self, n):
            for a in n.names:
                out.append((a.asname or a.name).split(".")[0])

        def visit_ImportFrom(self, n):
            for a in n.names:
                out.append(a.asname or a.name)

    v = V()
    for n in nodes:
        v.visit(n)
    return sorted(set(out))


def _contains(nodes, types, into_functions=False):
    stack = list(nodes)
    while stack:
        n = stack.pop()
        if isinstance(n, types):
            return True
        if not into_functions and isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


def _uses_super(nodes):
    for n in nodes:
        for m in ast.walk(n):
            if isinstance(m, ast.Name) and m.id in ("super", "__class__", "locals", "exec", "eval"):
                return True
    return False


def _name(s):
    return ast.Name(id=s, ctx=ast.Load())


def _call(attr, *args, keywords=()):
    return ast.Call(func=ast.Attribute(value=_name("pv__"), attr=attr, ctx=ast.Load()), args=list(args),
                    keywords=list(keywords))


class _Body(ast.NodeTransformer):
    """return/break/continue of a loop body that becomes a function"""

    def __init__(self):
        self.depth = 0

    def visit_Return(self, n):
        v = n.value if n.value is not None else ast.Constant(None)
        return ast.copy_location(
            ast.Return(ast.Tuple([ast.Constant("ret"), v], ast.Load())), n)

    def visit_Break(self, n):
        return ast.copy_location(ast.Return(ast.Tuple([ast.Constant("brk"), ast.Constant(None)], ast.Load())), n)

    def visit_Continue(self, n):
        return ast.copy_location(ast.Return(ast.Constant(None)), n)

    def visit_For(self, n):  # only untransformed (native) loops are left
        return self._inner(n)

    visit_While = visit_For

    def _inner(self, n):
        # break/continue inside belong to the inner loop, returns do not
        b = _RetOnly()
        n.body = [b.visit(s) for s in n.body]
        n.orelse = [self.visit(s) for s in n.orelse]
        return n

    def visit_FunctionDef(self, n):
        return n

    visit_Lambda = visit_ClassDef = visit_FunctionDef


class _RetOnly(ast.NodeTransformer):
    visit_Return = _Body.visit_Return

    def visit_FunctionDef(self, n):
        return n

    visit_Lambda = visit_ClassDef = visit_FunctionDef


class Instrument(ast.NodeTransformer):
    def __init__(self, filename):
        self.filename = filename
        self.n = 0
        self.func = []  # stack of function contexts
        self.classes = []
        self.loops = 0

    def uid(self):
        self.n += 1
        return self.n

    # ---- scopes
    def visit_ClassDef(self, n):
        self.classes.append(n.name)
        f, self.func = self.func, []
        n.body = [self.visit(s) for s in n.body]
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        self.func = f
        self.classes.pop()
        return n

    def visit_FunctionDef(self, n):
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.args = self.visit(n.args)
        info = {"globals": set(), "nonlocals": set(), "pre": []}
        for s in n.body:
            for m in ast.walk(s):
                if isinstance(m, ast.Global):
                    info["globals"].update(m.names)
                elif isinstance(m, ast.Nonlocal):
                    info["nonlocals"].update(m.names)
        self.func.append(info)
        doc = []
        body = n.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(
            body[0].value.value, str
        ):
            doc, body = [body[0]], body[1:]
        new = []
        for s in body:
            r = self.visit(s)
            new.extend(r if isinstance(r, list) else [r])
        pre = []
        names = sorted(set(info["pre"]))
        params = {a.arg for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs}
        if n.args.vararg:
            params.add(n.args.vararg.arg)
        if n.args.kwarg:
            params.add(n.args.kwarg.arg)
        names = [x for x in names if x not in params and x not in info["nonlocals"] and x not in info["globals"]]
        if names:  # makes them local variables of this function, without binding them
            pre = [ast.If(test=ast.Constant(0), body=[
                ast.Assign(targets=[ast.Name(x, ast.Store())], value=ast.Constant(None)) for x in names], orelse=[])]
        glob = [s for s in new if isinstance(s, (ast.Global, ast.Nonlocal))]
        rest = [s for s in new if not isinstance(s, (ast.Global, ast.Nonlocal))]
        n.body = doc + glob + pre + rest or [ast.Pass()]
        self.func.pop()
        return n

    def visit_Lambda(self, n):
        n.args = self.visit(n.args)
        n.body = self.visit(n.body)
        return n

    # ---- loops
    def _closure(self, names, fname, params, body, glob):
        decl = []
        nl = [x for x in names if x not in glob]
        gl = [x for x in names if x in glob]
        if nl:
            decl.append(ast.Nonlocal(nl))
        if gl:
            decl.append(ast.Global(gl))
        return ast.FunctionDef(
            name=fname,
            args=ast.arguments(posonlyargs=[], args=[ast.arg(p) for p in params], kwonlyargs=[], kw_defaults=[],
                               defaults=[]),
            body=decl + body or [ast.Pass()], decorator_list=[], type_params=[])

    def _accessors(self, names, k):
        """def get(n) / def set(n, v) on the named variables"""
        getb = [ast.If(test=ast.Compare(_name("n__"), [ast.Is()], [ast.Constant(None)]),
                       body=[ast.Return(ast.Tuple([ast.Constant(x) for x in names], ast.Load()))], orelse=[])]
        setb = []
        for x in names:
            t = ast.Compare(_name("n__"), [ast.Eq()], [ast.Constant(x)])
            getb.append(ast.If(test=t, body=[ast.Try(
                body=[ast.Return(_name(x))],
                handlers=[ast.ExceptHandler(type=_name("NameError"), name=None,
                                            body=[ast.Return(ast.Attribute(_name("pv__"), "UNBOUND", ast.Load()))])],
                orelse=[], finalbody=[])], orelse=[]))
            setb.append(ast.If(test=t, body=[ast.Assign([ast.Name(x, ast.Store())], _name("v__"))], orelse=[]))
        g = self._closure(names, "pv__get%d" % k, ["n__"], getb, self.func[-1]["globals"])
        # 'get' does not assign, but nonlocal is harmless
        s = self._closure(names, "pv__set%d" % k, ["n__", "v__"], setb, self.func[-1]["globals"])
        return g, s

    def visit_For(self, n):
        if not self.func or _contains([n], (ast.Yield, ast.YieldFrom, ast.Await)) or _uses_super([n]):
            return self.generic_visit(n)
        k = self.uid()
        info = self.func[-1]
        names = _assigned([n])
        names = [x for x in names if x != "_pv_none"]
        it = self.visit(n.iter)
        body = []
        for s in n.body:
            r = self.visit(s)
            body.extend(r if isinstance(r, list) else [r])
        orelse = []
        for s in n.orelse:
            r = self.visit(s)
            orelse.extend(r if isinstance(r, list) else [r])
        info["pre"].extend(names)
        b = _Body()
        fb = [ast.Assign([n.target], _name("pv__elem"))]
        for s in body:
            r = b.visit(s)
            fb.extend(r if isinstance(r, list) else [r])
        fn = self._closure(names, "pv__body%d" % k, ["pv__elem"], fb, info["globals"])
        g, s = self._accessors(names, k)
        res = "pv__r%d" % k
        out = [fn, g, s, ast.Assign([ast.Name(res, ast.Store())], _call(
            "for_loop", it, _name("pv__body%d" % k), _name("pv__get%d" % k), _name("pv__set%d" % k)))]
        out += self._after(res, orelse, body)
        for x in out:
            ast.copy_location(x, n)
        return out

    def _after(self, res, orelse, body):
        out = [ast.If(
            test=ast.BoolOp(ast.And(), [
                ast.Compare(_name(res), [ast.IsNot()], [ast.Constant(None)]),
                ast.Compare(ast.Subscript(_name(res), ast.Constant(0), ast.Load()), [ast.Eq()], [ast.Constant("ret")])]),
            body=[ast.Return(ast.Subscript(_name(res), ast.Constant(1), ast.Load()))], orelse=[])]
        if orelse:
            out.append(ast.If(test=ast.Compare(_name(res), [ast.Is()], [ast.Constant(None)]), body=orelse, orelse=[]))
        return out

    def visit_While(self, n):
        if not self.func or _contains([n], (ast.Yield, ast.YieldFrom, ast.Await)) or _uses_super([n]):
            return self.generic_visit(n)
        k = self.uid()
        info = self.func[-1]
        names = _assigned([n])
        reads = sorted({m.id for m in ast.walk(n) if isinstance(m, ast.Name)} - set(names))
        test = self.visit(n.test)
        body = []
        for s in n.body:
            r = self.visit(s)
            body.extend(r if isinstance(r, list) else [r])
        orelse = []
        for s in n.orelse:
            r = self.visit(s)
            orelse.extend(r if isinstance(r, list) else [r])
        info["pre"].extend(names)
        b = _Body()
        fb = []
        for s in body:
            r = b.visit(s)
            fb.extend(r if isinstance(r, list) else [r])
        fn = self._closure(names, "pv__body%d" % k, [], fb, info["globals"])
        cnames = _assigned([ast.Expr(n.test)])
        fc = self._closure(cnames, "pv__cond%d" % k, [], [ast.Return(test)], info["globals"])
        g, s = self._accessors(names, k)
        res = "pv__r%d" % k
        out = [fn, fc, g, s, ast.Assign([ast.Name(res, ast.Store())], _call(
            "while_loop", _name("pv__cond%d" % k), _name("pv__body%d" % k), _name("pv__get%d" % k),
            _name("pv__set%d" % k), ast.Constant("%s:%d" % (self.filename, n.lineno)),
            ast.Tuple([ast.Tuple([ast.Constant(x), ast.Lambda(args=ast.arguments(
                posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=_name(x))], ast.Load())
                for x in reads], ast.Load())))]
        out += self._after(res, orelse, body)
        for x in out:
            ast.copy_location(x, n)
        return out

    # ---- comprehensions: [e for t in it if c ...] -> explicit loops in a local function
    def _comp(self, n, kind):
        if not self.func or _uses_super([n]) or _contains([n], (ast.Yield, ast.Await, ast.NamedExpr)):
            return self.generic_visit(n)
        if any(g.is_async for g in n.generators):
            return self.generic_visit(n)
        return None

    def _comp_expr(self, n, elt):
        """nested lambdas:  pv__.comp(iter, lambda __e: ..., )"""
        # built from nested 'lambda' generators: comp(it, target-binding lambda, conds, inner)
        def build(i):
            if i == len(n.generators):
                return ast.Tuple([ast.Constant("elt"), self.visit(elt)], ast.Load())
            g = n.generators[i]
            inner = build(i + 1)
            for c in reversed(g.ifs):
                inner = ast.IfExp(test=self.visit(c), body=inner, orelse=ast.Constant(None))
            params, unpack = self._target_lambda(g.target)
            lam = ast.Lambda(args=params, body=inner)
            return ast.Tuple([ast.Constant("gen"), (self.visit(g.iter) if True else None), lam, unpack], ast.Load())

        return build(0)

    def _target_lambda(self, target):
        """target pattern -> (lambda parameters, shape description)"""
        names = []

        def shape(t):
            if isinstance(t, ast.Name):
                names.append(t.id)
                return ast.Constant(t.id)
            if isinstance(t, (ast.Tuple, ast.List)) and all(not isinstance(e, ast.Starred) for e in t.elts):
                return ast.Tuple([shape(e) for e in t.elts], ast.Load())
            raise _Skip()

        sh = shape(target)
        args = ast.arguments(posonlyargs=[], args=[], kwonlyargs=[ast.arg(x) for x in names],
                             kw_defaults=[None for _ in names], defaults=[])
        if len(set(names)) != len(names):
            raise _Skip()
        return args, sh

    def visit_ListComp(self, n, kind="list"):
        r = self._comp(n, kind)
        if r is not None:
            return r
        try:
            import copy

            spec = self._comp_expr(copy.deepcopy(n), copy.deepcopy(n.elt))
        except _Skip:
            return self.generic_visit(n)
        return ast.copy_location(_call("comp", ast.Constant(kind), spec), n)

    def visit_SetComp(self, n):
        return self.visit_ListComp(n, "set")

    def visit_GeneratorExp(self, n):
        return self.visit_ListComp(n, "gen")

    # ---- expressions
    def visit_List(self, n):
        n = self.generic_visit(n)
        if self.func and isinstance(n.ctx, ast.Load) and not any(isinstance(e, ast.Starred) for e in n.elts):
            return ast.copy_location(_call("mk_list", n), n)
        return n

    def visit_Compare(self, n):
        n = self.generic_visit(n)
        if not any(isinstance(o, (ast.Is, ast.IsNot, ast.In, ast.NotIn)) for o in n.ops):
            return n
        if len(n.ops) == 1:
            op = n.ops[0]
            if isinstance(op, (ast.Is, ast.IsNot)):
                f = "is_" if isinstance(op, ast.Is) else "is_not"
            else:
                f = "in_" if isinstance(op, ast.In) else "not_in"
            return ast.copy_location(_call(f, n.left, n.comparators[0]), n)
        return n

    def visit_BinOp(self, n):
        n = self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return ast.copy_location(_call("mod", n.left, n.right), n)
        return n

    def visit_Call(self, n):
        n = self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Name) and f.id in BUILTINS and not any(isinstance(a, ast.Starred) for a in n.args):
            return ast.copy_location(ast.Call(
                func=ast.Attribute(_name("pv__"), "call", ast.Load()), args=[f] + n.args, keywords=n.keywords), n)
        if self.func and isinstance(f, ast.Attribute) and f.attr in MUTATORS and not n.keywords and not any(
                isinstance(a, ast.Starred) for a in n.args):
            return ast.copy_location(_call("mutate", f.value, ast.Constant(f.attr), *n.args), n)
        if isinstance(f, ast.Attribute) and f.attr == "join" and len(n.args) == 1 and not n.keywords:
            return ast.copy_location(_call("join", f.value, n.args[0]), n)
        return n

    def visit_JoinedStr(self, n):
        return ast.copy_location(_call("fstr", ast.Lambda(
            args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]),
            body=self.generic_visit(n))), n) if self.func else n

    def visit_Subscript(self, n):
        n = self.generic_visit(n)
        if self.func and isinstance(n.ctx, ast.Load):
            k = n.slice
            if isinstance(k, ast.Slice):
                k = ast.Call(func=ast.Attribute(_name("pv__"), "slice", ast.Load()), args=[
                    x if x is not None else ast.Constant(None) for x in (k.lower, k.upper, k.step)], keywords=[])
            elif isinstance(k, ast.Constant) or (isinstance(k, ast.Tuple) and any(
                    isinstance(e, (ast.Slice, ast.Starred)) for e in k.elts)):
                return n
            return ast.copy_location(_call("getitem", n.value, k), n)
        return n

    def visit_Dict(self, n):
        n = self.generic_visit(n)
        return ast.copy_location(_call("mk_new", n), n) if self.func else n

    def visit_Set(self, n):
        n = self.generic_visit(n)
        return ast.copy_location(_call("mk_new", n), n) if self.func else n

    def _attrname(self, name):
        if self.classes and name.startswith("__") and not name.endswith("__"):
            return "_" + self.classes[-1].lstrip("_") + name
        return name

    def _simple_assign(self, t, value):
        """assignment of one (already visited) value to one (already visited) target; a list of statements"""
        if isinstance(t, ast.Attribute):
            return [ast.Expr(_call("setattr", t.value, ast.Constant(self._attrname(t.attr)), value))]
        if isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
            return [ast.Expr(_call("setitem", t.value, t.slice, value))]
        if isinstance(t, (ast.Tuple, ast.List)) and any(
                isinstance(m, (ast.Attribute, ast.Subscript)) for e in t.elts for m in ast.walk(e)):
            names, after = [], []
            for e in t.elts:
                x = "pv__t%d" % self.uid()
                self.func[-1]["pre"].append(x)
                if isinstance(e, ast.Starred):
                    names.append(ast.Starred(ast.Name(x, ast.Store()), ast.Store()))
                    e = e.value
                else:
                    names.append(ast.Name(x, ast.Store()))
                after += self._simple_assign(e, _name(x))
            return [ast.Assign([type(t)(names, ast.Store())], value)] + after
        return [ast.Assign([t], value)]

    def visit_Assign(self, n):
        n = self.generic_visit(n)
        if not self.func:
            return n
        if len(n.targets) == 1:
            out = self._simple_assign(n.targets[0], n.value)
        elif any(not isinstance(t, ast.Name) for t in n.targets):
            x = "pv__t%d" % self.uid()
            out = [ast.Assign([ast.Name(x, ast.Store())], n.value)]
            for t in n.targets:
                out += self._simple_assign(t, _name(x))
        else:
            return n
        for s in out:
            ast.copy_location(s, n)
        return out

    def visit_AugAssign(self, n):
        n = self.generic_visit(n)
        if not self.func:
            return n
        t = n.target
        op = type(n.op).__name__
        if isinstance(t, ast.Name):
            return ast.copy_location(ast.Assign([t], _call("iop", ast.Constant(op), _name(t.id), n.value)), n)
        out = []
        o = "pv__t%d" % self.uid()
        out.append(ast.Assign([ast.Name(o, ast.Store())], t.value))
        if isinstance(t, ast.Attribute):
            out.append(ast.Expr(_call("setattr", _name(o), ast.Constant(self._attrname(t.attr)), _call(
                "iop", ast.Constant(op), ast.Attribute(_name(o), t.attr, ast.Load()), n.value))))
        elif not isinstance(t.slice, ast.Slice):
            k = "pv__t%d" % self.uid()
            out.append(ast.Assign([ast.Name(k, ast.Store())], t.slice))
            out.append(ast.Expr(_call("setitem", _name(o), _name(k), _call(
                "iop", ast.Constant(op), _call("getitem", _name(o), _name(k)), n.value))))
        else:
            return n
        for s in out:
            ast.copy_location(s, n)
        return out

    def visit_Delete(self, n):
        n = self.generic_visit(n)
        if not self.func:
            return n
        out = []
        for t in n.targets:
            if isinstance(t, ast.Attribute):
                s = ast.Expr(_call("delattr", t.value, ast.Constant(self._attrname(t.attr))))
            elif isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
                s = ast.Expr(_call("delitem", t.value, t.slice))
            else:
                s = ast.Delete([t])
            out.append(ast.copy_location(s, n))
        return out


class _Skip(Exception):
    pass


def instrument(source, filename):
    tree = ast.parse(source, filename)
    t = Instrument(filename.rsplit("/", 1)[-1])
    tree = t.visit(tree)
    ast.fix_missing_locations(tree)
    return tree
