"""Behaviour-preserving rewrites of the whole package (development: false-alarm testing).
usage: refactor.py MODE SRC DST [seed]"""
import ast, os, random, shutil, sys, copy

R = random.Random(int(sys.argv[4]) if len(sys.argv) > 4 else 1)
CNT = [0]


def fresh(p="tmp"):
    CNT[0] += 1
    return "%s_%d" % (p, CNT[0])


def N(n, ctx=None):
    return ast.Name(n, ctx or ast.Load())


class T(ast.NodeTransformer):
    pass


class RetTemp(T):
    """return e -> r = e; return r"""
    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Name, ast.Constant)):
            return n
        v = fresh("result")
        return [ast.Assign([N(v, ast.Store())], n.value), ast.Return(N(v))]


class IfInvert(T):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n


class IfInvertAll(T):
    def visit_If(self, n):
        self.generic_visit(n)
        return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse or [ast.Pass()], n.body)


class ElseAfterReturn(T):
    """if c: return a; rest -> if c: return a else: rest"""
    def block(self, body):
        for k, s in enumerate(body):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) \
                    and k + 1 < len(body):
                s.orelse = self.block(body[k + 1:])
                return body[:k + 1]
        return body

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.body = self.block(n.body)
        return n


class NoElse(T):
    """if c: return a else: rest -> if c: return a; rest"""
    def block(self, body):
        out = []
        for s in body:
            out.append(s)
            if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)):
                o = s.orelse
                s.orelse = []
                out += self.block(o)
        return out

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.body = self.block(n.body)
        return n


class IsNone(T):
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "isinstance" and ast.unparse(n.args[1]) == "type(None)":
            return ast.Compare(n.args[0], [ast.Is()], [ast.Constant(None)])
        return n


class DeMorgan(T):
    def visit_BoolOp(self, n):
        self.generic_visit(n)
        # not (not a or not b) in boolean contexts only
        return n

    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.BoolOp):
            op = ast.Or() if isinstance(n.test.op, ast.And) else ast.And()
            n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in n.test.values]))
        return n


class FlipCompare(T):
    M = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.M:
            return ast.Compare(n.comparators[0], [self.M[type(n.ops[0])]()], [n.left])
        return n


class Commute(T):
    """a + b -> b + a, a * b -> b * a (numeric expressions: no string or list literal inside)"""
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, (ast.Add, ast.Mult)):
            for x in (n.left, n.right):
                for y in ast.walk(x):
                    if isinstance(y, (ast.List, ast.Tuple, ast.JoinedStr)) or isinstance(y, ast.Constant) and isinstance(y.value, str):
                        return n
                    if isinstance(y, ast.Name) and y.id in ("message", "commands", "opt"):
                        return n
            src = ast.unparse(n)
            if "shape" in src or "str" in src or "list" in src or "file" in src or "name" in src or "path" in src or "message" in src or "code" in src or "opt" in src.split(".") or "layout" in src:
                return n
            return ast.BinOp(n.right, n.op, n.left)
        return n


class SubTemp(T):
    """pull the operands of top-level binary expressions into temporaries"""
    def visit_Assign(self, n):
        if isinstance(n.value, ast.BinOp):
            a, b = fresh("lhs"), fresh("rhs")
            v = n.value
            return [ast.Assign([N(a, ast.Store())], v.left), ast.Assign([N(b, ast.Store())], v.right),
                    ast.Assign(n.targets, ast.BinOp(N(a), v.op, N(b)))]
        return n


class ArgTemp(T):
    """x = f(e, ...) -> t = e; x = f(t, ...)  (evaluation order kept)"""
    def visit_Assign(self, n):
        if isinstance(n.value, ast.Call) and not any(isinstance(a, ast.Starred) for a in n.value.args) \
                and isinstance(n.value.func, (ast.Name, ast.Attribute)):
            pre = []
            new = []
            for a in n.value.args:
                if isinstance(a, (ast.Constant, ast.Name, ast.GeneratorExp, ast.Lambda)):
                    new.append(a)
                else:
                    v = fresh("arg")
                    pre.append(ast.Assign([N(v, ast.Store())], a))
                    new.append(N(v))
            n.value.args = new
            return pre + [n]
        return n


class Comp2Loop(T):
    """x = [e for v in it] -> loop with append; return likewise"""
    def conv(self, c, name):
        body = [ast.Expr(ast.Call(ast.Attribute(N(name), "append", ast.Load()), [c.elt], []))]
        for g in reversed(c.generators):
            for f in reversed(g.ifs):
                body = [ast.If(f, body, [])]
            body = [ast.For(g.target, g.iter, body, [])]
        return [ast.Assign([N(name, ast.Store())], ast.List([], ast.Load()))] + body

    def stmt(self, n):
        v = n.value
        if isinstance(v, ast.ListComp):
            nm = fresh("items")
            n.value = N(nm)
            return self.conv(v, nm) + [n]
        if isinstance(v, ast.Call) and not n.value.keywords and len(v.args) == 1 and isinstance(v.args[0], ast.ListComp):
            nm = fresh("items")
            c = v.args[0]
            v.args[0] = N(nm)
            return self.conv(c, nm) + [n]
        return n
    visit_Assign = visit_Return = stmt


class Loop2While(T):
    """for i in range(n): body -> i-loop by while (no continue inside)"""
    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == "range" \
                and len(n.iter.args) == 1 and isinstance(n.target, ast.Name) and not n.orelse:
            if any(isinstance(x, ast.Continue) for b in n.body for x in ast.walk(b)):
                return n
            k, m = fresh("k"), fresh("m")
            return [ast.Assign([N(m, ast.Store())], n.iter.args[0]), ast.Assign([N(k, ast.Store())], ast.Constant(0)),
                    ast.While(ast.Compare(N(k), [ast.Lt()], [N(m)]),
                              [ast.Assign([N(n.target.id, ast.Store())], N(k))] + n.body +
                              [ast.AugAssign(N(k, ast.Store()), ast.Add(), ast.Constant(1))], [])]
        return n


class Loop2Enum(T):
    """for x in xs -> for i in range(len(xs)): x = xs[i]   (xs a plain name)"""
    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, ast.Name) and isinstance(n.target, ast.Name):
            k = fresh("k")
            return ast.For(N(k, ast.Store()), ast.Call(N("range"), [ast.Call(N("len"), [n.iter], [])], []),
                           [ast.Assign([n.target], ast.Subscript(n.iter, N(k), ast.Load()))] + n.body, n.orelse)
        return n


class Loop2Comp(T):
    """x = []; for v in it: x.append(e) -> x = [e for v in it]"""
    def block(self, body):
        out = []
        k = 0
        while k < len(body):
            s = body[k]
            nx = body[k + 1] if k + 1 < len(body) else None
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.List) and not s.value.elts and isinstance(nx, ast.For) \
                    and len(nx.body) == 1 and isinstance(nx.body[0], ast.Expr) and isinstance(nx.body[0].value, ast.Call) \
                    and ast.unparse(nx.body[0].value.func) == ast.unparse(s.targets[0]) + ".append":
                out.append(ast.Assign(s.targets, ast.ListComp(nx.body[0].value.args[0], [
                    ast.comprehension(nx.target, nx.iter, [], 0)])))
                k += 2
                continue
            out.append(s)
            k += 1
        return out

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.body = self.block(n.body)
        return n


class DictComp2Loop(T):
    pass


class RenameLocals(T):
    def visit_FunctionDef(self, n):
        params = {a.arg for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs}
        if n.args.vararg:
            params.add(n.args.vararg.arg)
        if n.args.kwarg:
            params.add(n.args.kwarg.arg)
        stored = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        decl = set()
        for x in ast.walk(n):
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                decl |= set(x.names)
            if isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not n:
                decl |= {a.arg for a in x.args.args}
        ren = {s: s + "_v" for s in stored - params - decl}
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in ren:
                x.id = ren[x.id]
        return n


class RenamePrivate(T):
    """rename private attributes package-wide"""
    KEEP = {"_update", "_calc_cost"}

    def visit_Attribute(self, n):
        self.generic_visit(n)
        if n.attr.startswith("_") and not n.attr.startswith("__") and n.attr not in self.KEEP:
            n.attr = n.attr + "_p"
        return n

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        if n.name.startswith("_") and not n.name.startswith("__") and getattr(n, "ismeth", False) and n.name not in self.KEEP:
            n.name += "_p"
        return n

    def visit_ClassDef(self, n):
        for m in n.body:
            if isinstance(m, ast.FunctionDef):
                m.ismeth = True
            if isinstance(m, ast.Assign):
                for t in m.targets:
                    if isinstance(t, ast.Name) and t.id.startswith("_") and not t.id.startswith("__"):
                        t.id += "_p"
        self.generic_visit(n)
        names = {m.name[:-2] for m in n.body if isinstance(m, ast.FunctionDef) and m.name.endswith("_p")}
        for m in n.body:
            if not isinstance(m, (ast.FunctionDef, ast.ClassDef)):
                for x in ast.walk(m):
                    if isinstance(x, ast.Name) and x.id in names:
                        x.id += "_p"
        return n


class Helper(T):
    """def f(args): body -> def f(args): return f_impl(args) (module level), methods likewise"""
    def visit_Module(self, n):
        out = []
        for s in n.body:
            if isinstance(s, ast.FunctionDef) and not s.decorator_list:
                out += self.split(s)
            elif isinstance(s, ast.ClassDef):
                s.body = [y for x in s.body for y in (self.split(x, s.name) if isinstance(x, ast.FunctionDef) and not
                          x.decorator_list and x.name != "__init__" and "super()" not in ast.unparse(x) else [x])]
                out.append(s)
            else:
                out.append(s)
        n.body = out
        return n

    def split(self, f, meth=False):
        g = copy.deepcopy(f)
        g.name = "_" + (meth if meth else "") + (f.name.strip("_") if f.name[:2] == "__" else f.name) + "_impl"
        g.args.defaults, g.args.kw_defaults = [], [None] * len(g.args.kwonlyargs)
        a = f.args
        pos = a.posonlyargs + a.args
        if meth:
            pos = pos[1:]
        call = ast.Call(ast.Attribute(N("self"), g.name, ast.Load()) if meth else N(g.name),
                        [N(p.arg) for p in pos] + ([ast.Starred(N(a.vararg.arg), ast.Load())] if a.vararg else []),
                        [ast.keyword(p.arg, N(p.arg)) for p in a.kwonlyargs] + (
                            [ast.keyword(None, N(a.kwarg.arg))] if a.kwarg else []))
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f)):
            return [f]
        f.body = [ast.Return(call)]
        return [g, f]


class CacheAttr(T):
    """self.x read several times and never written in a method -> local"""
    def visit_FunctionDef(self, n):
        if not n.args.args or n.args.args[0].arg != "self" or n.decorator_list or n.name == "__init__":
            return n
        loads, stores = {}, set()
        for x in ast.walk(n):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self":
                if isinstance(x.ctx, ast.Load):
                    loads[x.attr] = loads.get(x.attr, 0) + 1
                else:
                    stores.add(x.attr)
        called = {x.func.attr for x in ast.walk(n) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute)}
        # only simple value attributes of methods that call no method of self
        selfcalls = any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(
            x.func.value, ast.Name) and x.func.value.id == "self" for x in ast.walk(n))
        if selfcalls or any(isinstance(x, (ast.If, ast.Try, ast.Lambda, ast.FunctionDef)) for x in ast.walk(n) if x is not n):
            return n
        c = [a for a, k in loads.items() if k > 1 and a not in stores and a not in called]
        pre = []
        for a in c:
            v = fresh("c")
            for x in ast.walk(n):
                for f, y in ast.iter_fields(x):
                    ys = y if isinstance(y, list) else [y]
                    for i, z in enumerate(ys):
                        if isinstance(z, ast.Attribute) and isinstance(z.value, ast.Name) and z.value.id == "self" and z.attr == a:
                            if isinstance(y, list):
                                y[i] = N(v)
                            else:
                                setattr(x, f, N(v))
            pre.append(ast.Assign([N(v, ast.Store())], ast.Attribute(N("self"), a, ast.Load())))
        k = 1 if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
        n.body = n.body[:k] + pre + n.body[k:]
        return n


class Noop(T):
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        k = 1 if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
        n.body.insert(k, R.choice([ast.Pass(), ast.parse("_unused = 0").body[0], ast.parse("assert True").body[0],
                                   ast.parse("if False:\n    pass").body[0], ast.parse("for _i in ():\n    pass").body[0],
                                   ast.parse("(lambda: None)()").body[0], ast.parse("_unused = [1, 2]\n").body[0],
                                   ast.parse("None").body[0], ast.parse("try:\n    pass\nfinally:\n    pass").body[0],
                                   ast.parse("del (_u := 0)".replace("del (_u := 0)", "_u = 1; del _u")).body[0]]))
        return n


class Consts(T):
    """numeric literals of function bodies -> module constants"""
    def visit_Module(self, n):
        self.c = {}
        for s in n.body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                self.visit(s)
        k = 0
        while k < len(n.body) and (isinstance(n.body[k], (ast.Import, ast.ImportFrom)) or isinstance(n.body[k], ast.Expr)):
            k += 1
        n.body[k:k] = [ast.Assign([N(v, ast.Store())], ast.Constant(val)) for val, v in self.c.items()]
        return n

    def visit_Constant(self, n):
        if isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            v = self.c.setdefault(repr(n.value), "_CONST_%d" % len(self.c))
            self.c[repr(n.value)] = v
            return N(v)
        return n

    def visit_JoinedStr(self, n):
        return n


class Consts2(Consts):
    def visit_Module(self, n):
        super().visit_Module(n)
        for s in n.body:
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, str) \
                    and isinstance(s.targets[0], ast.Name) and s.targets[0].id.startswith("_CONST"):
                s.value = ast.parse(s.value.value, mode="eval").body
        return n


class Ternary2If(T):
    def stmt(self, n):
        if isinstance(n.value, ast.IfExp) and len(n.targets) == 1:
            v = n.value
            return ast.If(v.test, [ast.Assign(n.targets, v.body)], [ast.Assign(copy.deepcopy(n.targets), v.orelse)])
        return n
    visit_Assign = stmt


class If2Ternary(T):
    def visit_If(self, n):
        self.generic_visit(n)
        if len(n.body) == 1 and len(n.orelse) == 1 and isinstance(n.body[0], ast.Assign) and isinstance(
                n.orelse[0], ast.Assign) and ast.unparse(n.body[0].targets[0]) == ast.unparse(n.orelse[0].targets[0]):
            return ast.Assign(n.body[0].targets, ast.IfExp(n.test, n.body[0].value, n.orelse[0].value))
        if len(n.body) == 1 and len(n.orelse) == 1 and isinstance(n.body[0], ast.Return) and isinstance(
                n.orelse[0], ast.Return) and n.body[0].value and n.orelse[0].value:
            return ast.Return(ast.IfExp(n.test, n.body[0].value, n.orelse[0].value))
        return n


class NestedIf(T):
    """if a and b: -> if a: if b:   (no else)"""
    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and not n.orelse:
            b = n.body
            for v in reversed(n.test.values):
                b = [ast.If(v, b, [])]
            return b[0]
        return n


class FStr(T):
    """f-string -> str.format"""
    def visit_JoinedStr(self, n):
        fmt, args = "", []
        for v in n.values:
            if isinstance(v, ast.Constant):
                fmt += v.value.replace("{", "{{").replace("}", "}}")
            else:
                if v.format_spec or v.conversion != -1:
                    return n
                fmt += "{}"
                args.append(v.value)
        return ast.Call(ast.Attribute(ast.Constant(fmt), "format", ast.Load()), args, [])


class Fmt2F(T):
    """'..{0}..'.format(a) -> f-string / % / concatenation"""
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == "format" and isinstance(n.func.value, ast.Constant) and not n.keywords:
            s = n.func.value.value
            try:
                import string
                parts = list(string.Formatter().parse(s))
            except ValueError:
                return n
            vals, k = [], 0
            for lit, fld, spec, conv in parts:
                if lit:
                    vals.append(ast.Constant(lit))
                if fld is not None:
                    if spec or conv or not (fld == "" or fld.isdigit()):
                        return n
                    i = int(fld) if fld else k
                    k += 1
                    vals.append(ast.FormattedValue(n.args[i], -1, None))
            return ast.JoinedStr(vals)
        return n


class Square(T):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value == 2 and isinstance(
                n.left, (ast.Name, ast.Attribute)):
            return ast.BinOp(n.left, ast.Mult(), copy.deepcopy(n.left))
        return n


class SubNeg(T):
    """a - b -> -(b - a) on simple numeric names"""
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Sub) and "issubset" not in ast.unparse(n):
            return ast.UnaryOp(ast.USub(), ast.BinOp(n.right, ast.Sub(), n.left))
        if isinstance(n.op, ast.Div):
            return n
        return n


class NpMethods(T):
    """np.sum(x, ...) -> x.sum(...) for reductions over expressions already arrays; np.abs -> np.absolute, etc."""
    AL = {"abs": "absolute", "absolute": "abs", "multiply": None, "conj": "conjugate"}

    def visit_Attribute(self, n):
        self.generic_visit(n)
        if isinstance(n.value, ast.Name) and n.value.id == "np" and self.AL.get(n.attr):
            n.attr = self.AL[n.attr]
        return n


class Kw2Pos(T):
    pass


class SplitAug(T):
    """scalar x += 1 -> x = x + 1 for names/attributes with numeric constants or strings only"""
    def visit_AugAssign(self, n):
        if isinstance(n.value, ast.Constant) and isinstance(n.target, (ast.Name, ast.Attribute)):
            t = copy.deepcopy(n.target)
            t.ctx = ast.Load()
            return ast.Assign([n.target], ast.BinOp(t, n.op, n.value))
        return n


class WithTry(T):
    pass


class AnyLoop(T):
    """any(gen)/all(gen) in an if test or return -> explicit loop"""
    def mk(self, c):
        isany = c.func.id == "any"
        g = c.args[0]
        v = fresh("flag")
        test = g.elt if isany else ast.UnaryOp(ast.Not(), g.elt)
        gen = g.generators[0]
        body = [ast.If(test, [ast.Assign([N(v, ast.Store())], ast.Constant(isany)), ast.Break()], [])]
        for f in gen.ifs:
            body = [ast.If(f, body, [])]
        return v, [ast.Assign([N(v, ast.Store())], ast.Constant(not isany)), ast.For(gen.target, gen.iter, body, [])]

    def ok(self, c):
        return isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in ("any", "all") and len(c.args) == 1 \
            and isinstance(c.args[0], (ast.GeneratorExp, ast.ListComp)) and len(c.args[0].generators) == 1

    def visit_If(self, n):
        self.generic_visit(n)
        neg = isinstance(n.test, ast.UnaryOp) and isinstance(n.test.op, ast.Not)
        c = n.test.operand if neg else n.test
        if self.ok(c):
            v, pre = self.mk(c)
            n.test = ast.UnaryOp(ast.Not(), N(v)) if neg else N(v)
            return pre + [n]
        return n

    def visit_Return(self, n):
        if self.ok(n.value):
            v, pre = self.mk(n.value)
            return pre + [ast.Return(N(v))]
        return n


class Shuffle(T):
    """reorder adjacent independent simple assignments (no calls) in __init__ methods"""
    def visit_FunctionDef(self, n):
        def simple(s):
            return isinstance(s, ast.Assign) and not any(isinstance(x, ast.Call) for x in ast.walk(s)) and isinstance(
                s.value, (ast.Name, ast.Constant, ast.Attribute))
        out, k = [], 0
        while k < len(n.body):
            j = k
            while j < len(n.body) and simple(n.body[j]):
                j += 1
            if j - k > 1:
                grp = n.body[k:j]
                reads = {ast.unparse(s.value) for s in grp}
                writes = {ast.unparse(t) for s in grp for t in s.targets}
                props = {"self.metrics", "self.op", "self.trans_op", "self.get_grad", "self.cost", "self.obs_data", "self.adj_op",
                         "self.operators", "self.weights", "self.linear_op", "self.prox_op", "self.obs_data_type"}
                if not reads & writes and not writes & props and len(writes) == len(grp):
                    grp = grp[::-1]
                out += grp
                k = j
            else:
                out.append(n.body[k])
                k += 1
        n.body = out
        return n


MODES = {k: v for k, v in list(globals().items()) if isinstance(v, type) and issubclass(v, T) and v is not T}


def main():
    mode, src, dst = sys.argv[1:4]
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(src, dst, ignore=shutil.ignore_patterns("__pycache__", "*.egg-info"))
    modes = mode.split("+")
    n = 0
    for d, ds, fs in os.walk(os.path.join(dst, "modopt")):
        for f in fs:
            if f.endswith(".py"):
                p = os.path.join(d, f)
                s = open(p).read()
                t = ast.parse(s)
                a = ast.unparse(t)
                for m in modes:
                    t = MODES[m]().visit(t)
                    ast.fix_missing_locations(t)
                    t = ast.parse(ast.unparse(t))
                b = ast.unparse(t)
                n += a != b
                open(p, "w").write(b)
    print(mode, "files changed", n)


if __name__ == "__main__":
    main()
