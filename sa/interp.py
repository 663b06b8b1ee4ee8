"""Abstract interpreter: Python source -> value graphs (gated SSA with joins).

The interpreter walks syntax trees only.  A state maps slots (locals, attributes,
cells, globals, effect traces) to value graphs; an ``if`` evaluates both sides and
joins them slot by slot with a gate; calls to functions of the analysed tree are
inlined; loops over unknown domains are summarised.  Whatever is not modelled taints
the result (verdict *undecided*), it never crashes and is never taken as a difference.
"""
import ast
import os
from . import terms as tm
from . import ops
from .terms import (T, TRUE, FALSE, NONE, ZERO, ONE, num, const, sym, raw, leafobj, ite,
                    lift, atom, b_and, b_or, b_not, is_app, is_str, kind_of, TooLarge)

UNDEF = leafobj("undef", "undef", None)
MAX_INLINE = 40
MAX_UNROLL = 14
NOBOX = {"scalar", "int", "str", "bool", "none", "op", "callable", "module", "rng",
         "oplist?", "handle", "bar", "sfn", "afn", "observer"}


def _offset(t):
    """constant part of a symbolic length."""
    if t.k == "poly":
        return sum(c for m, c in tm._poly_items(t) if not m)
    return 0


class Stop(Exception):
    """analysis gives up on this probe (undecided)."""


class Cls:
    def __init__(self, qual, name, mod, bases):
        self.qual, self.name, self.mod, self.bases = qual, name, mod, bases
        self.mro = None
        self.names = []


class Fn:
    __slots__ = ("node", "mod", "fids", "defaults", "kwdefaults", "cls", "locals", "qual",
                 "isgen", "flags", "file", "glob", "nonloc", "hasinner", "name")


class Frame:
    def __init__(self, fn, fid):
        self.fn, self.fid = fn, fid
        self.returns = []
        self.loops = []
        self.excs = []
        self.yields = False


class Loop:
    def __init__(self):
        self.breaks, self.continues = [], []


EXC_BASES = {
    "ModuleNotFoundError": "ImportError", "ImportError": "Exception",
    "FileNotFoundError": "OSError", "PermissionError": "OSError", "OSError": "Exception",
    "IOError": "OSError", "KeyError": "LookupError", "IndexError": "LookupError",
    "LookupError": "Exception", "ZeroDivisionError": "ArithmeticError",
    "ArithmeticError": "Exception", "UnboundLocalError": "NameError",
    "NameError": "Exception", "NotImplementedError": "RuntimeError",
    "RuntimeError": "Exception", "RecursionError": "RuntimeError",
    "Exception": "BaseException", "UnicodeDecodeError": "ValueError",
    "LinAlgError": "ValueError", "ArpackError": "RuntimeError",
    "ArpackNoConvergence": "ArpackError", "StopIteration": "Exception",
}


def exc_is(name, base):
    n = name
    for _ in range(10):
        if n == base or (base in ("OSError", "IOError", "EnvironmentError")
                         and n in ("OSError", "IOError")):
            return True
        if n == "BaseException":
            return False
        n = EXC_BASES.get(n, "Exception")
    return False


def assigned_names(node):
    """local names of a function body (not descending into nested scopes)."""
    out, glob, nonloc = set(), set(), set()
    inner = [False]

    def visit(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.add(c.name)
                inner[0] = True
                for d in c.decorator_list:
                    visit(ast.Expr(d))
                continue
            if isinstance(c, ast.Lambda):
                inner[0] = True
                continue
            if isinstance(c, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                for w in ast.walk(c):
                    if isinstance(w, ast.NamedExpr):
                        out.add(w.target.id)
                    if isinstance(w, ast.Lambda):
                        inner[0] = True
                continue
            if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                out.add(c.id)
            elif isinstance(c, ast.Global):
                glob.update(c.names)
            elif isinstance(c, ast.Nonlocal):
                nonloc.update(c.names)
            elif isinstance(c, (ast.Import, ast.ImportFrom)):
                for al in c.names:
                    out.add((al.asname or al.name).split(".")[0])
            elif isinstance(c, ast.ExceptHandler) and c.name:
                out.add(c.name)
            visit(c)
    visit(node)
    return out - glob - nonloc, glob, nonloc, inner[0]


def has_yield(node):
    st = list(node.body)
    while st:
        n = st.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(n))
    return False


ROUNDS = 7          # unfoldings used to tell loop state variables apart
INTRINSICS = {"HAVOC", "EVENT", "EXTERN", "KNOWN", "STATE", "TRACE", "ASSUME", "FAULTS",
              "OPAQUE", "KIND", "PEEK"}


LISTS = ("list", "concat", "listof", "flatten", "map", "flatmap", "sorted", "copylist")


class Interp:
    def __init__(self, root, pkg="modopt", avail=None, label="code"):
        self.root, self.pkg, self.label = root, pkg, label
        self.avail = avail if avail is not None else {}
        self.heap = {}
        self.pc = TRUE
        self.abs = TRUE
        self.fns = []
        self.classes = {}
        self.modules = {}
        self.loading = []
        self.frames = []
        self.raises = []
        self.cellno = 0
        self.fidno = 0
        self.objno = {}
        self.idxno = 0
        self._colkey, self._colours = None, {}
        self.owner = {}
        self.viewof = {}
        self.muts = []
        self.reach = set()
        self.callsites = 0
        self.taint = None
        self.depth = {}
        self.faults = False
        self.known_mode = False
        self.site = ("?", "?", 0)
        self.notes = []
        self.fault_no = 0
        self.steps = 0
        self.maxsteps = 400000
        self.defect = []
        self.peel = 0           # >0: observe only the first iterations of unknown loops
        self.loop_ns = set()
        from . import ext
        self.ext = ext.Ext(self)

    # ------------------------------------------------------------ utilities
    def unmodelled(self, why):
        if self.taint is None:
            self.taint = "%s at %s:%s (%s)" % (why, self.site[0], self.site[2], self.site[1])
        return raw("UNMODELLED", const(why))

    def alloc(self, val, owner=None, view=None):
        self.cellno += 1
        loc = self.cellno
        self.heap[("c", loc)] = val
        if owner:
            self.owner[loc] = owner
        if view is not None:
            self.viewof[loc] = view
        return leafobj("ref", loc, loc)

    def boxable(self, leaf):
        if leaf.k in ("ref", "obj", "cls", "closure", "bound", "ext", "undef", "super",
                      "num", "const", "prop", "static", "clsm", "builtin", "excv"):
            return False
        if leaf.k == "sym":
            return kind_of(leaf) not in NOBOX
        if leaf.k == "app" and leaf.h in ("tuple", "exc", "slice", "strcat"):
            return False
        return kind_of(leaf) not in NOBOX

    def bind(self, v, owner=None):
        if v.k != "node":
            return self.alloc(v, owner) if self.boxable(v) else v
        return lift(lambda x: self.alloc(x, owner) if self.boxable(x) else x, v)

    def cont(self, v):
        """shallow dereference."""
        if v.k == "ref":
            r = self.heap.get(("c", v.x), UNDEF)
            return self.cont(r) if r.k in ("ref",) else r
        if v.k == "node" and any(l.k == "ref" for l in tm.leaves(v)):
            return lift(self.cont, v)
        return v

    def deep(self, v, depth=0, memo=None):
        """full dereference (containers included)."""
        memo = {} if memo is None else memo
        r = memo.get(v.id)
        if r is not None:
            return r
        if depth > 60:
            return raw("cyclic")
        if v.k == "ref":
            memo[v.id] = raw("cyclic")
            r = self.deep(self.heap.get(("c", v.x), UNDEF), depth + 1, memo)
        elif v.k == "node":
            r = lift(lambda x: self.deep(x, depth + 1, memo), v)
        elif v.k == "app" and self.hasref(v):
            args = [self.deep(x, depth + 1, memo) for x in v.a]
            kw = [(n, self.deep(x, depth + 1, memo)) for n, x in v.kw]
            if v.h == "tuple" or v.h == "list":
                r = raw(v.h, *args)
            else:
                r = ops.app(v.h, args, kw)
        else:
            r = v
        memo[v.id] = r
        return r

    _refmemo = {}

    def hasref(self, t):
        r = self._refmemo.get(t.id)
        if r is None:
            r = t.k == "ref" or any(self.hasref(c) for c in tm.children(t))
            self._refmemo[t.id] = r
        return r

    def own(self, v):
        """owners of the memory a value may denote."""
        out = set()
        for l in tm.leaves(v):
            if l.k == "ref":
                o = self.owner.get(l.x)
                if o:
                    out.update(o if isinstance(o, (set, frozenset)) else [o])
        return frozenset(out)

    def refs(self, v):
        return [l for l in tm.leaves(v) if l.k == "ref"]

    def view(self, src, val, how=None):
        """value obtained as a possible view of src."""
        rs = self.refs(src)
        if not rs or val.k in ("num", "const"):
            return val
        own = self.own(src)
        return lift(lambda x: self.alloc(x, own, (src, how)) if self.boxable(x) else x, val)

    # ------------------------------------------------------------ conditions
    def decide(self, c):
        """simplify a boolean diagram under the path condition."""
        if c is TRUE or c is FALSE or self.abs is TRUE:
            return c
        if b_and(self.abs, c) is FALSE:
            return FALSE
        if b_and(self.abs, b_not(c)) is FALSE:
            return TRUE
        return c

    def cond(self, v):
        v = self.cont(v)
        v = lift(lambda x: self._objtruth(x), v)
        return self.decide(ops.cond_of(self.deep(v)))

    def _objtruth(self, x):
        if x.k == "obj":
            m = self.class_lookup(x.h, "__bool__")
            if m is not None and m.k == "closure":
                return self.cont(self.call(tm._intern("bound", "__bool__", (x,), (), m.x), [], []))
            m = self.class_lookup(x.h, "__len__")
            if m is not None and m.k == "closure":
                return self.cont(self.call(tm._intern("bound", "__len__", (x,), (), m.x), [], []))
        if x is UNDEF:
            return raw("undef")
        return x

    def snapshot(self):
        return (self.heap, self.pc, self.abs)

    def restore(self, s):
        self.heap, self.pc, self.abs = s

    def assume(self, c):
        self.pc = b_and(self.pc, c)
        self.abs = b_and(self.abs, c)

    def kill(self):
        self.pc = FALSE
        self.abs = FALSE

    @property
    def dead(self):
        return self.pc is FALSE or self.abs is FALSE

    def fork(self, c, f, g):
        """evaluate f under c and g under not c, join states and values."""
        c = self.decide(c)
        if c is TRUE:
            return f()
        if c is FALSE:
            return g()
        h0, pc0, abs0 = self.snapshot()
        self.heap = dict(h0)
        self.assume(c)
        v1 = f() if not self.dead else None
        s1 = self.snapshot()
        self.heap, self.pc, self.abs = dict(h0), pc0, abs0
        self.assume(b_not(c))
        v2 = g() if not self.dead else None
        s2 = self.snapshot()
        d1 = s1[1] is FALSE or s1[2] is FALSE
        d2 = s2[1] is FALSE or s2[2] is FALSE
        if d1 and d2:
            self.restore((s1[0], FALSE, FALSE))
            return v1 if v1 is not None else v2
        if d1:
            self.restore(s2)
            return v2
        if d2:
            self.restore(s1)
            return v1
        self.heap = self.merge(c, s1[0], s2[0])
        self.pc = b_or(s1[1], s2[1])
        self.abs = b_or(s1[2], s2[2])
        if v1 is v2:
            return v1
        if v1 is None or v2 is None:
            return v1 if v2 is None else v2
        return ite(c, v1, v2)

    def merge(self, c, h1, h2):
        out = dict(h1)
        for k, v in h2.items():
            w = h1.get(k)
            if w is v:
                continue
            if w is None:
                if k[0] == "c":
                    out[k] = v
                else:
                    out[k] = ite(c, UNDEF, v)
            else:
                out[k] = ite(c, w, v)
        for k, w in h1.items():
            if k not in h2 and k[0] != "c":
                out[k] = ite(c, w, UNDEF)
        return out

    def join_exits(self, exits):
        """exits: list of (pc, abs, heap, value). -> joined state, value."""
        exits = [e for e in exits if e[0] is not FALSE and e[1] is not FALSE]
        if not exits:
            self.kill()
            return NONE
        pc, ab, heap, val = exits[-1]
        for p, a, h, v in reversed(exits[:-1]):
            c = p
            heap = self.merge(c, h, heap)
            val = v if v is val else ite(c, v, val)
            pc = b_or(p, pc)
            ab = b_or(a, ab)
        self.heap, self.pc, self.abs = heap, pc, ab
        if val.k == "node":
            val = self._drop_undef(ite(pc, val, UNDEF))
        return val

    # ------------------------------------------------------------ exceptions
    def raise_(self, name, c=TRUE, val=None):
        """record an exceptional exit under condition c; continue under not c."""
        c = self.decide(c)
        if c is FALSE or self.dead:
            return
        pc, ab = b_and(self.pc, c), b_and(self.abs, c)
        self.raises.append([pc, ab, dict(self.heap), name, self.site, val])
        if c is TRUE:
            self.kill()
        else:
            self.assume(b_not(c))

    def use(self, v, exc="UnboundLocalError", what=""):
        """guard against undefined leaves."""
        if v is UNDEF:
            self.note_defect(exc, what)
            self.raise_(exc)
            return NONE
        if v.k == "node" and any(l is UNDEF for l in tm.leaves(v)):
            u = lift(lambda x: TRUE if x is UNDEF else FALSE, v)
            d = self.decide(u)
            if d is TRUE:
                self.note_defect(exc, what)
                self.raise_(exc)
                return NONE
            if d is not FALSE:
                self.note_defect(exc, what)
                self.raise_(exc, u)
            # value: drop the undefined side
            def pick(t):
                if t.k != "node":
                    return t
                a, h, l = t.a
                h, l = pick(h), pick(l)
                if h is UNDEF:
                    return l
                if l is UNDEF:
                    return h
                return tm.mk(a, h, l)
            return pick(v)
        return v

    def note_defect(self, exc, what):
        self.defect.append((exc, what, self.site, self.abs))

    # ------------------------------------------------------------ modules
    def modpath(self, name):
        p = os.path.join(self.root, *name.split("."))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        if os.path.exists(p + ".py"):
            return p + ".py", False
        return None, False

    def load(self, name, path=None, extra=False):
        """execute a module body abstractly; modules are unconditional."""
        if name in self.modules:
            return self.modules[name]
        ispkg = False
        if path is None:
            path, ispkg = self.modpath(name)
            if path is None:
                return None
        if "." in name and not extra:
            self.load(name.rsplit(".", 1)[0])
            if name in self.modules:
                return self.modules[name]
        tree = ast.parse(open(path).read(), path)
        info = {"name": name, "path": path, "ispkg": ispkg, "tree": tree}
        self.modules[name] = info
        fn = Fn()
        fn.node, fn.mod, fn.fids, fn.cls = tree, name, (), None
        fn.defaults, fn.kwdefaults = [], {}
        fn.locals, fn.glob, fn.nonloc = set(), set(), set()
        fn.qual, fn.name, fn.isgen, fn.flags, fn.hasinner = name, "<module>", False, (), True
        fn.file = path
        fr = Frame(fn, ("m", name))
        save = (self.frames, self.site)
        self.frames = self.frames + [fr]
        self.site = (path, "<module>", 0)
        try:
            self.block(tree.body)
        finally:
            self.frames, self.site = save
        if "." in name:
            par, last = name.rsplit(".", 1)
            self.heap.setdefault(("g", par, last), leafobj("ext", "mod:" + name, None))
        return info

    def load_all(self):
        base = os.path.join(self.root, self.pkg)
        names = []
        for d, ds, fs in os.walk(base):
            ds[:] = sorted(x for x in ds if x != "__pycache__")
            for f in sorted(fs):
                if f.endswith(".py"):
                    rel = os.path.relpath(os.path.join(d, f), self.root)[:-3]
                    n = rel.replace(os.sep, ".")
                    if n.endswith(".__init__"):
                        n = n[:-9]
                    names.append(n)
        for n in sorted(names):
            self.load(n)
        return names

    def resolve_from(self, cur, level, module):
        if level == 0:
            return module
        info = self.modules[cur]
        parts = cur.split(".")
        if not info["ispkg"]:
            parts = parts[:-1]
        if level > 1:
            parts = parts[: -(level - 1)]
        return ".".join(parts + ([module] if module else []))

    OPTIONAL = {"torch", "tensorflow", "cupy", "astropy", "matplotlib", "skimage",
                "sklearn", "pywt", "ptwt", "termcolor", "scipy.sparse?", "pynufft",
                "isotonic", "numba", "pandas", "joblib", "h5py", "dask"}

    def import_ext(self, name):
        """condition under which importing an external module succeeds."""
        top = name.split(".")[0]
        if top in self.OPTIONAL:
            if top in self.avail:
                return const(self.avail[top])
            return atom(raw("avail", const(top)))
        return TRUE

    def do_import(self, name):
        top = name.split(".")[0]
        if top == self.pkg or top in self.modules:
            info = self.load(name)
            if info is None:
                self.note_defect("ImportError", name)
                self.raise_("ModuleNotFoundError")
            return
        self.raise_("ModuleNotFoundError", b_not(self.import_ext(name)))

    def modval(self, name):
        top = name.split(".")[0]
        if top == self.pkg or name in self.modules:
            return leafobj("ext", "mod:" + name, None)
        return leafobj("ext", name, None)

    def module_attr(self, modname, attr, exc="AttributeError"):
        v = self.heap.get(("g", modname, attr))
        if v is not None:
            return self.use(v, exc, "%s.%s" % (modname, attr))
        sub = modname + "." + attr
        if self.modpath(sub)[0] or sub in self.modules:
            self.load(sub)
            return leafobj("ext", "mod:" + sub, None)
        self.note_defect(exc, "%s.%s" % (modname, attr))
        self.raise_(exc)
        return NONE

    # ------------------------------------------------------------ names
    @property
    def frame(self):
        return self.frames[-1]

    def slot_for_store(self, name):
        fr = self.frame
        if fr.fid[0] == "m" or name in fr.fn.glob:
            return ("g", fr.fn.mod, name)
        if fr.fid[0] == "k":
            return ("k", fr.fid[1], name)
        if name in fr.fn.nonloc:
            for fid in reversed(fr.fn.fids):
                if ("v", fid, name) in self.heap:
                    return ("v", fid, name)
        return ("v", fr.fid, name)

    def store_name(self, name, v):
        self.heap[self.slot_for_store(name)] = v

    def load_name(self, name):
        fr = self.frame
        if fr.fid[0] == "k":
            v = self.heap.get(("k", fr.fid[1], name))
            if v is not None:
                return self.use(v, "NameError", name)
        elif fr.fid[0] not in ("m",) and name not in fr.fn.glob:
            v = self.heap.get(("v", fr.fid, name))
            if v is not None:
                return self.use(v, "UnboundLocalError", name)
            if name in fr.fn.locals:
                return self.use(UNDEF, "UnboundLocalError", name)
        for fid in reversed(fr.fn.fids):
            v = self.heap.get(("v", fid, name))
            if v is not None:
                return self.use(v, "NameError", name)
        v = self.heap.get(("g", fr.fn.mod, name))
        if v is not None:
            return self.use(v, "NameError", name)
        import builtins
        if hasattr(builtins, name) or name in ("__name__", "__file__") or (
                name in INTRINSICS and (self.label != "code" or fr.fn.mod.startswith("probe_"))):
            if name == "__name__":
                return const(fr.fn.mod)
            return leafobj("ext", "builtins." + name, None)
        return self.use(UNDEF, "NameError", name)

    # ------------------------------------------------------------ statements
    def block(self, stmts):
        for s in stmts:
            if self.dead:
                return
            self.steps += 1
            if self.steps > self.maxsteps:
                raise Stop("too many abstract steps")
            fr = self.frame
            self.site = (fr.fn.file, fr.fn.qual, getattr(s, "lineno", 0))
            m = getattr(self, "s_" + type(s).__name__, None)
            if m is None:
                self.unmodelled("statement " + type(s).__name__)
                continue
            m(s)

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value)

    def s_Pass(self, s):
        pass

    def s_Assign(self, s):
        v = self.ev(s.value)
        if self.dead:
            return
        v = self.bind(v)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.bind(self.ev(s.value)))

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            if not self.dead:
                self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value)
            idx = self.ev_index(t.slice)
            if not self.dead:
                self.set_item(base, idx, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            self.unmodelled("assignment target")

    def unpack(self, elts, v):
        c = self.cont(v)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        n = len(elts)
        if star:
            k = star[0]
            def part(i):
                if i < k:
                    return ops.getitem(c, num(i))
                if i == k:
                    hi = n - 1 - k
                    return ops.getitem(c, ops.slice_(num(k), num(-hi) if hi else NONE, NONE))
                return ops.getitem(c, num(i - n))
        else:
            def part(i):
                return self.item(v, num(i))
        vals = [part(i) for i in range(n)]
        for e, x in zip(elts, vals):
            self.assign(e.value if isinstance(e, ast.Starred) else e, self.bind(x))

    def s_AugAssign(self, s):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id)
            if self.dead:
                return
            rhs = self.ev(s.value)
            if self.dead:
                return
            self.store_name(t.id, self.aug(cur, op, rhs))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            cur = self.getattr(o, t.attr)
            rhs = self.ev(s.value)
            if self.dead:
                return
            self.setattr(o, t.attr, self.aug(cur, op, rhs))
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value)
            idx = self.ev_index(t.slice)
            rhs = self.ev(s.value)
            if self.dead:
                return
            cur = self.item(base, idx, view=False)
            cc = self.cont(cur)
            if is_app(cc) and cc.h in ("list",) and op == "Add":
                self.set_item(base, idx, self.bind(self.binop(op, cur, rhs)))
            else:
                self.set_item(base, idx, self.binop(op, cur, rhs))

    def aug(self, cur, op, rhs):
        """in-place update of a boxed value, otherwise rebinding."""
        def leaf(l):
            if l.k != "ref":
                return self.bind(self.binop(op, l, rhs))
            c = self.cont(l)
            new = self.binop(op, c, rhs)
            if all(kind_of(x) in ("scalar", "int", "str", "bool") or x.k in ("const", "num")
                   for x in tm.leaves(c)) or all(is_app(x, "tuple") for x in tm.leaves(c)):
                return self.bind(new)
            self.mutate(l, new, "in-place %s" % op)
            return l
        ls = tm.leaves(cur)
        if len(ls) == 1:
            return leaf(ls[0])
        # conditional aliases: update each under its own condition
        return self.over_leaves(cur, leaf)

    def over_leaves(self, v, f):
        """run f(leaf) for every leaf of diagram v under its condition, join."""
        if v.k != "node":
            return f(v)
        a, h, l = v.a
        return self.fork(atom(a), lambda: self.over_leaves(h, f),
                         lambda: self.over_leaves(l, f))

    def mutate(self, ref, newval, how):
        """write newval to the cell(s) of ref, with write-through of views."""
        if ref.k == "node":
            self.over_leaves(ref, lambda l: (self.mutate(l, newval, how), NONE)[1])
            return
        if ref.k != "ref":
            return
        for o in self.own(ref):
            self.muts.append((self.abs, o, how, self.site, tuple(
                f.fn.qual for f in self.frames)))
        self.heap[("c", ref.x)] = newval
        vw = self.viewof.get(ref.x)
        if vw is not None:
            src, hw = vw
            if hw is not None:
                base = self.cont(src)
                for r in self.refs(src):
                    if ("c", r.x) in self.heap:
                        self.mutate(r, ops.setitem(self.cont(r), hw, self.deep(newval)),
                                    how + " through a view")
            else:
                for r in self.refs(src):
                    if ("c", r.x) in self.heap:
                        self.mutate(r, raw("viewset", self.deep(newval)),
                                    how + " through a view")

    def s_If(self, s):
        c = self.cond(self.ev(s.test))
        if self.dead:
            return
        self.fork(c, lambda: self.block(s.body), lambda: self.block(s.orelse))

    def s_Return(self, s):
        v = self.ev(s.value) if s.value is not None else NONE
        if self.dead:
            return
        v = self.bind(v)
        self.frame.returns.append((self.pc, self.abs, self.heap, v))
        self.heap = dict(self.heap)
        self.kill()

    def s_Raise(self, s):
        if s.exc is None:
            if self.frame.excs:
                self.raise_(self.frame.excs[-1])
            else:
                self.raise_("RuntimeError")
            return
        n = s.exc
        v = self.ev(n)
        if self.dead:
            return
        names = []
        for l in tm.leaves(v):
            names.append(self.exc_name(l))
        if len(set(names)) == 1:
            self.raise_(names[0], TRUE, v)
        else:
            self.over_leaves(v, lambda l: (self.raise_(self.exc_name(l), TRUE, l), NONE)[1])

    def exc_name(self, l):
        if is_app(l, "exc"):
            return l.a[0].x
        if l.k == "ext":
            return l.h.rsplit(".", 1)[-1]
        if l.k == "cls":
            return self.exc_base(l.h)
        if l.k == "obj":
            return self.exc_base(l.h)
        self.note_defect("raise-nonexception", tm.show(l, 2))
        return "TypeError"

    def exc_base(self, q):
        c = self.classes.get(q)
        if c is None:
            return q.rsplit(".", 1)[-1]
        for b in c.bases:
            if b.k == "ext":
                EXC_BASES.setdefault(c.name, b.h.rsplit(".", 1)[-1])
            elif b.k == "cls":
                EXC_BASES.setdefault(c.name, self.exc_base(b.h))
        return c.name

    def s_Assert(self, s):
        c = self.cond(self.ev(s.test))
        self.raise_("AssertionError", b_not(c))

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.heap[self.slot_for_store(t.id)] = UNDEF
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value)
                if o.k == "obj":
                    self.heap[("a", o, t.attr)] = UNDEF
                else:
                    self.unmodelled("del attribute")
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value)
                i = self.ev_index(t.slice)
                self.ext.del_item(b, i)

    def s_Global(self, s):
        pass

    s_Nonlocal = s_Global

    def s_Import(self, s):
        for al in s.names:
            self.do_import(al.name)
            if self.dead:
                return
            if al.asname:
                self.store_name(al.asname, self.modval(al.name))
            else:
                self.store_name(al.name.split(".")[0], self.modval(al.name.split(".")[0]))

    def s_ImportFrom(self, s):
        mod = self.resolve_from(self.frame.fn.mod, s.level, s.module)
        self.do_import(mod)
        if self.dead:
            return
        inside = mod.split(".")[0] == self.pkg or mod in self.modules
        for al in s.names:
            if al.name == "*":
                if inside:
                    for k, v in list(self.heap.items()):
                        if k[0] == "g" and k[1] == mod and not k[2].startswith("_"):
                            self.store_name(k[2], v)
                continue
            if inside:
                if mod in self.loading:
                    pass
                v = self.module_attr(mod, al.name, "ImportError")
            else:
                v = leafobj("ext", mod + "." + al.name, None)
            if self.dead:
                return
            self.store_name(al.asname or al.name, v)

    def s_FunctionDef(self, s):
        fnv = self.make_fn(s, s.name)
        flags = []
        v = fnv
        for d in reversed(s.decorator_list):
            if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id == "probe":
                continue
            v = self.decorate(d, v, s)
        self.store_name(s.name, v)

    s_AsyncFunctionDef = s_FunctionDef

    def decorate(self, d, v, s):
        if isinstance(d, ast.Attribute) and d.attr in ("setter", "getter", "deleter"):
            base = self.ev(d.value)
            if base.k == "prop":
                g, st = base.x
                if d.attr == "setter":
                    return leafobj("prop", s.name, (g, v.x if v.k == "closure" else None))
                if d.attr == "getter":
                    return leafobj("prop", s.name, (v.x, st))
                return base
        dv = self.ev(d)
        if dv.k == "ext":
            n = dv.h
            if n == "builtins.property":
                return leafobj("prop", s.name, (v.x, None))
            if n == "functools.cached_property":
                return leafobj("prop", s.name, (v.x, None))
            if n == "builtins.staticmethod":
                return leafobj("static", s.name, v.x)
            if n == "builtins.classmethod":
                return leafobj("clsm", s.name, v.x)
            if n == "contextlib.contextmanager":
                self.fns[v.x].flags = ("cm",)
                return v
            return v
        if dv.k == "closure":
            return self.call(dv, [v], [])
        if is_app(dv) and dv.h.startswith("x:functools"):
            return v
        return v

    def make_fn(self, node, name):
        fn = Fn()
        fr = self.frame
        fn.node, fn.mod, fn.name = node, fr.fn.mod, name
        fn.file = fr.fn.file
        if fr.fid[0] in ("m", "k"):
            fn.fids = fr.fn.fids
        else:
            fn.fids = fr.fn.fids + (fr.fid,)
        fn.cls = fr.fid[1] if fr.fid[0] == "k" else fr.fn.cls
        if fr.fid[0] == "m":
            fn.qual = name
        else:
            base = fr.fn.qual
            fn.qual = base + "." + name
        a = node.args
        fn.defaults = [self.bind(self.ev(d)) for d in a.defaults]
        fn.kwdefaults = {p.arg: self.bind(self.ev(d)) for p, d in
                         zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        if isinstance(node, ast.Lambda):
            fn.locals, fn.glob, fn.nonloc, fn.hasinner = set(), set(), set(), any(
                isinstance(x, ast.Lambda) for x in ast.walk(node.body))
            for w in ast.walk(node.body):
                if isinstance(w, ast.NamedExpr):
                    fn.locals.add(w.target.id)
            fn.isgen = False
        else:
            fn.locals, fn.glob, fn.nonloc, fn.hasinner = assigned_names(node)
            fn.isgen = has_yield(node)
        for p in a.posonlyargs + a.args + a.kwonlyargs:
            fn.locals.add(p.arg)
        for p in (a.vararg, a.kwarg):
            if p:
                fn.locals.add(p.arg)
        fn.flags = ()
        self.fns.append(fn)
        return leafobj("closure", self.label + ":" + fn.qual, len(self.fns) - 1)

    def s_ClassDef(self, s):
        fr = self.frame
        bases = [self.ev(b) for b in s.bases]
        qual = s.name if fr.fid[0] == "m" else fr.fn.qual + "." + s.name
        if qual in self.classes and self.classes[qual].mod != fr.fn.mod:
            qual = fr.fn.mod + "." + s.name
        c = Cls(qual, s.name, fr.fn.mod, bases)
        self.classes[qual] = c
        fn = Fn()
        fn.node, fn.mod, fn.cls = s, fr.fn.mod, qual
        fn.fids = fr.fn.fids + ((fr.fid,) if fr.fid[0] not in ("m", "k") else ())
        fn.defaults, fn.kwdefaults = [], {}
        fn.locals, fn.glob, fn.nonloc, fn.hasinner = set(), set(), set(), True
        fn.qual, fn.name, fn.isgen, fn.flags = qual, s.name, False, ()
        fn.file = fr.fn.file
        f2 = Frame(fn, ("k", qual))
        self.frames = self.frames + [f2]
        try:
            self.block(s.body)
        finally:
            self.frames = self.frames[:-1]
        c.mro = self.mro_of(c)
        v = leafobj("cls", qual, None)
        for d in s.decorator_list:
            self.ev(d)
        self.store_name(s.name, v)

    def mro_of(self, c):
        seqs = []
        for b in c.bases:
            if b.k == "cls":
                seqs.append(list(self.classes[b.h].mro))
            else:
                seqs.append(["ext:" + str(b.h)])
        seqs.append([b.h if b.k == "cls" else "ext:" + str(b.h) for b in c.bases])
        out = [c.qual]
        seqs = [list(q) for q in seqs if q]
        while seqs:
            for q in seqs:
                h = q[0]
                if not any(h in r[1:] for r in seqs):
                    break
            else:
                h = seqs[0][0]
            out.append(h)
            seqs = [[x for x in q if x != h] for q in seqs]
            seqs = [q for q in seqs if q]
        return out

    # -------------------------------------------------------- try / with
    def s_Try(self, s):
        fr = self.frame
        outer = self.raises
        self.raises = []
        nret = len(fr.returns)
        lp = fr.loops[-1] if fr.loops else None
        nb, nc = (len(lp.breaks), len(lp.continues)) if lp else (0, 0)
        self.block(s.body)
        normal = []
        if not self.dead:
            self.block(s.orelse)
        if not self.dead:
            normal.append((self.pc, self.abs, self.heap, NONE))
        pend = self.raises
        self.raises = []
        prop = []
        for e in pend:
            if e[0] is FALSE or e[1] is FALSE:
                continue
            handled = False
            for h in s.handlers:
                self.heap, self.pc, self.abs = dict(e[2]), e[0], e[1]
                if self.matches(h, e[3]):
                    handled = True
                    if h.name:
                        self.store_name(h.name, e[5] if len(e) > 5 and e[5] is not None
                                        else raw("excval", const(e[3])))
                    fr.excs.append(e[3])
                    self.block(h.body)
                    fr.excs.pop()
                    if not self.dead:
                        normal.append((self.pc, self.abs, self.heap, NONE))
                    break
            if not handled:
                prop.append(e)
        prop += self.raises
        self.raises = outer
        if s.finalbody:
            def fin(pc, ab, heap):
                self.heap, self.pc, self.abs = dict(heap), pc, ab
                self.block(s.finalbody)
                return self.pc, self.abs, self.heap
            for i in range(nret, len(fr.returns)):
                p, a, h, v = fr.returns[i]
                p, a, h = fin(p, a, h)
                fr.returns[i] = (p, a, h, v)
            if lp:
                for lst, k in ((lp.breaks, nb), (lp.continues, nc)):
                    for i in range(k, len(lst)):
                        p, a, h = lst[i][:3]
                        lst[i] = fin(p, a, h)
            out = []
            for e in prop:
                p, a, h = fin(e[0], e[1], e[2])
                if p is not FALSE and a is not FALSE:
                    out.append([p, a, h] + e[3:])
            prop = out
        self.raises.extend(prop)
        self.join_exits(normal)
        if s.finalbody and not self.dead:
            self.block(s.finalbody)

    def matches(self, h, name):
        if h.type is None:
            return True
        v = self.ev(h.type)
        c = self.cont(v)
        items = c.a if is_app(c, "tuple") else [c]
        for it in items:
            n = None
            if it.k == "ext":
                n = it.h.rsplit(".", 1)[-1]
            elif it.k == "cls":
                n = self.exc_base(it.h)
            if n and exc_is(name, n):
                return True
        return False

    def s_With(self, s):
        self.with_items(list(s.items), s.body)

    def with_items(self, items, body):
        if not items:
            self.block(body)
            return
        it = items[0]
        cm = self.ev(it.context_expr)
        if self.dead:
            return
        cc = self.cont(cm)
        if cc.k == "obj" and self.class_lookup(cc.h, "__enter__") is not None:
            v = self.call_method(cm, "__enter__", [], [])
        elif is_app(cc, "cmgen"):
            return self.with_gen(cc, it, items[1:], body)
        else:
            v = cm
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v)
        ex = None
        if cc.k == "obj" and self.class_lookup(cc.h, "__exit__") is not None:
            ex = lambda: self.call_method(cm, "__exit__", [NONE, NONE, NONE], [])
        elif is_app(cc) and cc.h.startswith("x:") and cc.h.split(".")[-1] in ("open", "Popen"):
            ex = lambda: self.ext.effect(cm, "close", [], [])
        elif kind_of(cc) in ("handle", "bar"):
            # a bar or stream handed in by the caller is closed on the way out
            ex = lambda: self.ext.method(cm, "close", [], [])
        if ex is None:
            self.with_items(items[1:], body)
            return
        fr = self.frame
        outer, self.raises = self.raises, []
        nret = len(fr.returns)
        self.with_items(items[1:], body)
        after = self.snapshot()
        pend, self.raises = self.raises, outer
        for e in pend:
            self.heap, self.pc, self.abs = dict(e[2]), e[0], e[1]
            ex()
            outer.append([self.pc, self.abs, self.heap] + e[3:])
        for i in range(nret, len(fr.returns)):
            p, a, h, v = fr.returns[i]
            self.heap, self.pc, self.abs = dict(h), p, a
            ex()
            fr.returns[i] = (self.pc, self.abs, self.heap, v)
        self.restore(after)
        if not self.dead:
            ex()

    def with_gen(self, cc, it, rest, body):
        self.unmodelled("generator context manager")
        self.with_items(rest, body)

    # -------------------------------------------------------- loops
    def s_Break(self, s):
        self.frame.loops[-1].breaks.append((self.pc, self.abs, self.heap))
        self.heap = dict(self.heap)
        self.kill()

    def s_Continue(self, s):
        self.frame.loops[-1].continues.append((self.pc, self.abs, self.heap))
        self.heap = dict(self.heap)
        self.kill()

    def s_For(self, s):
        it = self.ev(s.iter)
        if self.dead:
            return
        dom = self.domain(it)
        if is_app(it, "attr:handlers") and dom[0] == "sym" and any(
                isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute)
                and x.func.attr == "removeHandler" for y in s.body for x in ast.walk(y)):
            # the logger drops the present handler: the iteration misses the one after it
            n, elem = dom[1], dom[2]
            dom = ("sym", ops.app("floordiv", [ops.add(n, ONE), num(2)]),
                   lambda i: elem(ops.mul(num(2), i)))
        live = it if it.k == "ref" and dom[0] == "lit" and is_app(self.cont(it)) and \
            self.cont(it).h in ("list", "dict", "set") else None
        self.run_for(dom, lambda v: self.assign(s.target, v), lambda: self.block(s.body),
                     s.orelse, live)

    def run_for(self, dom, setter, body, orelse, live=None):
        if dom[0] == "lit":
            self.unroll_items(dom[1], setter, body, orelse, live)
        elif dom[0] == "cases":
            c, d1, d2 = dom[1:]
            self.fork(c, lambda: self.run_for(d1, setter, body, orelse),
                      lambda: self.run_for(d2, setter, body, orelse))
        else:
            self.loop_ns.add(dom[1])
            if self.peel:
                self.peel_for(dom[1], dom[2], setter, body, orelse)
            else:
                self.summarise(dom[1], dom[2], setter, body, orelse)

    def peel_for(self, n, elem, setter, body, orelse):
        """the first iterations of a loop of unknown length; longer runs are not observed."""
        fr = self.frame
        lp = Loop()
        fr.loops.append(lp)
        done = []
        for k in range(self.peel + 1):
            c = self.decide(ops.cond_of(ops.rel(">", n, num(k))))
            if c is not TRUE:
                done_c = b_not(c)
                p, a, h = self.pc, self.abs, self.heap
                normal = (b_and(p, done_c), b_and(a, done_c), dict(h))
                if orelse:
                    self.restore((dict(h), normal[0], normal[1]))
                    fr.loops.pop()
                    if not self.dead:
                        self.block(orelse)
                        if not self.dead:
                            done.append(self.snapshot_exit())
                    fr.loops.append(lp)
                    self.restore((h, p, a))
                else:
                    done.append(normal)
                self.assume(c)
            if self.dead or k == self.peel:
                break
            lp.breaks, lp.continues = [], []
            setter(self.bind(elem(num(k))))
            body()
            ex = list(lp.continues)
            if not self.dead:
                ex.append(self.snapshot_exit())
            done += lp.breaks
            self.join_exits([(p, a, h, NONE) for p, a, h in ex])
            if self.dead:
                break
        fr.loops.pop()
        self.kill()
        self.join_exits([(p, a, h, NONE) for p, a, h in done])

    def domain(self, it):
        """('lit', [values]) | ('sym', length, elem(idx)) | ('cases', c, d1, d2)."""
        c = self.cont(it)
        if c.k == "node":
            a, h, l = c.a
            return ("cases", atom(a), self.domain(h), self.domain(l))
        return self._domain(c, it)

    def _domain(self, c, it):
        if c.k == "const" and c.h == "str":
            return ("lit", [const(x) for x in c.x])
        if is_app(c):
            if c.h in ("list", "tuple", "set"):
                return ("lit", list(c.a))
            if c.h == "dict":
                return ("lit", [k for k, _ in ops.dict_items(c)])
            if c.h == "concat":
                if all(is_app(x, "list") for x in c.a):
                    return ("lit", [y for x in c.a for y in x.a])
            if c.h == "range" or ops.int_arange(c):
                n = c.a[0]
                if n.k == "num":
                    if 0 <= n.x <= 24:
                        return ("lit", [num(i) for i in range(int(n.x))])
                    if n.x < 0:
                        return ("lit", [])
                return ("sym", n, lambda i: i)
            if c.h == "range2":
                a, b = c.a
                if a.k == "num" and b.k == "num" and b.x - a.x <= 24:
                    return ("lit", [num(i) for i in range(int(a.x), int(b.x))])
                return ("sym", ops.sub(b, a), lambda i: ops.add(a, i))
            if c.h == "range3" and all(x.k == "num" for x in c.a):
                r = range(*[int(x.x) for x in c.a])
                if len(r) <= 24:
                    return ("lit", [num(i) for i in r])
            if c.h == "zip":
                return self._zip([self.domain(x) for x in c.a])
            if c.h == "enumerate":
                d = self.domain(c.a[0])
                st = c.a[1] if len(c.a) > 1 else ZERO
                if d[0] == "lit":
                    return ("lit", [raw("tuple", ops.add(num(i), st), x)
                                    for i, x in enumerate(d[1])])
                if d[0] == "sym":
                    return ("sym", d[1], lambda i: raw("tuple", ops.add(i, st), d[2](i)))
                c1, d1, d2 = d[1:]
                return ("cases", c1, self._domain(raw("enumerate", *c.a), it), None) \
                    if False else self._enum_cases(d, st)
            if c.h == "reversed":
                d = self.domain(c.a[0])
                if d[0] == "lit":
                    return ("lit", list(reversed(d[1])))
                if d[0] == "sym":
                    return ("sym", d[1], lambda i: d[2](ops.sub(ops.sub(d[1], ONE), i)))
            if c.h in ("items", "values", "keys"):
                base = self.cont(c.a[0])
                if base.k == "node":
                    a, h, l = base.a
                    return ("cases", atom(a), self._domain(raw(c.h, h), it),
                            self._domain(raw(c.h, l), it))
            if c.h == "items":
                base = self.cont(c.a[0])
                if is_app(base, "dict"):
                    return ("lit", [raw("tuple", k, v) for k, v in ops.dict_items(base)])
                return ("sym", ops.length(self.deep(base)), lambda i: raw(
                    "tuple", raw("keyat", self.deep(base), i), raw("valat", self.deep(base), i)))
            if c.h == "values":
                base = self.cont(c.a[0])
                if is_app(base, "dict"):
                    return ("lit", [v for k, v in ops.dict_items(base)])
                return ("sym", ops.length(self.deep(base)),
                        lambda i: raw("valat", self.deep(base), i))
            if c.h == "keys":
                base = self.cont(c.a[0])
                if is_app(base, "dict"):
                    return ("lit", [k for k, v in ops.dict_items(base)])
            if c.h == "map" and not c.kw:
                return ("sym", c.a[0], lambda i: ops.beta(c, i))
            if c.h == "listof":
                return self.domain(c.a[0])
            if c.h == "repeat" and ops._repeated(c) and c.a[1].k == "num":
                r = ops.app("listof", [c])
                if is_app(r, "list"):
                    return ("lit", list(r.a))
            if c.h == "arr" and not c.kw and is_app(c.a[0]) and c.a[0].h in ("list",):
                return ("lit", list(c.a[0].a))
        if c.k in ("num", "closure") or is_app(c) and c.h in ("len", "ndim", "size"):
            self.note_defect("TypeError", "iteration over a " + (
                "function" if c.k == "closure" else "number"))
            self.raise_("TypeError")
            return ("lit", [])
        if c.k in ("obj", "closure", "cls", "num", "ext"):
            if c.k == "obj" and self.class_lookup(c.h, "__iter__") is not None:
                return self.domain(self.call_method(c, "__iter__", [], []))
            self.unmodelled("iteration over " + c.k)
            return ("lit", [])
        dc = self.deep(c)
        n = ops.length(dc)
        if n.k == "num" and 0 <= n.x <= 12:
            return ("lit", [ops.getitem(dc, num(i)) for i in range(int(n.x))])
        if n.k == "node":
            self.unmodelled("conditional length")
        return ("sym", n, lambda i: self.elem_of(it, dc, i))

    def _zip(self, ds):
        for k, d in enumerate(ds):
            if d[0] == "cases":
                return ("cases", d[1], self._zip(ds[:k] + [d[2]] + ds[k + 1:]),
                        self._zip(ds[:k] + [d[3]] + ds[k + 1:]))
        if all(d[0] == "lit" for d in ds):
            return ("lit", [raw("tuple", *t) for t in zip(*[d[1] for d in ds])])
        lits = [d for d in ds if d[0] == "lit"]
        if lits:
            n = min(len(d[1]) for d in lits)
            return ("lit", [raw("tuple", *[d[1][i] if d[0] == "lit" else d[2](num(i))
                                           for d in ds]) for i in range(n)])
        # sequences iterated together are taken to have the same length, unless one is
        # visibly shorter (a[:-1]); the length named first in a fixed order stands for it
        off = [_offset(d[1]) for d in ds]
        ns = [d[1] for d, o in zip(ds, off) if o == min(off)]
        n = min(ns, key=lambda t: (any(v.h.startswith("~") for v in tm.free(t)), t.id))
        for m in ns:
            if m is not n:
                ops.ZIPPED.add((n.id, m.id))
        return ("sym", n, lambda i: raw("tuple", *[d[2](i) for d in ds]))

    def _enum_cases(self, d, st):
        if d[0] == "lit":
            return ("lit", [raw("tuple", ops.add(num(i), st), x) for i, x in enumerate(d[1])])
        if d[0] == "sym":
            return ("sym", d[1], lambda i: raw("tuple", ops.add(i, st), d[2](i)))
        return ("cases", d[1], self._enum_cases(d[2], st), self._enum_cases(d[3], st))

    def elem_of(self, it, dc, i):
        v = ops.getitem(dc, i)
        if self.own(it):
            return self.view(it, v, i)
        return v

    def unroll_items(self, items, setter, body, orelse, live=None):
        fr = self.frame
        lp = Loop()
        fr.loops.append(lp)
        done = []
        k = 0
        seen = self.cont(live) if live is not None else None
        while True:
            if live is not None and not self.dead and self.cont(live) is not seen:
                # the container changes while it is iterated over
                seen = self.cont(live)
                if is_app(seen, "list"):
                    items = list(seen.a)
                elif is_app(seen) and seen.h in ("dict", "set") and len(seen.a) == len(items):
                    pass
                elif is_app(seen) and seen.h in ("dict", "set"):
                    self.note_defect("RuntimeError", "container changed size during iteration")
                    self.kill()
                    break
                else:
                    self.unmodelled("container changes while iterated over")
                    live = None
            if k >= len(items) or self.dead:
                break
            if len(items) > 60 or k > 60:
                raise Stop("long literal loop")
            x = items[k]
            k += 1
            lp.breaks, lp.continues = [], []
            setter(self.bind(x))
            body()
            ex = list(lp.continues)
            if not self.dead:
                ex.append(self.snapshot_exit())
            done += lp.breaks
            self.join_exits([(p, a, h, NONE) for p, a, h in ex])
        fr.loops.pop()
        self.finish_loop(done, orelse)

    def snapshot_exit(self):
        return (self.pc, self.abs, self.heap)

    def finish_loop(self, breaks, orelse):
        if not self.dead and orelse:
            self.block(orelse)
        ex = list(breaks)
        if not self.dead:
            ex.append(self.snapshot_exit())
        self.join_exits([(p, a, h, NONE) for p, a, h in ex])

    def _counted(self, s):
        """(counter, step, bound, offset, further tests) of a loop that counts"""
        tests = list(s.test.values) if isinstance(s.test, ast.BoolOp) and isinstance(
            s.test.op, ast.And) else [s.test]
        t, rest = tests[0], tests[1:]
        if not isinstance(t, ast.Compare) or len(t.ops) != 1 or rest and s.orelse:
            return None
        l, op, r = t.left, t.ops[0], t.comparators[0]
        own = []                    # statements of this loop, without those of inner loops

        def walk(b, inner):
            for n in b:
                if isinstance(n, ast.Continue) and not inner:
                    return False
                if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
                    return False
                own.append(n)
                deep = inner or isinstance(n, (ast.For, ast.While))
                for f in ("body", "orelse", "finalbody"):
                    if walk(getattr(n, f, []) or [], deep) is False:
                        return False
                for h in getattr(n, "handlers", []) or []:
                    if walk(h.body, deep) is False:
                        return False
            return True
        if not walk(s.body, False):
            return None
        for name, bound, o in ((l, r, op), (r, l, {ast.Gt: ast.Lt, ast.GtE: ast.LtE, ast.Lt: ast.Gt,
                                                  ast.LtE: ast.GtE}.get(type(op), type(None))())):
            if not isinstance(name, ast.Name):
                continue
            step = None
            writes = 0
            for n in own:
                for y in ast.walk(n) if not isinstance(n, (ast.If, ast.For, ast.While, ast.With,
                                                           ast.Try)) else \
                        [z for f in ("test", "iter", "target") if getattr(n, f, None) is not None
                         for z in ast.walk(getattr(n, f))]:
                    if isinstance(y, ast.Name) and y.id == name.id and isinstance(
                            y.ctx, (ast.Store, ast.Del)):
                        writes += 1
            for n in s.body:
                one = None
                if isinstance(n, ast.AugAssign) and isinstance(n.op, (ast.Add, ast.Sub)):
                    tg, one, sg = n.target, n.value, 1 if isinstance(n.op, ast.Add) else -1
                elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(
                        n.value, ast.BinOp) and isinstance(n.value.op, (ast.Add, ast.Sub)) \
                        and isinstance(n.value.left, ast.Name) and n.value.left.id == name.id:
                    tg, one = n.targets[0], n.value.right
                    sg = 1 if isinstance(n.value.op, ast.Add) else -1
                if one is not None and isinstance(tg, ast.Name) and tg.id == name.id \
                        and isinstance(one, ast.Constant) and one.value == 1 \
                        and not isinstance(one.value, bool):
                    step = sg
            if step is None or writes != 1:
                continue
            if step == 1 and isinstance(o, (ast.Lt, ast.LtE)) or step == -1 and isinstance(
                    o, (ast.Gt, ast.GtE)):
                return name, step, bound, int(isinstance(o, (ast.LtE, ast.GtE))), rest
        return None

    def _counted_while(self, s):
        """a while loop that counts is the for loop over that range"""
        c = self._counted(s)
        if c is None:
            return False
        name, step, bound, off, rest = c
        start = self._peek(name, self.heap)
        stop = self._peek(bound, self.heap)
        if start is None or stop is None or not (
                ops.is_int(start) and stop.k != "node" and ops.is_int(stop)):
            return False
        n = ops.add(ops.sub(stop, start) if step == 1 else ops.sub(start, stop), num(off))
        if n.k == "node" or n.k == "num" and n.x <= 24:
            return False
        sv = self.snapshot()
        saved = (dict(sv[0]), sv[1], sv[2])
        marks = len(self.raises), len(self.frame.returns), len(self.muts), len(self.frame.loops)
        taint = self.taint
        good = [True]

        def body():
            for t in rest:
                c = self.cond(self.ev(t))
                if self.dead:
                    return
                self.fork(c, lambda: None, lambda: self.s_Break(None))
                if self.dead:
                    return
            self.block(s.body)
            if not self.dead:
                now = self._peek(bound, self.heap)
                if now is not stop:
                    good[0] = False
        self.run_for(("sym", n, lambda i: ops.add(start, i) if step == 1 else ops.sub(start, i)),
                     lambda v: self.assign(name, v), body, s.orelse)
        if good[0]:
            return True
        del self.raises[marks[0]:]
        del self.frame.returns[marks[1]:]
        del self.muts[marks[2]:]
        del self.frame.loops[marks[3]:]
        self.taint = taint
        self.restore(saved)
        return False

    def s_While(self, s):
        fr = self.frame
        if self._counted_while(s):
            return
        # try to unroll while the condition becomes decidable
        start = self.snapshot()
        saved = (dict(start[0]), start[1], start[2])
        nraise, nret, nmut = len(self.raises), len(fr.returns), len(self.muts)
        lp = Loop()
        fr.loops.append(lp)
        done = []
        ok = False
        self.heap = dict(self.heap)
        brkc = []
        try:
            for k in range(MAX_UNROLL + 12):
                if k == MAX_UNROLL and not self._bounded(s, saved):
                    break
                c = self.cond(self.ev(s.test))
                if self.dead:
                    ok = True
                    break
                if c is FALSE:
                    ok = True
                    break
                if k >= 1 and not (c is TRUE and not any(
                        x is not TRUE for x in brkc)) and not self._bounded(s, saved):
                    if not self.peel:
                        break
                    if k > self.peel:
                        self.kill()
                        ok = True
                        break
                if c is not TRUE:
                    p, a, h = self.pc, self.abs, self.heap
                    nc = b_not(c)
                    done.append((b_and(p, nc), b_and(a, nc), dict(h)))
                    self.assume(c)
                    if self.dead:
                        ok = True
                        break
                lp.breaks, lp.continues = [], []
                self.block(s.body)
                ex = list(lp.continues)
                if not self.dead:
                    ex.append(self.snapshot_exit())
                done += lp.breaks
                brkc += [p for p, _, _ in lp.breaks]
                self.join_exits([(p, a, h, NONE) for p, a, h in ex])
                if self.dead:
                    ok = True
                    break
        finally:
            fr.loops.pop()
        if ok:
            # note: while-else is treated as ordinary continuation on normal exit
            self.finish_loop(done, s.orelse)
            return
        del self.raises[nraise:]
        del fr.returns[nret:]
        del self.muts[nmut:]
        self.heap, self.pc, self.abs = saved
        self.summarise(None, None, None, lambda: self.block(s.body), s.orelse, test=s.test)

    def _bounded(self, s, saved):
        """some comparison controlling the loop is between concrete numbers and moves."""
        if not self._has_num_counter(saved):
            return False
        tests = [s.test] + [n.test for n in ast.walk(s) if isinstance(n, ast.If)]
        for t in tests:
            for n in ast.walk(t):
                if isinstance(n, ast.Compare) and self._concrete_cmp(n, saved[0]):
                    return True
        return False

    def _concrete_cmp(self, n, h0):
        moved = False
        for x in [n.left] + list(n.comparators):
            for y in ast.walk(x):
                if isinstance(y, (ast.Call, ast.Lambda)):
                    return False
            try:
                now = self._peek(x, self.heap)
                was = self._peek(x, h0)
            except (Stop, TooLarge):
                return False
            if now is None or now.k != "num":
                return False
            moved = moved or was is not now
        return moved

    def _peek(self, x, heap):
        """value of a simple expression in a given state, without consequences."""
        sv = (self.heap, self.pc, self.abs, self.taint)
        nr, nd = len(self.raises), len(self.defect)
        self.heap = dict(heap)
        try:
            return self.cont(self.ev(x))
        finally:
            self.heap, self.pc, self.abs, self.taint = sv
            del self.raises[nr:]
            del self.defect[nd:]

    def _has_num_counter(self, saved):
        h0 = saved[0]
        for key, v in self.heap.items():
            if v.k == "num" and key[0] in ("v", "a", "c"):
                w = h0.get(key)
                if w is not None and w is not v and w.k == "num":
                    return True
        return False

    def summarise(self, n, elem, setter, body, orelse, test=None):
        """summary of a loop over an unknown domain (or a while loop)."""
        fr = self.frame
        if n is not None and n.k == "node":
            # conditional trip count
            a = n.a[0]
            self.fork(atom(a),
                      lambda: self.summarise(n.a[1], elem, setter, body, orelse, test),
                      lambda: self.summarise(n.a[2], elem, setter, body, orelse, test))
            return
        self.idxno += 1
        lev = self.idxno
        idx = sym("%%%d" % lev, "int")
        entry = self.snapshot()
        h0 = entry[0]
        mod = {}          # slot -> state symbol
        kinds = {}
        outer_raises = self.raises
        nmut0 = len(self.muts)
        for rnd in range(7):
            self.heap = dict(h0)
            self.pc, self.abs = entry[1], entry[2]
            self.raises = []
            nret = len(fr.returns)
            lp = Loop()
            fr.loops.append(lp)
            for slot, (s_, boxed) in mod.items():
                if boxed:
                    own = self.own(h0[slot]) if slot in h0 else None
                    r = self.alloc(s_, own or None)
                    self.heap[slot] = r
                else:
                    self.heap[slot] = s_
            start = dict(self.heap)
            pc_in, abs_in = self.pc, self.abs
            self.pc = TRUE
            test_c = TRUE
            if test is not None:
                test_c = self.cond(self.ev(test))
                self.assume(test_c)
            elif setter is not None:
                setter(self.bind(elem(idx)))
            in_heap = dict(self.heap)
            body()
            fr.loops.pop()
            ex = list(lp.continues)
            if not self.dead:
                ex.append(self.snapshot_exit())
            rets = fr.returns[nret:]
            del fr.returns[nret:]
            raises = self.raises
            self.raises = outer_raises
            post_ex = ex
            self.join_exits([(p, a, h, NONE) for p, a, h in ex])
            post = self.heap if not self.dead else None
            allposts = [h for _, _, h in ex] + [h for _, _, h in lp.breaks] + [
                r[2] for r in rets]
            grown = False
            for h in allposts:
                for slot, v in h.items():
                    if slot[0] == "c" and slot not in h0:
                        continue
                    w = start.get(slot)
                    if v is w:
                        # same reference: content handled through its own cell slot
                        continue
                    if slot not in mod:
                        if slot[0] == "v" and slot not in h0 and slot[1] != fr.fid \
                                and slot[1] not in fr.fn.fids:
                            continue
                        mod[slot] = None
                        grown = True
            # cells bound in mod slots are fresh per round: compare contents
            for pos, (slot, s_b) in enumerate(list(mod.items())):
                if s_b is None:
                    v0 = h0.get(slot)
                    pv = None
                    for h in allposts:
                        if slot in h:
                            pv = h[slot]
                    k0 = self._kindval(v0)
                    k1 = self._kindval(pv)
                    kd = k0 if k0 == k1 or k1 is None else (
                        k1 if k0 is None else self._kjoin(k0, k1))
                    boxed = slot[0] != "c" and kd not in NOBOX and kd not in (
                        "obj", "fn", "tuple")
                    mod[slot] = (sym("~%d.%d.%s" % (lev, pos, kd or "any"), kd or "any"),
                                 boxed)
            if not grown:
                break
        else:
            self.unmodelled("loop fixpoint")
        # order of mutation events inside the analysis rounds is irrelevant
        S = {sb[0]: slot for slot, sb in mod.items()}
        symset = frozenset(S)

        def value(h, slot):
            if slot not in h:
                return UNDEF
            save = self.heap
            self.heap = h
            r = self.deep(h[slot])
            self.heap = save
            return r

        self.heap, self.pc, self.abs = dict(h0), entry[1], entry[2]
        init = {slot: value(h0, slot) for slot in mod}
        # --- exits through return / break
        brk = FALSE
        stepval = {}
        live = post is not None
        for slot in mod:
            stepval[slot] = value(post, slot) if live else UNDEF
        exits = []
        for p, a, h in lp.breaks:
            exits.append(("break", p, h, None))
        for p, a, h, v in rets:
            save = self.heap
            self.heap = h
            exits.append(("return", p, h, self.deep(v)))
            self.heap = save
        if test is not None:
            exits.insert(0, ("break", b_not(test_c), in_heap, None))
            exits = [e for e in exits if e[1] is not FALSE]
            if len(exits) == 1 and exits[0][1] is b_not(test_c) and live and test_c is not TRUE:
                # a loop that is surely entered leaves at the end of an iteration
                entry_c = self.decide(ops.cond_of(ops.subst(
                    test_c, {s_: init[S[s_]] for s_ in tm.free(test_c) & symset})))
                if entry_c is TRUE:
                    exits = [("break", b_not(ops.cond_of(ops.subst(
                        test_c, {s_: stepval[S[s_]] for s_ in tm.free(test_c) & symset}))),
                        post, None)]
        dep_exit = any(tm.free(p) & symset for _, p, _, _ in exits)
        # --- raises
        raises = [e for e in raises if e[0] is not FALSE]
        if len({e[2] if isinstance(e[2], str) else id(e[2]) for e in raises}) > 1:
            self._first_raise(raises, n, idx, mod, S, stepval, init, exits, symset)
            raises = []
        for e in raises:
            pi = e[0]
            if tm.free(pi) & symset or exits:
                self._add_raise(e, atom(raw("loopraise", self._canon(n, pi, idx, mod, S,
                                                                      stepval, init))))
            else:
                m = ops.map_(n, self.decide_free(pi), idx)
                c = ops.cond_of(ops.app("any", [m])) if not (
                    m is TRUE or m is FALSE) else m
                self._add_raise(e, c)
        if not exits and test is None:
            self.closed_forms(n, idx, mod, S, init, stepval)
            if orelse and not self.dead:
                self.block(orelse)
            return
        # general case with early exits: add flag machinery
        self.general_exits(n, idx, mod, S, init, stepval, exits, value, orelse, test)

    def decide_free(self, c):
        return c

    def _first_raise(self, raises, n, idx, mod, S, stepval, init, exits, symset):
        """several exceptions may leave the loop: the first iteration that raises decides."""
        total = FALSE
        for e in raises:
            total = b_or(total, e[0])
        if tm.free(total) & symset or exits:
            found = atom(raw("loopraise", self._canon(n, total, idx, mod, S, stepval, init)))

            def at(t):
                return raw("atraise", self._canon(n, t, idx, mod, S, stepval, init, (total,)))
        else:
            m = ops.map_(n, self.decide_free(total), idx)
            found = m if m is TRUE or m is FALSE else ops.cond_of(ops.app("any", [m]))
            k = raw("first", n, m)

            def at(t):
                return ops.subst(t, {idx: k}) if idx in tm.free(t) else t
        raises = sorted(raises, key=lambda e: (len(tm.support(e[0])), str(e[2])))
        for j, e in enumerate(raises):
            c = found
            if j < len(raises) - 1 and e[0] is not TRUE:
                c = b_and(found, self.decide(ops.cond_of(at(e[0]))))
            self._add_raise(e, c)

    def _add_raise(self, e, c):
        c = self.decide(c)
        if c is FALSE or self.dead:
            return
        self.raises.append([b_and(self.pc, c), b_and(self.abs, c), e[2], e[3], e[4],
                            e[5] if len(e) > 5 else None])
        if c is TRUE:
            self.kill()
        else:
            self.assume(b_not(c))

    def _kindval(self, v):
        if v is None or v is UNDEF:
            return None
        c = self.cont(v)
        ks = set()
        for l in tm.leaves(c):
            if l is UNDEF:
                continue
            if l.k in ("obj", "cls"):
                ks.add("obj")
            elif l.k in ("closure", "bound", "ext"):
                ks.add("fn")
            elif is_app(l, "tuple"):
                ks.add("tuple")
            else:
                k = kind_of(l)
                if is_app(l) and l.h in ("list", "concat", "map"):
                    k = "list"
                if is_app(l, "dict"):
                    k = "dict"
                if l.k == "num":
                    k = "int" if l.x.denominator == 1 else "scalar"
                ks.add(k)
        if len(ks) == 1:
            return ks.pop()
        if ks <= {"int", "scalar", "bool"}:
            return "scalar"
        return "any" if ks else None

    def _kjoin(self, a, b):
        if a == b:
            return a
        if {a, b} <= {"int", "scalar", "bool"}:
            return "scalar"
        if "array" in (a, b) and {a, b} <= {"int", "scalar", "array"}:
            return "array"
        if {a, b} <= {"list", "seq"}:
            return "list"
        return "any"

    def closed_forms(self, n, idx, mod, S, init, stepval):
        symset = frozenset(S)
        for slot, (s_, boxed) in mod.items():
            st = stepval[slot]
            v0 = init[slot]
            r = self.closed(n, idx, s_, symset, st, v0)
            if r is None:
                r = raw("fold", self._canon(n, s_, idx, mod, S, stepval, init))
            if st is s_:
                r = v0
            self.set_slot(slot, r, boxed)

    def set_slot(self, slot, r, boxed):
        if r is UNDEF:
            self.heap[slot] = UNDEF
            return
        if slot[0] == "c":
            if slot[1] in self.owner:
                pass
            self.heap[slot] = r
        else:
            self.heap[slot] = self.bind(r)

    def closed(self, n, idx, s_, symset, st, v0):
        fv = tm.free(st) & symset
        if not fv:
            # value of the last iteration
            if idx not in tm.free(st):
                if v0 is UNDEF or v0 is st:
                    return st
                z = ops.cond_of(ops._ind("EQ", n)) if n.k != "num" else FALSE
                return ite(z, v0, st) if False else raw("lastiter", n, st, v0) \
                    if st.k != "num" else raw("lastiter", n, st, v0)
            last = ops.sub(n, ONE)
            return ops.subst(st, {idx: last}) if v0 is UNDEF else raw(
                "lastiter", n, ops.subst(st, {idx: last}), v0)
        if fv != frozenset([s_]):
            return None
        # filtered/conditional accumulation
        def concat_part(l):
            if l is s_:
                return ()
            if is_app(l, "concat") and l.a[0] is s_ and not any(
                    tm.free(x) & symset for x in l.a[1:]):
                return l.a[1:]
            return None
        parts = [(l, concat_part(l)) for l in tm.leaves(st)]
        if all(p is not None for _, p in parts):
            conds_ok = not any(tm.free(a) & symset for a in tm.support(st))
            if conds_ok and all(len(p) <= 1 and all(is_app(x, "list") and len(x.a) == 1
                                                     for x in p) for _, p in parts):
                filt = lift(lambda l: FALSE if l is s_ else TRUE, st)
                body = None
                def val(l):
                    return l.a[1].a[0] if l is not s_ else UNDEF
                bv = lift(val, st)
                bv = self._drop_undef(bv)
                m = ops.map_(n, bv, idx, None if filt is TRUE else filt)
                return ops.concat(v0, m)
            if conds_ok and all(p for _, p in parts):
                body = lift(lambda l: concat_part(l)[0] if len(concat_part(l)) == 1
                            else raw("concat", *concat_part(l)), st)
                m = ops.map_(n, body, idx)
                return ops.concat(v0, raw("flatten", m)) if m.k != "node" else None
        # sums
        if not any(tm.free(a) & symset for a in tm.support(st)):
            def summand(l):
                d = tm.sub(l, s_) if l.k in ("poly", "sym", "num", "app") else None
                return d
            ok = True
            ds = {}
            for l in tm.leaves(st):
                d = summand(l)
                if d is None or (tm.free(d) & symset):
                    ok = False
                    break
                ds[l.id] = d
            if ok:
                e = lift(lambda l: ds[l.id], st)
                if all(is_app(x) and x.h in LISTS for x in tm.leaves(v0)):
                    # a list that is extended
                    m = ops.map_(n, lift(lambda x: ops.app("listof", [x]), e), idx)
                    return ops.concat(v0, raw("flatten", m)) if m.k != "node" else None
                m = ops.map_(n, e, idx)
                return ops.add(v0, ops.app("sum", [m], [("axis", ZERO)]))
            # element-wise fill: s[i] = e(s[i])
            ok = True
            cell = raw("getitem", s_, idx)
            ph = sym("~cell", kind_of(s_) if False else "any")
            vals = {}
            for l in tm.leaves(st):
                if l is s_:
                    vals[l.id] = cell
                    continue
                if is_app(l, "setitem") and l.a[0] is s_ and l.a[1] is idx:
                    vals[l.id] = l.a[2]
                    continue
                ok = False
                break
            if ok:
                e = lift(lambda l: vals[l.id], st)
                if not self._uses_outside(e, s_, cell):
                    e2 = ops.subst(e, {s_: v0}) if v0 is not UNDEF else e
                    m = ops.map_(n, e2, idx)
                    return lift(lambda mm: ops.app("fill", [v0, mm]), m) \
                        if v0.k != "node" else lift(lambda a, b: ops.app("fill", [a, b]), v0, m)
            # dictionary building
            ok = all(is_app(l, "setitem") and l.a[0] is s_ and not (
                tm.free(l.a[1]) | tm.free(l.a[2])) & symset for l in tm.leaves(st))
            if ok and st.k != "node" and is_app(v0, "dict"):
                return raw("dictcomp", v0, n, ops.map_(n, raw("tuple", st.a[1], st.a[2]), idx))
        return None

    def _uses_outside(self, t, s_, cell):
        """does t mention s_ other than through cell?"""
        if t is cell:
            return False
        if t is s_:
            return True
        if s_ not in tm.free(t):
            return False
        return any(self._uses_outside(c, s_, cell) for c in tm.children(t))

    def _drop_undef(self, v):
        if v.k != "node":
            return v
        a, h, l = v.a
        h, l = self._drop_undef(h), self._drop_undef(l)
        if h is UNDEF:
            return l
        if l is UNDEF:
            return h
        return tm.mk(a, h, l)

    def _canon(self, n, t, idx, mod, S, stepval, init, extra=()):
        """canonical term for 't evaluated after the recurrence' (bisimulation)."""
        syms = list(S)
        # relevant slots: dependency closure of t
        rel = set(tm.free(t) & frozenset(syms))
        work = list(rel)
        for x in extra:
            for z in tm.free(x) & frozenset(syms):
                if z not in rel:
                    rel.add(z)
                    work.append(z)
        while work:
            z = work.pop()
            for w in tm.free(stepval[S[z]]) & frozenset(syms):
                if w not in rel:
                    rel.add(w)
                    work.append(w)
        lev = 1 + max([0] + [ops._height(stepval[S[z]], {}) for z in rel]
                      + [ops._height(t, {})] + [ops._height(x, {}) for x in extra])
        bv = sym("#%d.f" % lev, "int")
        outer = sorted({v for z in rel for v in tm.free(stepval[S[z]]) | tm.free(init[S[z]])
                        if v.h.startswith("%") and v is not idx}
                       | {v for v in tm.free(t) if v.h.startswith("%") and v is not idx},
                       key=lambda v: v.h)
        # colour refinement: what a state variable is after ROUNDS unfoldings.  Shared by all
        # terms of one loop (a colour depends only on the variable's own dependencies).
        ck = (id(stepval), lev, tuple(x.id for x in extra))
        if self._colkey is not stepval:
            self._colkey, self._colours = stepval, {}
        cache = self._colours.setdefault(ck, {})
        steps = {z: tm.free(stepval[S[z]]) & frozenset(syms) for z in rel}
        for x in extra:
            for z in rel:
                steps[z] = steps[z] | tm.free(x) & frozenset(syms)
        for r in range(1, ROUNDS + 1):
            for z in rel:
                if (z, r) in cache:
                    continue
                sub = {w: sym("~c%d" % (init[S[w]].id if r == 1 else cache[(w, r - 1)].id),
                              kind_of(w)) for w in steps[z]}
                sub[idx] = bv
                cache[(z, r)] = raw("st", init[S[z]], ops.subst(stepval[S[z]], sub),
                                    *[ops.subst(x, sub) for x in extra])
        cur = {z: cache[(z, ROUNDS)] for z in rel}
        col = {z: cur[z].id for z in rel}
        # keep state opaque in the result
        tt = ops.subst(t, {w: sym("~c%d" % col[w], kind_of(w)) for w in rel} | {idx: bv})
        return raw("rec", n if n is not None else NONE, tt,
                   *(sorted({cur[w] for w in rel}, key=lambda q: q.id) + outer))

    def general_exits(self, n, idx, mod, S, init, stepval, exits, value, orelse, test):
        symset = frozenset(S)
        stop = FALSE
        for kind, p, h, v in exits:
            stop = b_or(stop, p)
        # does any slot's step or the stop condition depend on state?
        dead_body = all(v is UNDEF for v in stepval.values()) and mod
        rets = [e for e in exits if e[0] == "return"]
        brks = [e for e in exits if e[0] == "break"]
        extra = (stop,)
        if not (tm.free(stop) & symset) and test is None:
            # stop condition depends on the index only: "first index such that"
            m = ops.map_(n, stop, idx)
            found = ops.cond_of(ops.app("any", [m])) if m is not TRUE and m is not FALSE else m
            first = raw("first", n, m)
            cond_found = found
        else:
            cond_found = atom(raw("loopstop", self._canon(n, stop, idx, mod, S, stepval,
                                                           init, extra)))
            if n is None or (test is not None and not rets and len(brks) == 1):
                # a while loop is only left through one of its exits
                cond_found = TRUE
            first = None
        kfirst = {}

        def after(t):
            if first is not None and not (tm.free(t) & symset):
                return ops.subst(t, {idx: first}) if idx in tm.free(t) else t
            return raw("atstop", self._canon(n, t, idx, mod, S, stepval, init, extra))

        base = self.snapshot()
        outs = []
        # normal completion
        if cond_found is not TRUE:
            self.heap = dict(base[0])
            self.pc, self.abs = base[1], base[2]
            self.assume(b_not(cond_found))
            if not self.dead:
                self.closed_forms(n, idx, mod, S, init, stepval)
                if orelse:
                    self.block(orelse)
                if not self.dead:
                    outs.append((self.pc, self.abs, self.heap, NONE))
        for kind, p, h, v in exits:
            self.heap = dict(base[0])
            self.pc, self.abs = base[1], base[2]
            self.assume(cond_found)
            if len(exits) > 1:
                others = [q for q in exits if q[1] is not p]
                pc_ = after(p) if p is not TRUE else TRUE
                self.assume(self.decide(ops.cond_of(pc_)) if pc_ is not TRUE else TRUE)
            if self.dead:
                continue
            for slot, (s_, boxed) in mod.items():
                r = value(h, slot)
                if r is UNDEF:
                    self.heap[slot] = UNDEF
                    continue
                if tm.free(r) & (symset | {idx}):
                    r = after(r)
                self.set_slot(slot, r, boxed)
            if kind == "return":
                if tm.free(v) & (symset | {idx}):
                    v = after(v)
                self.frame.returns.append((self.pc, self.abs, self.heap, self.bind(v)))
            else:
                if test is not None and h is not None and orelse and p is exits[0][1]:
                    self.block(orelse)
                outs.append((self.pc, self.abs, self.heap, NONE))
        self.join_exits(outs)

    # ------------------------------------------------------------ expressions
    def ev(self, n):
        if self.dead:
            return NONE
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            return self.unmodelled("expression " + type(n).__name__)
        return m(n)

    def e_Constant(self, n):
        if n.value is Ellipsis:
            return raw("ellipsis")
        if isinstance(n.value, bytes):
            return const(n.value)
        return const(n.value)

    def e_Name(self, n):
        return self.load_name(n.id)

    def e_NamedExpr(self, n):
        v = self.bind(self.ev(n.value))
        self.assign(n.target, v)
        return v

    def e_Attribute(self, n):
        o = self.ev(n.value)
        if self.dead:
            return NONE
        return self.getattr(o, n.attr)

    def e_Tuple(self, n):
        return self.seq(n.elts, "tuple")

    def e_List(self, n):
        return self.seq(n.elts, "list")

    def e_Set(self, n):
        return self.seq(n.elts, "set")

    def seq(self, elts, h):
        parts = [[]]
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value)
                if self.dead:
                    return NONE
                c = self.cont(v)
                d = self.domain(v) if c.k != "node" else ("sym",)
                if d[0] == "lit":
                    parts[-1].extend(self.bind(x) for x in d[1])
                else:
                    parts.append(ops.app("listof", [self.deep(c)]))
                    parts.append([])
            else:
                x = self.ev(e)
                if self.dead:
                    return NONE
                parts[-1].append(self.bind(x))
        if len(parts) == 1:
            return raw(h, *parts[0])
        r = raw("list", *parts[0])
        for p in parts[1:]:
            r = ops.concat(r, raw("list", *p) if isinstance(p, list) else p)
        if h == "tuple":
            return ops.app("tupleof", [r])
        return r

    def e_Dict(self, n):
        pairs = []
        base = None
        for k, v in zip(n.keys, n.values):
            if k is None:
                c = self.cont(self.ev(v))
                if is_app(c, "dict"):
                    pairs += ops.dict_items(c)
                else:
                    base = raw("dictupd", ops.dict_(pairs) if base is None else base,
                               self.deep(c))
                    pairs = [] if base is None else pairs
                continue
            kk = self.deep(self.ev(k))
            pairs.append((kk, self.bind(self.ev(v))))
        if base is not None:
            return raw("dictupd", base, ops.dict_(pairs))
        return ops.dict_(pairs)

    def e_BinOp(self, n):
        a = self.ev(n.left)
        b = self.ev(n.right)
        if self.dead:
            return NONE
        return self.binop(type(n.op).__name__, a, b)

    def binop(self, op, a, b):
        ca, cb = self.cont(a), self.cont(b)
        if op == "Add" and (is_app(ca) and ca.h in ("list", "tuple", "concat")
                            and is_app(cb) and cb.h in ("list", "tuple", "concat", "map")):
            return ops.add(ca, cb)
        a, b = self.deep(ca), self.deep(cb)
        if op in ("BitAnd", "Sub", "BitOr") and is_app(a) and is_app(b) and (
                a.h in ("set", "setof") or b.h in ("set", "setof")):
            return self.set_op({"BitAnd": "intersection", "Sub": "difference",
                                "BitOr": "union"}[op], a, b)
        f = {"Add": ops.add, "Sub": ops.sub, "Mult": ops.mul, "Div": ops.div,
             "Pow": ops.power, "FloorDiv": ops.floordiv, "Mod": ops.mod}.get(op)
        if f is not None:
            return f(a, b)
        if op == "MatMult":
            return ops.app("dot", [a, b])
        if op == "BitAnd":
            return lift(lambda x, y: self._bit(x, y, True), a, b)
        if op == "BitOr":
            return lift(lambda x, y: self._bit(x, y, False), a, b)
        return raw("bin" + op, a, b)

    def set_op(self, name, a, b):
        """a.name(b) for sets (and any iterables); emptiness is exact, elements are not."""
        def lit(t):
            return is_app(t) and t.h in ("list", "tuple", "set", "dict")

        def inner(t):
            return t.a[0] if is_app(t, "setof") else t

        def each(t, other, want, conj):
            d = self.domain(inner(t))

            def one(x):
                c = self.cond(self.contains(x, other))
                return c if want else b_not(c)
            if d[0] == "lit":
                r = TRUE if conj else FALSE
                for x in d[1]:
                    r = b_and(r, one(x)) if conj else b_or(r, one(x))
                return r
            if d[0] != "sym":
                self.unmodelled("set of conditional length")
                return TRUE
            self.idxno += 1
            idx = sym("%%s%d" % self.idxno, "int")
            m = ops.map_(d[1], one(d[2](idx)), idx)
            if m is TRUE or m is FALSE:
                return m
            return ops.cond_of(ops.app("all" if conj else "any", [m]))
        if name == "issubset":
            return each(a, b, True, True)
        if name == "issuperset":
            return each(b, a, True, True)
        if name == "difference":
            if lit(a) and lit(b) and all(x.k == "const" for x in a.a + b.a):
                return raw("set", *[x for x in a.a if x not in b.a])
            some = each(a, b, False, False)
        elif name == "union":
            if lit(a) and lit(b):
                return raw("set", *dict.fromkeys(a.a + b.a))
            return raw("set_union", a, b)
        else:
            if lit(a) and lit(b) and all(x.k == "const" for x in a.a + b.a):
                r = [x for x in a.a if x in b.a]
                return const(not r) if name == "isdisjoint" else raw("set", *r)
            x, y = (b, a) if lit(b) and not lit(a) else (a, b)
            some = each(x, y, True, False)
            if name == "isdisjoint":
                return b_not(some)
        return ite(some, raw("set_" + name, a, b), raw("set"))

    def _bit(self, x, y, conj):
        def isb(t):
            return t in (TRUE, FALSE) or (t.k == "app" and t.h in ops.BOOL_ATOMS) or (
                t.k == "poly" and all(q.k == "app" and q.h in ops.BOOL_ATOMS for q in t.a))
        if isb(x) and isb(y):
            if conj:
                return ops.mul(x, y)
            return ops.sub(ops.add(x, y), ops.mul(x, y))
        x, y = sorted((x, y), key=lambda t: t.id)
        return raw("bitand" if conj else "bitor", x, y)

    def e_UnaryOp(self, n):
        v = self.ev(n.operand)
        if self.dead:
            return NONE
        if isinstance(n.op, ast.Not):
            return b_not(self.cond(v))
        v = self.deep(self.cont(v))
        if isinstance(n.op, ast.USub):
            return ops.neg(v)
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(n.op, ast.Invert):
            return lift(lambda x: ops._bnot_leaf(x) if x in (TRUE, FALSE) or (
                x.k in ("app", "poly") and (x.k == "poly" or x.h in ops.BOOL_ATOMS))
                else raw("invert", x), v)
        return raw("unary", v)

    def e_BoolOp(self, n):
        isand = isinstance(n.op, ast.And)

        def rec(i):
            v = self.ev(n.values[i])
            if i == len(n.values) - 1 or self.dead:
                return v
            c = self.cond(v)
            cv = self.cont(v)
            if all(l in (TRUE, FALSE) for l in tm.leaves(c)) and self._isboolv(cv):
                v = c
            if isand:
                return self.fork(c, lambda: rec(i + 1), lambda: v)
            return self.fork(c, lambda: v, lambda: rec(i + 1))
        return rec(0)

    def _isboolv(self, v):
        for l in tm.leaves(v):
            if l in (TRUE, FALSE):
                continue
            if l.k == "app" and l.h in ops.BOOL_ATOMS:
                continue
            if l.k == "poly" and all(b.k == "app" and b.h in ops.BOOL_ATOMS for b in l.a):
                continue
            return False
        return True

    def e_IfExp(self, n):
        c = self.cond(self.ev(n.test))
        if self.dead:
            return NONE
        return self.fork(c, lambda: self.bind(self.ev(n.body)) if False else self.ev(n.body),
                         lambda: self.ev(n.orelse))

    def e_Compare(self, n):
        left = self.ev(n.left)
        res = None
        for op, rn in zip(n.ops, n.comparators):
            right = self.ev(rn)
            if self.dead:
                return NONE
            r = self.compare(type(op).__name__, left, right)
            res = r if res is None else b_and(self.cond(res), self.cond(r))
            left = right
        return res

    def compare(self, op, a, b):
        if op in ("Is", "IsNot"):
            ca, cb = self.cont(a), self.cont(b)
            if cb is NONE or ca is NONE:
                r = ops.is_none(self.deep(ca if cb is NONE else cb))
            elif ca in (TRUE, FALSE) or cb in (TRUE, FALSE):
                r = lift(lambda x, y: TRUE if x is y else (
                    FALSE if x.k in ("const", "num") and y.k in ("const", "num")
                    else atom(raw("is", *sorted((x, y), key=lambda t: t.id)))),
                    self.deep(ca), self.deep(cb))
            else:
                def isf(x, y):
                    if x is y:
                        return TRUE
                    if x.k in ("ref", "obj", "cls", "ext", "const", "num") and y.k in (
                            "ref", "obj", "cls", "ext", "const", "num"):
                        return FALSE
                    return atom(raw("is", *sorted((x, y), key=lambda t: t.id)))
                r = lift(isf, a, b)
            return r if op == "Is" else b_not(r)
        if op in ("In", "NotIn"):
            r = self.contains(a, b)
            return r if op == "In" else b_not(r)
        ca, cb = self.cont(a), self.cont(b)
        if op in ("Eq", "NotEq"):
            if ca.k == "obj" or cb.k == "obj":
                m = ca.k == "obj" and self.class_lookup(ca.h, "__eq__")
                if not m:
                    r = const(ca is cb)
                    return r if op == "Eq" else b_not(r)
        s = {"Eq": "==", "NotEq": "!=", "Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">="}[op]
        return ops.rel(s, self.deep(ca), self.deep(cb))

    def contains(self, a, b):
        def leaf(l):
            c = l
            if is_app(c) and c.h == "keys":
                c = self.cont(c.a[0])
                if c.k == "node":
                    return lift(leaf, c)
            if is_app(c, "setof"):
                return leaf(self.cont(c.a[0]))
            if is_app(c) and c.h in ("list", "tuple", "set", "dict"):
                items = [k for k, _ in ops.dict_items(c)] if c.h == "dict" else c.a
                r = FALSE
                for x in items:
                    r = b_or(r, self.cond(self.compare("Eq", a, x)))
                return r
            if is_str(c) and is_str(self.cont(a)):
                return const(self.cont(a).x in c.x)
            if is_app(c, "concat"):
                r = FALSE
                for p in c.a:
                    r = b_or(r, leaf(p))
                return r
            if is_app(c, "map") and not c.kw:
                n, body, bv = c.a
                idx = sym("%%c%d" % self.idxno, "int")
                e = self.cond(ops.rel("==", self.deep(a), ops.subst(body, {bv: idx})))
                m = ops.map_(n, e, idx)
                return ops.cond_of(ops.app("any", [m])) if m not in (TRUE, FALSE) else m
            return lift(lambda x, y: atom(raw("in", x, y)), self.deep(a), self.deep(c))
        cb = self.cont(b)
        if cb.k == "node":
            return lift(leaf, cb)
        return leaf(cb)

    def e_Subscript(self, n):
        b = self.ev(n.value)
        i = self.ev_index(n.slice)
        if self.dead:
            return NONE
        return self.item(b, i)

    def ev_index(self, n):
        if isinstance(n, ast.Slice):
            f = lambda x: self.deep(self.ev(x)) if x is not None else NONE
            a, b, c = f(n.lower), f(n.upper), f(n.step)
            return lift(ops.slice_, a, b, c)
        if isinstance(n, ast.Tuple):
            xs = [self.ev_index(e) for e in n.elts]
            return lift(lambda *y: raw("tuple", *y), *xs)
        return self.deep(self.ev(n))

    def item(self, b, i, view=True):
        """b[i]"""
        def leaf(l):
            c = self.cont(l)
            if c.k == "obj":
                if self.class_lookup(c.h, "__getitem__") is not None:
                    return self.call_method(c, "__getitem__", [i], [])
                self.note_defect("TypeError", "subscript of object")
                self.raise_("TypeError")
                return NONE
            if c.k == "node":
                return self.over_leaves(c, leaf)
            if c is NONE:
                self.raise_("TypeError")
                return NONE
            if c.k in ("num",):
                self.raise_("TypeError")
                return NONE
            if is_app(c) and c.h in ("len", "size", "ndim"):
                self.note_defect("TypeError", "subscript of a number")
                self.raise_("TypeError")
                return NONE
            if is_app(c) and c.h in ("list", "tuple", "dict", "concat", "set"):
                r = ops.getitem(c, i)
                if any(is_app(x, "keyerror") for x in tm.leaves(r)):
                    ke = lift(lambda x: TRUE if is_app(x, "keyerror") else FALSE, r)
                    self.raise_("KeyError", ke)
                    r = self._drop(r, lambda x: is_app(x, "keyerror"))
                if is_app(r, "getitem") and c.h in ("list", "tuple") and i.k == "num" \
                        and r.a[0] is c:
                    self.raise_("IndexError")
                    return NONE
                if is_app(r, "getitem"):
                    return self.deep(r)
                return r
            dc = self.deep(c)
            r = ops.getitem(dc, i)
            if view and self.own(l) and self.basic_index(i):
                return self.view(l, r, i)
            if view and l.k == "ref" and self.basic_index(i) and kind_of(dc) in (
                    "array", "any") and not all(
                    kind_of(x) in ("scalar", "int") for x in tm.leaves(r)):
                return self.view(l, r, i)
            return r
        if b.k == "node":
            return self.over_leaves(b, leaf)
        return leaf(b)

    def _drop(self, v, pred):
        if v.k != "node":
            return v
        a, h, l = v.a
        h, l = self._drop(h, pred), self._drop(l, pred)
        if pred(h):
            return l
        if pred(l):
            return h
        return tm.mk(a, h, l)

    def basic_index(self, i):
        if is_app(i, "slice"):
            return True
        if is_app(i, "tuple"):
            return all(self.basic_index(x) for x in i.a)
        if i is NONE or is_app(i, "ellipsis"):
            return True
        return ops.is_int(i)

    def set_item(self, b, i, v):
        def leaf(l):
            c = self.cont(l)
            if c.k == "obj":
                if self.class_lookup(c.h, "__setitem__") is not None:
                    self.call_method(c, "__setitem__", [i, v], [])
                    return NONE
                self.raise_("TypeError")
                return NONE
            if l.k != "ref":
                # temporary: effect on an unnamed object is lost unless it is opaque
                if c.k in ("sym", "app") and not (is_app(c) and c.h in ("tuple",)):
                    self.ext.effect(c, "__setitem__", [i, v], [])
                return NONE
            def new(x):
                if is_app(x) and x.h in ("list", "dict"):
                    return ops.setitem(x, i, v)
                return ops.setitem(self.deep(x), i, self.deep(v))
            nv = lift(new, c) if c.k == "node" else new(c)
            self.mutate(l, nv, "item assignment")
            return NONE
        self.over_leaves(b, leaf)

    def e_Slice(self, n):
        return self.ev_index(n)

    def e_Starred(self, n):
        return self.ev(n.value)

    def e_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.deep(self.ev(v.value))
                if self.dead:
                    return NONE
                fs = None
                if v.format_spec is not None:
                    fs = self.ev(v.format_spec)
                if v.conversion not in (-1,) or fs is not None:
                    if v.conversion == 115 and fs is None:
                        pass
                    else:
                        x = raw("fmt", x, fs if fs is not None else NONE,
                                const(v.conversion))
                parts.append(x)
        return self.strcat(parts)

    def strcat(self, parts):
        parts = [lift(lambda p: raw("tostr", p) if p.k in ("closure", "cls", "obj") else p, p)
                 for p in parts]
        return lift(lambda *ps: ops.strcat(list(ps)), *parts) if parts else const("")

    def e_FormattedValue(self, n):
        return self.deep(self.ev(n.value))

    def e_Lambda(self, n):
        return self.make_fn(n, "<lambda>")

    def e_Await(self, n):
        return self.unmodelled("await")

    def e_Yield(self, n):
        v = self.ev(n.value) if n.value is not None else NONE
        slot = ("v", self.frame.fid, "<yield>")
        cur = self.heap.get(slot, raw("list"))
        self.heap[slot] = ops.concat(cur, raw("list", self.bind(v)))
        return NONE

    def e_YieldFrom(self, n):
        v = self.cont(self.ev(n.value))
        slot = ("v", self.frame.fid, "<yield>")
        self.heap[slot] = ops.concat(self.heap.get(slot, raw("list")),
                                     ops.app("listof", [v]))
        return NONE

    # -------------------------------------------------------- comprehensions
    def e_ListComp(self, n):
        return self.comp(n.generators, lambda: self.bind(self.ev(n.elt)))

    def e_GeneratorExp(self, n):
        return self.e_ListComp(n)

    def e_SetComp(self, n):
        r = self.e_ListComp(n)
        return lift(lambda x: raw("set", *x.a) if is_app(x, "list") else raw("setof", x), r)

    def e_DictComp(self, n):
        r = self.comp(n.generators, lambda: raw(
            "tuple", self.deep(self.ev(n.key)), self.bind(self.ev(n.value))))

        def fin(x):
            if is_app(x, "list"):
                return ops.dict_([(p.a[0], p.a[1]) for p in x.a])
            return raw("dictcomp", raw("dict"), x.a[0] if is_app(x, "map") else NONE, x)
        return lift(fin, r)

    def comp(self, gens, elt):
        """comprehension in its own scope."""
        fn = Fn()
        fr = self.frame
        fn.node, fn.mod, fn.cls = None, fr.fn.mod, fr.fn.cls
        fn.fids = fr.fn.fids + ((fr.fid,) if fr.fid[0] not in ("m", "k") else ())
        fn.defaults, fn.kwdefaults = [], {}
        fn.locals = set()
        fn.glob, fn.nonloc, fn.hasinner = fr.fn.glob, set(), True
        fn.qual, fn.name, fn.isgen, fn.flags = fr.fn.qual, fr.fn.name, False, ()
        fn.file = fr.fn.file
        if fr.fid[0] == "k":
            fn.fids = fr.fn.fids
        first = self.ev(gens[0].iter)
        if self.dead:
            return NONE
        self.fidno += 1
        f2 = Frame(fn, ("f", self.fidno))
        self.frames = self.frames + [f2]
        acc = ("v", f2.fid, "<acc>")
        self.heap[acc] = raw("list")

        def run(k, it):
            g = gens[k]
            c = self.cont(it)
            if c.k == "node" and any(is_app(x) and x.h in ("concat", "flatten")
                                     for x in tm.leaves(c)):
                self.fork(atom(c.a[0]), lambda: run(k, c.a[1]), lambda: run(k, c.a[2]))
                return
            if is_app(c, "concat"):
                for part in c.a:
                    if not self.dead:
                        run(k, part)
                return
            if is_app(c, "flatten") and is_app(c.a[0], "map") and not c.a[0].kw \
                    and c.a[0].x is None:
                cur = []
                sv = self._in_sym
                self._in_sym = True
                self.run_for(self.domain(c.a[0]), cur.append, lambda: run(k, cur[-1]), [])
                self._in_sym = sv
                return
            dom = self.domain(it)

            def inner():
                cs = list(g.ifs)

                def go(j):
                    if j < len(cs):
                        c = self.cond(self.ev(cs[j]))
                        if self.dead:
                            return
                        self.fork(c, lambda: go(j + 1), lambda: None)
                        return
                    if k + 1 < len(gens):
                        run(k + 1, self.ev(gens[k + 1].iter))
                        return
                    v = elt()
                    if self.dead:
                        return
                    cur = self.heap[acc]
                    if dom[0] != "lit" or self._in_sym:
                        v = self.deep(v)
                    self.heap[acc] = ops.concat(cur, raw("list", v))
                go(0)
            sv = self._in_sym
            if dom[0] != "lit":
                self._in_sym = True
            self.run_for(dom, lambda v: self.assign(g.target, v), inner, [])
            self._in_sym = sv
        try:
            run(0, first)
        finally:
            self.frames = self.frames[:-1]
        r = self.heap.pop(acc, raw("list"))
        for key in [k for k in self.heap if k[0] == "v" and k[1] == f2.fid]:
            del self.heap[key]
        return r

    _in_sym = False

    # ------------------------------------------------------------ attributes
    def class_lookup(self, qual, name, after=None):
        c = self.classes.get(qual)
        if c is None:
            return None
        mro = c.mro or [qual]
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else []
        for q in mro:
            if q.startswith("ext:"):
                continue
            v = self.heap.get(("k", q, name))
            if v is not None and v is not UNDEF:
                return v
        return None

    def has_ext_base(self, qual):
        c = self.classes.get(qual)
        return any(q.startswith("ext:") and q not in ("ext:abc.ABC", "ext:builtins.object")
                   for q in (c.mro or []))

    def getattr(self, o, name, quiet=False):
        if o.k == "node":
            return self.over_leaves(o, lambda l: self.getattr(l, name, quiet))
        if o.k == "ref":
            c = self.cont(o)
            if c.k == "node" and any(l.k in ("obj", "cls") for l in tm.leaves(c)):
                return self.over_leaves(c, lambda l: self.getattr(l, name, quiet))
            if c.k in ("obj", "cls"):
                o = c
            else:
                return self.ext.attr(o, c, name)
        if o.k == "obj":
            cv = self.class_lookup(o.h, name)
            if cv is not None and cv.k == "prop":
                return self.call_fn(cv.x[0], [o], [])
            v = self.heap.get(("a", o, name))
            if v is not None:
                if cv is not None and any(l is UNDEF for l in tm.leaves(v)):
                    b = self.bind_cls(cv, o)
                    return lift(lambda l: b if l is UNDEF else l, v)
                return self.use(v, "AttributeError", "%s.%s" % (o.h, name))
            if cv is not None:
                return self.bind_cls(cv, o)
            if name == "__class__":
                return leafobj("cls", o.h, None)
            if name == "__dict__":
                return self.unmodelled("__dict__")
            if self.class_lookup(o.h, "__getattr__") is not None:
                return self.call_method(o, "__getattr__", [const(name)], [])
            if self.has_ext_base(o.h):
                return raw("attr:" + name, o)
            if name == "__call__":
                return o
            self.note_defect("AttributeError", "%s.%s" % (o.h, name))
            self.raise_("AttributeError")
            return NONE
        if o.k == "cls":
            v = self.class_lookup(o.h, name)
            if v is not None:
                if v.k == "static":
                    return self.fnval(v.x)
                if v.k == "clsm":
                    return tm._intern("bound", name, (o,), (), v.x)
                return v
            if name == "__name__":
                return const(self.classes[o.h].name)
            if name in ("__mro__", "__init__", "__doc__", "__module__", "__qualname__"):
                if name == "__mro__":
                    return raw("tuple", *[leafobj("cls", q, None) if not q.startswith(
                        "ext:") else leafobj("ext", q[4:], None)
                        for q in self.classes[o.h].mro])
                if name == "__init__":
                    return leafobj("ext", "builtins.object.__init__", None)
                return raw("attr:" + name, o)
            if self.has_ext_base(o.h):
                return raw("attr:" + name, o)
            self.note_defect("AttributeError", "%s.%s" % (o.h, name))
            self.raise_("AttributeError")
            return NONE
        if o.k == "super":
            selfv, q = o.a[0], o.h
            qual = selfv.h if selfv.k in ("obj", "cls") else None
            v = self.class_lookup(qual, name, after=q)
            if v is None:
                if name == "__init__" or self.has_ext_base(qual):
                    return leafobj("ext", "builtins.object.__init__", None)
                self.note_defect("AttributeError", "super().%s" % name)
                self.raise_("AttributeError")
                return NONE
            if v.k == "prop":
                return self.call_fn(v.x[0], [selfv], [])
            return self.bind_cls(v, selfv)
        if o.k == "ext":
            if o.h.startswith("mod:"):
                return self.module_attr(o.h[4:], name)
            return self.ext.module_attr(o, name)
        if o.k == "closure":
            fn = self.fns[o.x]
            if name == "__name__":
                return const(fn.name)
            v = self.heap.get(("fa", o.x, name))
            if v is not None:
                return self.use(v, "AttributeError", name)
            return raw("attr:" + name, o)
        if o.k == "bound" and name in ("__name__", "__self__", "__func__"):
            return const(o.h) if name == "__name__" else o.a[0]
        if o is NONE:
            self.note_defect("AttributeError", "None.%s" % name)
            self.raise_("AttributeError")
            return NONE
        if o is UNDEF:
            return NONE
        return self.ext.attr(o, o, name)

    def bind_cls(self, v, o):
        if v.k == "closure":
            return tm._intern("bound", v.h, (o,), (), v.x)
        if v.k == "static":
            return self.fnval(v.x)
        if v.k == "clsm":
            return tm._intern("bound", v.h, (leafobj("cls", o.h, None) if o.k == "obj"
                                             else o,), (), v.x)
        if v.k == "node":
            return lift(lambda x: self.bind_cls(x, o), v)
        return v

    def fnval(self, fid):
        fn = self.fns[fid]
        return leafobj("closure", self.label + ":" + fn.qual, fid)

    def setattr(self, o, name, v):
        if o.k == "node":
            self.over_leaves(o, lambda l: (self.setattr(l, name, v), NONE)[1])
            return
        if o.k == "ref":
            c = self.cont(o)
            if any(l.k == "obj" for l in tm.leaves(c)):
                self.over_leaves(c, lambda l: (self.setattr(l, name, v), NONE)[1])
                return
            self.ext.set_attr(o, c, name, v)
            return
        if o.k == "obj":
            cv = self.class_lookup(o.h, name)
            if cv is not None and cv.k == "prop":
                if cv.x[1] is None:
                    self.note_defect("AttributeError", "no setter %s.%s" % (o.h, name))
                    self.raise_("AttributeError")
                    return
                self.call_fn(cv.x[1], [o, v], [])
                return
            self.heap[("a", o, name)] = v
            return
        if o.k == "cls":
            self.heap[("k", o.h, name)] = v
            return
        if o.k == "closure":
            self.heap[("fa", o.x, name)] = v
            return
        if o.k == "ext" and o.h.startswith("mod:"):
            self.heap[("g", o.h[4:], name)] = v
            return
        if o.k in ("sym", "app", "poly"):
            self.ext.set_attr(o, o, name, v)
            return
        if o is NONE or o.k in ("num", "const"):
            self.raise_("AttributeError")
            return
        if o.k == "ext":
            self.ext.effect(o, "setattr:" + name, [v], [])
            return
        self.unmodelled("attribute store on " + o.k)

    # ------------------------------------------------------------ calls
    def e_Call(self, n):
        f = n.func
        # zero-argument super()
        if isinstance(f, ast.Name) and f.id == "super":
            if self.heap.get(("v", self.frame.fid, "super")) is None:
                return self.super_(n)
        fv = self.ev(f)
        if self.dead:
            return NONE
        args, kws = [], []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                if self.dead:
                    return NONE
                c = self.cont(v)
                if c.k == "node":
                    self.unmodelled("conditional star argument")
                    continue
                d = self._domain(c, v)
                if d[0] == "lit":
                    args += d[1]
                else:
                    args.append(raw("star", self.deep(c)))
            else:
                args.append(self.ev(a))
                if self.dead:
                    return NONE
        for k in n.keywords:
            v = self.ev(k.value)
            if self.dead:
                return NONE
            if k.arg is None:
                c = self.cont(v)
                if is_app(c, "dict"):
                    for kk, vv in ops.dict_items(c):
                        if is_str(kk):
                            kws.append((kk.x, vv))
                        else:
                            kws.append(("**", raw("dict", raw("tuple", kk, vv))))
                elif c.k == "node":
                    return self.over_kwdict(fv, args, kws, c)
                else:
                    kws.append(("**", self.deep(c)))
            else:
                kws.append((k.arg, v))
        self.site = (self.frame.fn.file, self.frame.fn.qual, n.lineno)
        return self.call(fv, args, kws)

    def over_kwdict(self, fv, args, kws, c):
        def leaf(l):
            k2 = list(kws)
            if is_app(l, "dict"):
                k2 += [(kk.x if is_str(kk) else "**", vv) for kk, vv in ops.dict_items(l)]
            else:
                k2.append(("**", self.deep(l)))
            return self.call(fv, args, k2)
        return self.over_leaves(c, leaf)

    def super_(self, n):
        fr = self.frame
        k = len(self.frames) - 1
        while k >= 0 and self.frames[k].fn.node is None:
            k -= 1
        fr = self.frames[k]
        if n.args:
            c = self.ev(n.args[0])
            s = self.ev(n.args[1])
            return tm._intern("super", c.h, (s,), (), None)
        a = fr.fn.node.args
        first = (a.posonlyargs + a.args)[0].arg
        s = self.heap.get(("v", fr.fid, first))
        if s is None:
            return self.unmodelled("super()")
        return tm._intern("super", fr.fn.cls, (s,), (), None)

    def call(self, f, args, kws):
        """call of a value."""
        if self.dead:
            return NONE
        self.callsites += 1
        if f.k == "node":
            return self.over_leaves(f, lambda l: self.call(l, args, kws))
        if f.k == "ref":
            c = self.cont(f)
            return self.call(c, args, kws) if c.k != "ref" else NONE
        if f.k == "closure":
            return self.call_fn(f.x, args, kws)
        if f.k == "bound":
            return self.call_fn(f.x, [f.a[0]] + list(args), kws)
        if f.k == "cls":
            return self.instantiate(f, args, kws)
        if f.k == "obj":
            m = self.class_lookup(f.h, "__call__")
            if m is not None:
                return self.call(self.bind_cls(m, f), args, kws)
            self.note_defect("TypeError", "object %s is not callable" % f.h)
            self.raise_("TypeError")
            return NONE
        if f.k == "static":
            return self.call_fn(f.x, args, kws)
        if f.k == "ext":
            return self.ext.call(f.h, args, kws)
        if f is NONE or f.k in ("num", "const"):
            self.note_defect("TypeError", "call of %s" % tm.show(f, 1))
            self.raise_("TypeError")
            return NONE
        if f.k == "builtin":
            return f.x(args, kws)
        return self.ext.call_value(f, args, kws)

    def call_method(self, o, name, args, kws):
        return self.call(self.getattr(o, name), args, kws)

    def instantiate(self, f, args, kws):
        q = f.h
        c = self.classes[q]
        if any(x.startswith("ext:") and (x[4:].endswith(("Error", "Exception", "Warning")))
               for x in c.mro):
            return raw("exc", const(self.exc_base(q)))
        new = self.class_lookup(q, "__new__")
        k = self.objno.get(c.name, 0) + 1
        self.objno[c.name] = k
        o = leafobj("obj", q, "%s#%d" % (c.name, k))
        init = self.class_lookup(q, "__init__")
        self.check_abstract(q)
        if self.dead:
            return NONE
        if init is not None:
            self.call_fn(init.x if init.k in ("closure", "static") else init.x,
                         [o] + list(args), kws)
        elif args or kws:
            if not self.has_ext_base(q):
                self.note_defect("TypeError", "%s takes no arguments" % q)
                self.raise_("TypeError")
        return o

    def check_abstract(self, q):
        c = self.classes[q]
        for m in c.mro:
            if m.startswith("ext:"):
                continue
            k = self.classes[m]
            for key, v in list(self.heap.items()):
                if key[0] == "k" and key[1] == m and v.k == "closure":
                    fn = self.fns[v.x]
                    if isinstance(fn.node, ast.FunctionDef) and any(
                            (isinstance(d, ast.Attribute) and d.attr == "abstractmethod")
                            or (isinstance(d, ast.Name) and d.id == "abstractmethod")
                            for d in fn.node.decorator_list):
                        if self.class_lookup(q, key[2]) is v:
                            self.raise_("TypeError")
                            return

    def arity(self, fn, what):
        self.note_defect("TypeError", "%s: %s" % (fn.qual, what))
        self.raise_("TypeError")

    def call_fn(self, fid, args, kws):
        fn = self.fns[fid]
        summ = self.ext.summary(fn, args, kws)
        if summ is not None:
            return summ
        self.reach.add((fn.file, fn.qual))
        node = fn.node
        a = node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        self.fidno += 1
        me = ("f", self.fidno)
        bound = {}
        rest = []
        args = list(args)
        if any(is_app(x, "star") for x in args):
            k = [i for i, x in enumerate(args) if is_app(x, "star")][0]
            if a.vararg and k >= len(pos):
                pass
            elif a.vararg and k == len(args) - 1 and len(args) - 1 >= len(pos) - 0:
                pass
            else:
                # unknown number of positional arguments: use element terms
                if k == len(args) - 1:
                    s = args[k].a[0]
                    need = [p for p in pos[k:] if p not in dict(kws)]
                    dn = len(fn.defaults)
                    req = [p for p in need if p in pos[: len(pos) - dn]]
                    args = args[:k] + [ops.getitem(s, num(i)) for i in range(len(req))]
                    if a.vararg:
                        args.append(raw("star", ops.getitem(
                            s, ops.slice_(num(len(req)), NONE, NONE))) if req else
                            raw("star", s))
                else:
                    self.unmodelled("star argument")
        for i, v in enumerate(args):
            if i < len(pos) and not is_app(v, "star"):
                bound[pos[i]] = v
            else:
                rest.append(v)
        if rest and not a.vararg:
            self.arity(fn, "too many positional arguments")
            return NONE
        extra = []
        kwonly = [p.arg for p in a.kwonlyargs]
        ponly = {p.arg for p in a.posonlyargs}
        stard = None
        for k, v in kws:
            if k == "**":
                stard = v
                continue
            if (k in pos and k not in ponly) or k in kwonly:
                if k in bound:
                    self.arity(fn, "multiple values for %s" % k)
                    return NONE
                bound[k] = v
            elif a.kwarg:
                extra.append((k, v))
            else:
                self.arity(fn, "unexpected keyword %s" % k)
                return NONE
        nd = len(fn.defaults)
        for i, p in enumerate(pos):
            if p not in bound:
                if stard is not None and i < len(pos) - nd:
                    bound[p] = raw("kwget", stard, const(p))
                elif i >= len(pos) - nd:
                    bound[p] = fn.defaults[i - (len(pos) - nd)]
                else:
                    self.arity(fn, "missing argument %s" % p)
                    return NONE
        for p in kwonly:
            if p not in bound:
                if p in fn.kwdefaults:
                    bound[p] = fn.kwdefaults[p]
                else:
                    self.arity(fn, "missing argument %s" % p)
                    return NONE
        if a.vararg:
            if rest and any(is_app(x, "star") for x in rest):
                if len(rest) == 1:
                    bound[a.vararg.arg] = rest[0].a[0]
                else:
                    r = raw("list")
                    for x in rest:
                        r = ops.concat(r, ops.app("listof", [x.a[0]]) if is_app(x, "star")
                                       else raw("list", self.bind(x)))
                    bound[a.vararg.arg] = r
            else:
                bound[a.vararg.arg] = raw("tuple", *[self.bind(x) for x in rest])
        if a.kwarg:
            d = ops.dict_([(const(k), self.bind(v)) for k, v in extra])
            if stard is not None:
                d = stard if not extra else raw("dictupd", d, stard)
            bound[a.kwarg.arg] = self.bind(d)
        depth = self.depth.get(fid, 0)
        if self.peel and depth >= 1 and self.is_recursive(fid):
            if depth > self.peel:
                self.kill()
                return NONE
        elif depth >= 1 and self.is_recursive(fid) or depth >= 4 or len(self.frames) > MAX_INLINE:
            return raw("rec:" + self.rec_name(fid), *[self.deep(bound[p]) for p in pos if p in bound],
                       kw=[(k, self.deep(v)) for k, v in bound.items() if k not in pos])
        for k, v in bound.items():
            self.heap[("v", me, k)] = self.bind(v)
        fr = Frame(fn, me)
        site = self.site
        pc0 = self.pc
        self.pc = TRUE
        outer = self.raises
        self.raises = []
        self.frames = self.frames + [fr]
        self.depth[fid] = depth + 1
        try:
            if isinstance(node, ast.Lambda):
                v = self.ev(node.body)
                if not self.dead:
                    fr.returns.append((self.pc, self.abs, self.heap, self.bind(v)))
            else:
                self.block(node.body)
                if not self.dead:
                    fr.returns.append((self.pc, self.abs, self.heap, NONE))
        finally:
            self.frames = self.frames[:-1]
            self.depth[fid] = depth
        inner = self.raises
        self.raises = outer
        val = self.join_exits(fr.returns)
        self.pc = b_and(pc0, self.pc) if not self.dead else FALSE
        for e in inner:
            p = b_and(pc0, e[0])
            if p is not FALSE:
                outer.append([p] + e[1:])
        self.site = site
        if fn.isgen:
            val = self.heap.get(("v", me, "<yield>"), raw("list"))
            if "cm" in fn.flags:
                return raw("cmgen")
        if not fn.hasinner:
            for h in [self.heap] + [e[2] for e in inner]:
                for k in [k for k in h if k[0] == "v" and k[1] == me]:
                    del h[k]
        return val

    _recmemo = None

    def _refs(self, node, meth):
        """names of plain functions (or of methods of the same object) called in node."""
        out = set()
        for w in ast.walk(node):
            if isinstance(w, ast.Call):
                g = w.func
                if isinstance(g, ast.Name) and not meth:
                    out.add(g.id)
                if meth and isinstance(g, ast.Attribute) and isinstance(
                        g.value, ast.Name) and g.value.id in ("self", "cls"):
                    out.add(g.attr)
        return out

    def is_recursive(self, fid):
        """may the function reach a call of itself, by name, within its module or class?"""
        if self._recmemo is None:
            self._recmemo = {}
        if fid in self._recmemo:
            return self._recmemo[fid]
        fn = self.fns[fid]
        meth = fn.cls is not None
        seen, work, hit = set(), [fn.node], False
        while work and not hit:
            for nm in self._refs(work.pop(), meth):
                if nm == fn.name:
                    hit = True
                    break
                if nm in seen:
                    continue
                seen.add(nm)
                for g in self.fns.values() if isinstance(self.fns, dict) else self.fns:
                    if g is not None and g.name == nm and g.mod is fn.mod and (
                            g.cls is not None) == meth:
                        work.append(g.node)
        self._recmemo[fid] = hit
        return hit

    def rec_name(self, fid):
        """canonical name of a recursive function: its body on generic arguments."""
        fn = self.fns[fid]
        a = fn.node.args
        if fn.cls is not None or a.vararg or a.kwarg or a.kwonlyargs or self.dead:
            return fn.qual
        if self._recnames is None:
            self._recnames = {}
        if fid in self._recnames:
            return self._recnames[fid]
        self._recnames[fid] = "SELF"
        pos = [p.arg for p in a.posonlyargs + a.args]
        save = (dict(self.heap), self.pc, self.abs, self.raises, self.frame.returns[:],
                dict(self.depth), self.frames, self.site)
        nm, nd = len(self.muts), len(self.defect)
        self.raises = []
        self.depth = {}
        self.pc, self.abs = TRUE, TRUE
        try:
            v = self.deep(self.call_fn(fid, [sym("$rec%d" % i) for i in range(len(pos))], []))
        finally:
            (self.heap, self.pc, self.abs, self.raises, _, self.depth, self.frames,
             self.site) = save
            del self.muts[nm:]
            del self.defect[nd:]
        self._recnames[fid] = "%d.%d" % (len(pos), v.id)
        return self._recnames[fid]

    _recnames = None

    # ------------------------------------------------------------ intrinsics
    def havoc(self, a, k):
        """replace every slot a thunk may modify by an arbitrary state symbol."""
        thunk = a[0]
        rounds = 0
        mod = {}
        objname = {}
        while rounds < 6:
            rounds += 1
            h0 = dict(self.heap)
            pc0, abs0 = self.pc, self.abs
            raises, self.raises = self.raises, []
            nm = len(self.muts)
            nd = len(self.defect)
            self.call(thunk, [], [])
            self.raises = raises
            del self.muts[nm:]
            del self.defect[nd:]
            post = self.heap
            dead = self.dead
            self.heap, self.pc, self.abs = h0, pc0, abs0
            if dead:
                return NONE
            new = False
            reach = self._paths(h0, post)
            for slot, v in post.items():
                if slot[0] == "c" and slot not in h0:
                    continue
                if slot[0] in ("v", "t"):
                    continue
                w = h0.get(slot)
                if v is w:
                    continue
                if slot in mod and mod[slot] == "done":
                    continue
                if slot in mod:
                    # compare contents of rebound references
                    pass
                nm_ = reach.get(slot)
                if nm_ is None:
                    if slot[0] == "a" and slot[1].k == "obj":
                        nm_ = "%s.%s" % (slot[1].x, slot[2])
                    elif slot[0] == "a":
                        nm_ = "%s.%s" % (tm.show(slot[1], 3), slot[2])
                    elif slot[0] in ("r", "n"):
                        nm_ = "count:%s" % tm.show(slot[1], 3)
                    else:
                        continue
                kd = self._kjoin2(self._kindval(w) if w is not None else None,
                                  self._kind_in(post, v))
                if kd in ("obj", "fn"):
                    continue
                own = set()
                save, self.heap = self.heap, post
                own |= self.own(v)
                self.heap = save
                if w is not None:
                    own |= self.own(w)
                s = sym("St:" + nm_, kd or "any")
                mod[slot] = "done"
                new = True
                if slot[0] == "c":
                    self.heap[slot] = s
                elif kd in NOBOX:
                    self.heap[slot] = s
                else:
                    self.heap[slot] = self.alloc(s, frozenset(own) or None)
            if not new:
                break
        self.havocked = [s for s in mod]
        return NONE

    def _kjoin2(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        return self._kjoin(a, b)

    def _kind_in(self, heap, v):
        save, self.heap = self.heap, heap
        r = self._kindval(v)
        self.heap = save
        return r

    def _paths(self, h0, post):
        """names of cells: attribute of an object that refers to them."""
        out = {}
        for slot, v in h0.items():
            if slot[0] == "a":
                nm = slot[1].x if slot[1].k == "obj" else tm.show(slot[1], 3)
                for l in tm.leaves(v):
                    if l.k == "ref":
                        out.setdefault(("c", l.x), "%s.%s" % (nm, slot[2]))
                        c = h0.get(("c", l.x))
                        if c is not None and is_app(c) and c.h in ("dict", "list"):
                            for n_, x in enumerate(c.a):
                                y = x.a[1] if is_app(x, "tuple") and len(x.a) == 2 else x
                                if y.k == "ref":
                                    key = x.a[0].x if is_app(x, "tuple") and x.a[
                                        0].k == "const" else n_
                                    out.setdefault(("c", y.x), "%s.%s[%s]" % (nm, slot[2], key))
        return out
