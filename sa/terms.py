"""Hash-consed value graph terms, algebraic normal form and decision diagrams.

A *value* is either a leaf term or a decision node ``Node(atom, hi, lo)`` whose
leaves are terms (a multi-terminal ordered decision diagram: the gated-SSA phi
functions in canonical order).  Arithmetic is kept in a polynomial normal form
with rational exponents over opaque factors, comparisons in sign normal form.
Nothing here executes or imports the analysed program.
"""
from fractions import Fraction
import itertools

MAX_NODES = 60000
MAX_POLY = 160


class TooLarge(Exception):
    pass


class T:
    __slots__ = ("id", "k", "h", "a", "kw", "x", "_kind", "_fv")

    def __repr__(self):
        return show(self)


_table = {}
_ids = itertools.count(1)
_atom_order = {}
_order = itertools.count(1)


def _intern(k, h, a, kw, x):
    key = (k, h, tuple(t.id for t in a), tuple((n, t.id) for n, t in kw), x)
    t = _table.get(key)
    if t is None:
        t = T()
        t.id = next(_ids)
        if t.id > 3000000:
            raise TooLarge("term table")
        t.k, t.h, t.a, t.kw, t.x = k, h, a, kw, x
        t._kind = None
        t._fv = None
        _table[key] = t
    return t


# ---------------------------------------------------------------- leaves
def num(v):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return const(v)
        v = Fraction(repr(v))
    if isinstance(v, complex):
        return const(v)
    return _intern("num", None, (), (), Fraction(v))


def const(v):
    if isinstance(v, (int, float)) and not isinstance(v, bool):
        if isinstance(v, float) and (v != v or abs(v) == float("inf")):
            return _intern("const", "float", (), (), repr(v))
        return num(v)
    return _intern("const", type(v).__name__, (), (), v)


TRUE = const(True)
FALSE = const(False)
NONE = const(None)
ZERO = num(0)
ONE = num(1)


def sym(name, kind="any"):
    t = _intern("sym", name, (), (), kind)
    if t._kind is None:
        t._kind = kind
    return t


def raw(h, *a, kw=()):
    """An uninterpreted application, no normalisation."""
    return _intern("app", h, tuple(a), tuple(sorted(kw)), None)


def leafobj(k, h, x):
    return _intern(k, h, (), (), x)


def is_num(t):
    return t.k == "num"


def is_node(t):
    return t.k == "node"


def is_str(t):
    return t.k == "const" and t.h == "str"


def is_bool(t):
    return t is TRUE or t is FALSE


def is_app(t, h=None):
    return t.k == "app" and (h is None or t.h == h)


# ---------------------------------------------------------------- polynomials
# poly: x = tuple of (coeff, mono) ; mono = tuple of (base id, exp) ; a = bases
def to_poly(t):
    """dict mono->coeff ; mono: tuple of (base term, exponent) sorted by id."""
    if t.k == "num":
        return {(): t.x} if t.x else {}
    if t.k == "poly":
        return dict(_poly_items(t))
    if t is TRUE:
        return {(): Fraction(1)}
    if t is FALSE:
        return {}
    return {((t, Fraction(1)),): Fraction(1)}


def _poly_items(t):
    bases = {b.id: b for b in t.a}
    return [
        (tuple((bases[i], e) for i, e in mono), c) for c, mono in t.x
    ]


def from_poly(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    if len(d) > MAX_POLY:
        raise TooLarge("polynomial")
    items = sorted(
        ((c, tuple((b.id, e) for b, e in m)) for m, c in d.items()),
        key=lambda z: (z[1], z[0]),
    )
    bases = {}
    for m in d:
        for b, _ in m:
            bases[b.id] = b
    return _intern(
        "poly", None, tuple(bases[i] for i in sorted(bases)), (), tuple(items)
    )


INDICATOR = {"LT", "GT", "EQ", "isnan", "and?", "EQT", "isnone?"}


def _mono_mul(m1, m2):
    d = {}
    for b, e in itertools.chain(m1, m2):
        d[b] = d.get(b, 0) + e
    out = []
    for b, e in d.items():
        if e == 0:
            continue
        if b.k == "app" and b.h in INDICATOR and e > 0:
            e = Fraction(1)
        out.append((b, e))
    out.sort(key=lambda z: z[0].id)
    # re-expand polynomial bases that came back to a positive integer power
    return tuple(out)


def _fix_mono(m, c):
    """Return a poly dict for mono, expanding sum factors with int exponent > 0."""
    res = {(): c}
    rest = []
    for b, e in m:
        if b.k == "poly" and e.denominator == 1 and 0 < e <= 4:
            pb = to_poly(b)
            for _ in range(int(e)):
                res = _pmul(res, pb)
        elif b.k == "poly" and e > 1 and e.denominator != 1 and e < 4:
            whole = int(e)
            pb = to_poly(b)
            for _ in range(whole):
                res = _pmul(res, pb)
            rest.append((b, e - whole))
        else:
            rest.append((b, e))
    if rest:
        res = _pmul(res, {tuple(sorted(rest, key=lambda z: z[0].id)): Fraction(1)}, False)
    return res


def _pmul(p, q, fix=True):
    out = {}
    if len(p) * len(q) > 4000:
        raise TooLarge("product")
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = _mono_mul(m1, m2)
            if fix and any(b.k == "poly" and e > 0 and (e >= 1) for b, e in m):
                for mm, cc in _fix_mono(m, c1 * c2).items():
                    out[mm] = out.get(mm, 0) + cc
            else:
                out[m] = out.get(m, 0) + c1 * c2
    return {m: c for m, c in out.items() if c}


def add(*ts):
    d = {}
    for t in ts:
        for m, c in to_poly(t).items():
            d[m] = d.get(m, 0) + c
    return from_poly(d)


def scale(t, c):
    return from_poly({m: v * c for m, v in to_poly(t).items()})


def neg(t):
    return scale(t, Fraction(-1))


def sub(a, b):
    return add(a, neg(b))


def mul(*ts):
    p = {(): Fraction(1)}
    for t in ts:
        p = _pmul(p, to_poly(t))
    return from_poly(p)


def leading(t):
    """coefficient of the canonical leading monomial (structure order)."""
    p = to_poly(t)
    ms = sorted(p, key=lambda m: (-len(m), tuple((b.id, e) for b, e in m)))
    return p[ms[0]] if ms else Fraction(0)


def content(t):
    """(c, t') with t = c*t' and leading coefficient of t' equal to 1."""
    if t.k == "num":
        return t.x, ONE
    if t.k != "poly":
        return Fraction(1), t
    c = leading(t)
    if c == 1:
        return c, t
    return c, scale(t, 1 / c)


def _nroot(v, e):
    """v**e as Fraction if exact else None."""
    if e.denominator == 1:
        if v == 0 and e < 0:
            return None
        return Fraction(v) ** int(e)
    if v < 0:
        return None
    n = e.denominator
    def root(z):
        r = round(z ** (1.0 / n))
        for q in (r - 1, r, r + 1):
            if q >= 0 and q ** n == z:
                return q
        return None
    a, b = root(v.numerator), root(v.denominator)
    if a is None or b is None:
        return None
    if a == 0 and e < 0:
        return None
    return Fraction(a, b) ** e.numerator


def power(t, e):
    """t ** e for rational e."""
    e = Fraction(e)
    if e == 0:
        return ONE
    if e == 1:
        return t
    if t.k == "num":
        r = _nroot(t.x, e)
        if r is not None:
            return num(r)
        return from_poly({((t, e),): Fraction(1)})
    if t.k == "app" and t.h in INDICATOR and e > 0:
        return t
    if t.k == "poly":
        p = to_poly(t)
        if len(p) == 1:
            (m, c), = p.items()
            if e.denominator == 1:
                m2 = tuple((b, x * e) for b, x in m)
                r = _nroot(c, e)
                if r is not None:
                    return from_poly(_fix_mono(m2, r))
            else:
                r = _nroot(c, e)
                if r is not None and c != 1:
                    return from_poly(
                        _pmul({(): r}, to_poly(power(scale(t, 1 / c), e)))
                    )
                # all even powers of absolute values or odd single factors
                if len(m) == 1 and is_app(m[0][0]) and m[0][0].h in (
                    "abs", "sum_abs2", "len"
                ):
                    return from_poly({((m[0][0], m[0][1] * e),): Fraction(1)})
                # each factor already a fractional root: multiply exponents
                if all(x.denominator != 1 for _, x in m):
                    return from_poly({tuple((b, x * e) for b, x in m): Fraction(1)})
                return from_poly({((t, e),): Fraction(1)})
        if e.denominator == 1 and 0 < e <= 4 and len(p) <= 8:
            r = ONE
            for _ in range(int(e)):
                r = mul(r, t)
            return r
        c, t1 = content(t)
        if c != 1:
            r = _nroot(c, e) if (c > 0 or e.denominator == 1) else None
            if r is not None:
                return mul(num(r), from_poly({((t1, e),): Fraction(1)}))
        return from_poly({((t, e),): Fraction(1)})
    return from_poly({((t, e),): Fraction(1)})


def div(a, b):
    if b.k == "num" and b.x == 0:
        return raw("zerodiv", a)
    return mul(a, power(b, -1))


def is_zero(t, depth=0):
    """Decide t == 0 as rational function (clears denominators)."""
    if t is ZERO:
        return True
    if t.k != "poly" or depth > 6:
        return False
    p = to_poly(t)
    dens = {}
    for m in p:
        for b, e in m:
            if b.k == "poly" and e < 0:
                dens[b] = min(dens.get(b, 0), e)
    if not dens:
        return False
    b = sorted(dens, key=lambda z: z.id)[0]
    e = -dens[b]
    k = -(-e.numerator // e.denominator)
    try:
        res = {}
        pb = to_poly(b)
        for m, c in p.items():
            mm = dict(m)
            x = mm.pop(b, Fraction(0)) + k
            base = {tuple(sorted(mm.items(), key=lambda z: z[0].id)): c}
            w = int(x) if x >= 0 else 0
            for _ in range(w):
                base = _pmul(base, pb)
            if x - w:
                base = _pmul(base, {((b, x - w),): Fraction(1)}, False)
            for m2, c2 in base.items():
                res[m2] = res.get(m2, 0) + c2
        return is_zero(from_poly(res), depth + 1)
    except TooLarge:
        return False


# ---------------------------------------------------------------- decision nodes
def order_of(atom):
    o = _atom_order.get(atom.id)
    if o is None:
        o = _atom_order[atom.id] = next(_order)
    return o


_nodes = [0]


def mk(atom, hi, lo):
    if hi is lo:
        return hi
    hi = restrict_by(hi, atom, True)
    lo = restrict_by(lo, atom, False)
    if hi is lo:
        return hi
    _nodes[0] += 1
    if _nodes[0] > 2000000:
        raise TooLarge("decision diagram")
    return _intern("node", None, (atom, hi, lo), (), None)


_supp = {}


def support(v):
    """set of atoms of a decision diagram."""
    if v.k != "node":
        return frozenset()
    s = _supp.get(v.id)
    if s is None:
        s = frozenset([v.a[0]]) | support(v.a[1]) | support(v.a[2])
        _supp[v.id] = s
    return s


_rmemo = {}


def restrict_by(v, atom, val):
    """Remove from v atoms decided by (atom==val)."""
    if v.k != "node":
        return v
    todo = {}
    for b in support(v):
        r = implied(atom, val, b)
        if r is not None:
            todo[b] = r
    if not todo:
        return v
    return restrict(v, todo)


def restrict(v, lits):
    if v.k != "node":
        return v
    key = (v.id, tuple(sorted((b.id, x) for b, x in lits.items())))
    r = _rmemo.get(key)
    if r is not None:
        return r
    atom, hi, lo = v.a
    if atom in lits:
        r = restrict(hi if lits[atom] else lo, lits)
    else:
        h2, l2 = restrict(hi, lits), restrict(lo, lits)
        r = mk(atom, h2, l2)
    _rmemo[key] = r
    return r


def _rel(atom):
    """(base, const, rel) for sign atoms: base + const rel 0."""
    if atom.k == "app" and atom.h in ("LT", "GT", "EQ"):
        p = dict(to_poly(atom.a[0]))
        c = p.pop((), Fraction(0))
        return from_poly(p), c, atom.h
    return None


# place of the abstract scalar types of numpy in their hierarchy
DTYPE_CLASSES = {
    "numpy.generic": "g.", "numpy.number": "g.n.", "numpy.inexact": "g.n.x.",
    "numpy.floating": "g.n.x.f.", "numpy.complexfloating": "g.n.x.c.",
    "numpy.integer": "g.n.i.", "numpy.signedinteger": "g.n.i.s.",
    "numpy.unsignedinteger": "g.n.i.u.", "numpy.bool_": "g.b.", "builtins.bool": "g.b.",
}


def _dtype_class(x):
    return DTYPE_CLASSES.get(x.h) if x.k == "ext" else None


def implied(a, val, b):
    """Truth of atom b given atom a == val, or None."""
    if a is b:
        return val
    if a.k != "app" or b.k != "app":
        return None
    ra, rb = _rel(a), _rel(b)
    if ra and rb and ra[0] is rb[0]:
        # base rel -c ; value v = base;  a: v < -ca  etc.
        ta, tb = -ra[1], -rb[1]
        if val:
            if ra[2] == "LT":     # v < ta
                if rb[2] == "LT":
                    return True if tb >= ta else None
                if rb[2] in ("GT", "EQ"):
                    return False if tb >= ta else None
            if ra[2] == "GT":
                if rb[2] == "GT":
                    return True if tb <= ta else None
                return False if tb <= ta else None
            if ra[2] == "EQ":
                return {"LT": ta < tb, "GT": ta > tb, "EQ": ta == tb}[rb[2]]
        else:
            if ra[2] == "LT":     # v >= ta
                if rb[2] == "LT":
                    return False if tb <= ta else None
                if rb[2] == "GT":
                    return True if tb < ta else None
                return False if tb < ta else None
            if ra[2] == "GT":     # v <= ta
                if rb[2] == "GT":
                    return False if tb >= ta else None
                if rb[2] == "LT":
                    return True if tb > ta else None
                return False if tb > ta else None
        return None
    if a.h == "issubdtype" and b.h == "issubdtype" and a.a[0] is b.a[0]:
        ca, cb = _dtype_class(a.a[1]), _dtype_class(b.a[1])
        if not ca or not cb:
            return None
        if val:
            return True if ca.startswith(cb) else None if cb.startswith(ca) else False
        return False if cb.startswith(ca) else None
    if a.h in PATH_TESTS and b.h in PATH_TESTS and a.a == b.a:
        if val:
            return True if b.h == "exists" else False if a.h != "exists" else None
        return False if a.h == "exists" else None
    ga, gb = group(a), group(b)
    if ga is None or ga is not gb:
        return None
    return _theory(a, val, b)


PATH_TESTS = {"isfile", "isdir", "exists"}


OBJ_KINDS = {"op", "callable", "module", "object"}
TYPES_DISJOINT = {
    "builtins.int", "builtins.float", "builtins.str", "builtins.list",
    "builtins.tuple", "builtins.dict", "numpy.ndarray", "builtins.set",
    "numpy.random.Generator",
}
FALSY_IMPOSSIBLE = ()


def group(a):
    """The subject of a type/equality/truth atom."""
    if a.h in ("isnone", "eqc", "isinst", "truth", "callable"):
        return a.a[0]
    return None


def _theory(a, val, b):
    ha, hb = a.h, b.h
    subj = a.a[0]
    if val:
        if ha == "isnone":
            return False if hb in ("eqc", "isinst", "truth", "callable") else None
        if ha == "eqc":
            c = a.a[1]
            if hb == "isnone":
                return False
            if hb == "eqc":
                return False
            if hb == "truth":
                if is_str(c):
                    return bool(c.x)
            if hb == "callable":
                return False
            if hb == "isinst":
                tn = b.a[1].h
                if is_str(c):
                    return tn == "builtins.str"
                return None
        if ha == "isinst":
            if hb == "isnone":
                return False
            if hb == "isinst":
                x, y = a.a[1].h, b.a[1].h
                if x in TYPES_DISJOINT and y in TYPES_DISJOINT:
                    return False
            if hb == "eqc" and is_str(b.a[1]) and a.a[1].h in TYPES_DISJOINT:
                if a.a[1].h != "builtins.str":
                    return False
            if hb == "callable" and a.a[1].h in TYPES_DISJOINT:
                return False
        if ha == "truth":
            if hb == "isnone":
                return False
            if hb == "eqc" and is_str(b.a[1]) and not b.a[1].x:
                return False
        if ha == "callable":
            if hb in ("isnone", "eqc"):
                return False
            if hb == "isinst" and b.a[1].h in TYPES_DISJOINT:
                return False
    else:
        if kind_of(subj) in OBJ_KINDS:
            if ha == "isnone" and hb == "truth":
                return None
        if ha == "isinst" and a.a[1].h == "builtins.str":
            if hb == "eqc" and is_str(b.a[1]):
                return False
        if ha == "truth":
            if hb == "eqc" and is_str(b.a[1]) and b.a[1].x:
                return False
            if hb == "callable":
                return False
    return None


def ite(c, a, b):
    """c boolean diagram."""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return _ite(c, a, b, {})


def _ite(c, a, b, memo):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    key = (c.id, a.id, b.id)
    r = memo.get(key)
    if r is not None:
        return r
    tops = [v.a[0] for v in (c, a, b) if v.k == "node"]
    if not tops:
        raise AssertionError("ite on non-boolean " + repr(c))
    top = min(tops, key=order_of)
    def co(v, val):
        if v.k == "node" and v.a[0] is top:
            return v.a[1] if val else v.a[2]
        return v
    if len(memo) > MAX_NODES:
        raise TooLarge("ite")
    # apply implications of top inside the cofactors
    def co2(v, val):
        return restrict_by(co(v, val), top, val)
    hi = _ite(co2(c, True), co2(a, True), co2(b, True), memo)
    lo = _ite(co2(c, False), co2(a, False), co2(b, False), memo)
    r = mk(top, hi, lo)
    memo[key] = r
    return r


def lift(f, *vals):
    """Apply f on leaves pointwise (f may return a diagram)."""
    if all(v.k != "node" for v in vals):
        return f(*vals)
    return _lift(f, vals, {})


def _lift(f, vals, memo):
    key = tuple(v.id for v in vals)
    r = memo.get(key)
    if r is not None:
        return r
    tops = [v.a[0] for v in vals if v.k == "node"]
    if not tops:
        r = f(*vals)
    else:
        top = min(tops, key=order_of)
        def co(v, val):
            if v.k == "node" and v.a[0] is top:
                v = v.a[1] if val else v.a[2]
            return restrict_by(v, top, val)
        if len(memo) > MAX_NODES:
            raise TooLarge("lift")
        hi = _lift(f, tuple(co(v, True) for v in vals), memo)
        lo = _lift(f, tuple(co(v, False) for v in vals), memo)
        if hi is lo:
            r = hi
        elif (hi.k != "node" or order_of(hi.a[0]) > order_of(top)) and (
            lo.k != "node" or order_of(lo.a[0]) > order_of(top)
        ):
            r = mk(top, hi, lo)
        else:
            r = ite(mk(top, TRUE, FALSE), hi, lo)
    memo[key] = r
    return r


def atom(t):
    """boolean diagram of a single atom."""
    return mk(t, TRUE, FALSE)


def b_not(c):
    return ite(c, FALSE, TRUE)


def b_and(*cs):
    r = TRUE
    for c in cs:
        r = ite(r, c, FALSE)
    return r


def b_or(*cs):
    r = FALSE
    for c in cs:
        r = ite(r, TRUE, c)
    return r


def leaves(v):
    if v.k != "node":
        return [v]
    out, seen, st = [], set(), [v]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.k == "node":
            st += [x.a[2], x.a[1]]
        else:
            out.append(x)
    return out


# ---------------------------------------------------------------- kinds
SCALAR_HEADS = {
    "len", "vdot", "amax0", "item", "ndim", "size", "floordiv_s", "int", "float",
    "m:cost", "finfo_eps", "m:get_cost", "count_nonzero", "now", "LTs",
}
ARRAY_HEADS = {
    "m:op", "m:adj_op", "m:trans_op", "grad_of", "zeros", "zeros_like", "empty",
    "empty_like", "ones", "full", "arr", "copy", "reshape", "ravel", "transpose",
    "diag", "dot", "fill", "setitem", "argsort", "sort", "around", "pad", "rot90",
    "repeat", "where", "squeeze", "astype", "optcall", "arange", "unique",
    "nan_to_num", "roll", "to_backend", "hstack", "vstack", "outer", "map",
    "flip", "expand_dims", "conj", "isotonic", "convolve_fft", "fftconvolve",
    "linspace", "meshgrid", "concatenate", "stack",
}
PASS_HEADS = {"abs", "exp", "log10", "log", "sqrt", "max", "min", "sign", "real",
              "imag", "LT", "GT", "EQ", "isnan", "cos", "sin", "floordiv", "mod"}


def kind_of(t):
    if t._kind is not None:
        return t._kind
    k = _kind(t)
    t._kind = k
    return k


def _join_kinds(ks):
    ks = list(ks)
    if any(k == "array" for k in ks):
        return "array"
    if all(k in ("scalar", "bool", "int") for k in ks):
        return "scalar"
    return "any"


SCALAR_EXT = ("sys.float_info.", "math.pi", "math.e", "math.tau", "numpy.pi", "numpy.e")


def _kind(t):
    if t.k == "num" or t.k == "ext" and t.h.startswith("sys.float_info.") or \
            t.k == "ext" and t.h in SCALAR_EXT:
        return "scalar"
    if t.k == "const":
        return {"str": "str", "NoneType": "none", "bool": "bool"}.get(t.h, "const")
    if t.k == "poly":
        return _join_kinds(kind_of(b) for b in t.a)
    if t.k == "node":
        a, b = kind_of(t.a[1]), kind_of(t.a[2])
        return a if a == b else ("array" if "array" in (a, b) and "any" not in (a, b) else "any")
    if t.k == "app":
        if t.h in SCALAR_HEADS:
            return "scalar"
        if t.h in ARRAY_HEADS:
            return "array"
        if t.h in PASS_HEADS:
            return _join_kinds(kind_of(x) for x in t.a)
        if t.h in ("sum", "mean", "amax", "amin", "sum_abs2", "prod", "median", "std"):
            return "scalar" if not t.kw else "array"
        if t.h in ("list", "tuple", "dict", "set", "concat"):
            return "seq"
        if t.h == "call":
            return {"sfn": "scalar", "afn": "array"}.get(kind_of(t.a[0]), "any")
        if t.h in ("rng", "rng_fresh", "globalrng"):
            return "rng"
        if t.h in ("strcat", "tostr", "m:strftime", "m:decode", "m:rstrip", "m:strip",
                   "m:lower", "m:upper", "m:join", "m:format", "shlex.join", "os.path.join"):
            return "str"
        if t.h == "getitem" and t.a[0].k == "app" and t.a[0].h == "shape":
            return "scalar"
        if t.h == "getitem" and is_app(t.a[0], "getitem") and is_app(t.a[0].a[0], "svd") \
                and t.a[0].a[1].k == "num" and t.a[0].a[1].x == 1 \
                and kind_of(t.a[1]) in ("scalar", "int"):
            return "scalar"         # one singular value
    return "any"


# ---------------------------------------------------------------- traversal
def children(t):
    return t.a + tuple(v for _, v in t.kw)


def free(t):
    """set of sym terms occurring in t."""
    if t._fv is None:
        if t.k == "sym":
            t._fv = frozenset([t])
        else:
            s = frozenset()
            for c in children(t):
                s |= free(c)
            t._fv = s
    return t._fv


def heads(t, acc=None):
    acc = set() if acc is None else acc
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.k == "app":
            acc.add(x.h)
        elif x.k in ("ext", "closure", "bound", "cls", "ref", "obj"):
            acc.add(x.k + ":" + str(x.h))
        st.extend(children(x))
    return acc


def show(t, depth=7):
    if depth <= 0:
        return "…"
    if t.k == "num":
        return str(t.x) if t.x.denominator < 100000 else "%g" % float(t.x)
    if t.k == "const":
        return repr(t.x)
    if t.k == "sym":
        return t.h
    if t.k == "poly":
        parts = []
        for m, c in _poly_items(t):
            f = []
            if c != 1 or not m:
                f.append(str(c) if c.denominator < 100000 else "%g" % float(c))
            for b, e in m:
                s = show(b, depth - 1)
                f.append(s if e == 1 else "%s^%s" % (s, e))
            parts.append("*".join(f))
        return "(" + " + ".join(sorted(parts)) + ")"
    if t.k == "node":
        return "if[%s: %s else %s]" % tuple(show(x, depth - 1) for x in t.a)
    if t.k == "app":
        s = [show(x, depth - 1) for x in t.a] + [
            "%s=%s" % (n, show(v, depth - 1)) for n, v in t.kw
        ]
        return "%s(%s)" % (t.h, ", ".join(s))
    return "<%s %s>" % (t.k, t.h)
