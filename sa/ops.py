"""Smart constructors: normalisation of applications, comparisons, containers."""
from fractions import Fraction
from . import terms as tm
from .terms import (T, ZERO, ONE, TRUE, FALSE, NONE, num, const, sym, raw, lift, ite,
                    atom, b_and, b_or, b_not, mk, is_app, is_num, is_str, to_poly,
                    from_poly, kind_of, leaves)

CONSTRUCT = {"list", "tuple", "dict", "set", "map", "fold", "lam", "slice", "concat",
             "seq", "ev", "filt", "kwdict", "star", "flatmap"}


# ------------------------------------------------------------------ numbers
INT_HEADS = {"len", "ndim", "size", "int", "floordiv_i", "count_nonzero"}


def is_int(t):
    if t.k == "num":
        return t.x.denominator == 1
    if t.k == "sym":
        return t._kind == "int" or t.h.startswith("%")
    if t.k == "app":
        if t.h in INT_HEADS:
            return True
        if t.h in ("floordiv", "mod", "max", "min"):
            return all(is_int(x) for x in t.a)
        if t.h == "prod" or t.h == "shape":
            return True
        if t.h == "getitem" and is_app(t.a[0], "shape"):
            return True
        return False
    if t.k == "poly":
        return all(is_int(b) for b in t.a) and all(
            c.denominator == 1 and all(e.denominator == 1 and e > 0 for _, e in m)
            for c, m in t.x
        )
    return False


def nonneg(t):
    return t.k == "app" and t.h in ("len", "ndim", "size", "count_nonzero", "abs",
                                    "sum_abs2")


def add(a, b):
    return lift(_add, a, b)


def _seqlike(t):
    return t.k == "app" and t.h in ("list", "tuple", "concat", "map", "flatmap") or is_str(t) \
        or is_app(t, "strcat")


def _tuplelike(t):
    return is_app(t) and (t.h in ("tuple", "tupleof", "shape") or t.h == "getitem" and is_app(
        t.a[0], "shape") and is_app(t.a[1], "slice"))


def _add(a, b):
    if is_str(a) or is_str(b) or is_app(a, "strcat") or is_app(b, "strcat") or (
            kind_of(a) == "str" and kind_of(b) == "str"):
        return strcat([a, b])
    if a.k == "app" and b.k == "app" and _seqlike(a) and _seqlike(b):
        return concat(a, b)
    if (is_app(a, "list") or is_app(b, "list")) and not (is_num(a) or is_num(b)):
        return concat(a, b)
    if _tuplelike(a) and _tuplelike(b):
        parts = [raw("list", *x.a) if x.h == "tuple" else app("listof", [x.a[0]]) if x.h == "tupleof" else
                 raw("listof", x) for x in (a, b)]
        return app("tupleof", [concat(*parts)])
    a, b = unarr(a), unarr(b)
    return tm.add(a, b)


def sub(a, b):
    return lift(lambda x, y: tm.sub(unarr(x), unarr(y)), a, b)


def mul(a, b):
    return lift(_mul, a, b)


def _mul(a, b):
    if is_app(a, "list") or is_app(b, "list"):
        l, n = (a, b) if is_app(a, "list") else (b, a)
        if n.k == "num" and n.x.denominator == 1 and n.x * len(l.a) <= 12:
            return raw("list", *(l.a * max(0, int(n.x))))
        if n.k != "num" and len(l.a) == 1 and is_int(n):
            return map_(n, l.a[0], sym("%listmul", "int"))
        return raw("listmul", *sorted((a, b), key=lambda t: t.id))
    return tm.mul(unarr(a), unarr(b))


def div(a, b):
    return lift(lambda x, y: tm.div(unarr(x), unarr(y)), a, b)


def neg(a):
    return lift(lambda x: tm.neg(unarr(x)), a)


def power(a, e):
    return lift(_power, a, e)


def _power(a, e):
    a = unarr(a)
    if e.k == "num" and abs(e.x) <= 8:
        return tm.power(a, e.x)
    if e.k == "num" and a.k == "num" and e.x.denominator == 1:
        return tm.power(a, e.x)
    return raw("pow", a, e)


def floordiv(a, b):
    return lift(_floordiv, a, b)


def _floordiv(a, b):
    a, b = unarr(a), unarr(b)
    if a.k == "num" and b.k == "num" and b.x:
        return num(a.x // b.x)
    if b is ONE and is_int(a):
        return a
    return raw("floordiv", a, b)


def mod(a, b):
    return lift(_mod, a, b)


def _mod(a, b):
    if is_str(a):
        return raw("strmod", a, b)
    a, b = unarr(a), unarr(b)
    if a.k == "num" and b.k == "num" and b.x:
        return num(a.x % b.x)
    return raw("mod", a, b)


def unarr(t):
    """strip array conversions without dtype inside arithmetic."""
    while is_app(t) and t.h in ("arr", "copy") and not t.kw and not (
        is_app(t.a[0]) and t.a[0].h in ("list", "tuple", "concat")
    ):
        t = t.a[0]
    if t is TRUE:
        return ONE
    if t is FALSE:
        return ZERO
    return t


# ------------------------------------------------------------------ comparisons
def rel(op, a, b):
    return lift(lambda x, y: _rel(op, x, y), a, b)


def _ind(h, p):
    if p is TRUE or p is FALSE:
        p = ONE if p is TRUE else ZERO
    if p.k == "app" and p.h in ("EQ", "LT", "GT", "vLT", "eqc", "isnone") and not p.kw:
        # an indicator is 0 or 1
        return tm.sub(ONE, p) if h == "EQ" else p if h == "GT" else FALSE
    c, q = tm.content(p)
    if p.k == "num":
        v = p.x
        return TRUE if {"LT": v < 0, "GT": v > 0, "EQ": v == 0}[h] else FALSE
    if c < 0 and h != "EQ":
        h = "GT" if h == "LT" else "LT"
    if nonneg(q):
        if h == "LT":
            return FALSE
        if h == "GT" and q.h in INT_HEADS:
            return tm.sub(ONE, raw("EQ", q))
    if q.k == "poly" and h in ("LT", "GT") and all(
            x > 0 and all(nonneg(y) for y, e in m) for m, x in to_poly(q).items()):
        if h == "LT":
            return FALSE
        if to_poly(q).get((), 0) > 0:
            return TRUE
    if is_int(q):
        if h == "GT":
            # q > 0  <=> q >= 1 <=> not (q - 1 < 0)
            return tm.sub(ONE, _ind_raw("LT", tm.sub(q, ONE)))
        if h == "LT":
            return _ind_raw("LT", q)
    return raw(h, q)


def _ind_raw(h, q):
    # len(x) - 1 < 0  <=>  len(x) == 0
    if h == "LT":
        p = to_poly(q)
        cst = p.get((), Fraction(0))
        if cst == -1 and len(p) == 2:
            r = tm.add(q, ONE)
            if nonneg(r) and r.h in INT_HEADS:
                return raw("EQ", r)
    return raw(h, q)


def _rel(op, a, b):
    if op in ("==", "!="):
        r = _eq(a, b)
        return r if op == "==" else bnot_val(r)
    if a.k == "const" and b.k == "const" and a.h == b.h == "str":
        return const({"<": a.x < b.x, ">": a.x > b.x, "<=": a.x <= b.x,
                      ">=": a.x >= b.x}[op])
    if is_app(a, "parse_version") or is_app(b, "parse_version"):
        if op == "<":
            return raw("vLT", a, b)
        if op == ">=":
            return tm.sub(ONE, raw("vLT", a, b))
        if op == ">":
            return raw("vLT", b, a)
        return tm.sub(ONE, raw("vLT", b, a))
    p = tm.sub(unarr(a), unarr(b))
    if op == "<":
        return _ind("LT", p)
    if op == ">":
        return _ind("GT", p)
    if op == "<=":
        return bnot_val(_ind("GT", p))
    return bnot_val(_ind("LT", p))


def bnot_val(v):
    return lift(_bnot_leaf, v)


def _bnot_leaf(v):
    if v is TRUE:
        return FALSE
    if v is FALSE:
        return TRUE
    return tm.sub(ONE, v)


def _static_type(t):
    if t.k == "num":
        return "number"
    if t.k == "const":
        return {"str": "builtins.str", "NoneType": "none", "bool": "builtins.bool"}.get(
            t.h, t.h)
    if t.k in ("closure", "bound", "cls", "obj", "ext"):
        return t.k
    if t.k == "app":
        if t.h in ("list", "concat"):
            return "builtins.list"
        if t.h in ("tuple", "dict", "set"):
            return "builtins." + t.h
        if t.h == "map":
            return "builtins.list"
        if kind_of(t) == "str":
            return "builtins.str"
        if t.h == "arr":
            return "numpy.ndarray"
    if t.k == "poly" and kind_of(t) == "scalar":
        return "number"
    return None


def _eq(a, b):
    if a is b:
        return TRUE
    for x, y in ((a, b), (b, a)):
        if x is NONE:
            return is_none(y)
    if a.k in ("const", "num") and b.k in ("const", "num"):
        if a.k == "num" and b.k == "num":
            return FALSE if a.x != b.x else TRUE
        return const(a.x == b.x)
    if is_app(a) and is_app(b) and a.h in ("list", "tuple") and b.h == a.h:
        if len(a.a) != len(b.a):
            return FALSE
        r = TRUE
        for x, y in zip(a.a, b.a):
            r = b_and(r, cond_of(rel("==", x, y)))
        return r
    for x, y in ((a, b), (b, a)):
        if x.k == "const":
            st = _static_type(y)
            if st is not None and x.h == "str" and st != "builtins.str":
                return FALSE
            if is_app(y, "dtype"):
                return raw("eqc", y, x)
            if y.k == "sym" and kind_of(y) in ("op", "callable", "sfn", "afn", "observer",
                                               "handle", "bar"):
                return FALSE        # operators and functions are equal to no constant
            if x.k == "const":
                return raw("eqc", y, x)
    a2, b2 = unarr(a), unarr(b)
    if a2.k in ("num", "poly") or b2.k in ("num", "poly") or kind_of(a2) in (
        "scalar", "array", "int") or kind_of(b2) in ("scalar", "array", "int"):
        return _ind("EQ", tm.sub(a2, b2))
    if a.k in ("ext", "cls", "closure") and b.k in ("ext", "cls", "closure"):
        return FALSE
    x, y = sorted((a, b), key=lambda t: t.id)
    return raw("EQT", x, y)


def is_none(t):
    """value -> bool value"""
    return lift(_is_none, t)


def _is_none(t):
    if t is NONE:
        return TRUE
    if t.k in ("num", "const", "poly", "closure", "bound", "cls", "obj", "ext", "ref"):
        return FALSE
    if t.k == "app":
        if t.h in ("list", "tuple", "dict", "set", "concat", "map", "strcat", "fill",
                   "setitem", "LT", "GT", "EQ", "len"):
            return FALSE
        if kind_of(t) in ("scalar", "array"):
            return FALSE
    if t.k == "sym" and kind_of(t) in NOT_NONE or is_app(t, PROGRESS_BAR):
        return FALSE
    return atom(raw("isnone", t))


PROGRESS_BAR = "x:tqdm.auto.tqdm"


NOT_NONE = {"array", "scalar", "int", "str", "list", "dict", "op", "callable", "rng", "sfn",
            "afn", "observer", "handle", "bar", "bool", "oplist"}
KIND_TYPE = {"array": "numpy.ndarray", "scalar": "builtins.float", "int": "builtins.int",
             "str": "builtins.str", "list": "builtins.list", "dict": "builtins.dict",
             "rng": "numpy.random.Generator", "bool": "builtins.bool",
             "oplist": "builtins.list"}


BOOL_ATOMS = {"isnone", "eqc", "isinst", "truth", "callable", "hasattr", "in", "EQT",
              "LT", "GT", "EQ", "any", "all", "avail", "issubdtype", "isfile", "isdir", "access",
              "vLT", "isnan", "iscomplex", "m:startswith", "m:endswith", "iscuda",
              "m:is_complex", "is", "fails", "loopraise", "loopstop",
              "issubclass", "exists"}


def cond_of(v):
    """value -> boolean diagram (truthiness)."""
    return lift(_cond_leaf, v)


def _cond_leaf(t):
    if t is TRUE or t is FALSE:
        return t
    if t is NONE:
        return FALSE
    if t.k == "num":
        return const(bool(t.x))
    if t.k == "const":
        return const(bool(t.x))
    if t.k in ("closure", "bound", "cls", "ext", "obj"):
        return TRUE
    if t.k == "app":
        if t.h in BOOL_ATOMS:
            return atom(t)
        if t.h in ("list", "tuple", "set"):
            return const(bool(t.a))
        if t.h == "dict":
            return const(bool(t.a))
        if t.h == "setof":
            return b_not(cond_of(_ind("EQ", length(t.a[0]))))
        if t.h in ("set_intersection", "set_difference"):
            return TRUE     # only used where not empty
        if t.h == "concat":
            if any(is_app(x, "list") and x.a for x in t.a):
                return TRUE
        if t.h in ("len", "mod", "floordiv", "size", "ndim", "around", "count_nonzero",
                   "int"):
            return b_not(cond_of(_ind("EQ", t)))
        if t.h in ("map",):
            return b_not(cond_of(_ind("EQ", length(t))))
        if t.h == "copy" or t.h == "arr":
            pass
    if t.k == "poly":
        inds = [b for b in t.a]
        if inds and all(b.k == "app" and b.h in BOOL_ATOMS for b in inds) and len(inds) <= 8:
            def ev(lits):
                tot = Fraction(0)
                for m, c in tm._poly_items(t):
                    v = c
                    for b, e in m:
                        v = v * (1 if lits[b] else 0)
                    tot += v
                return const(bool(tot))
            def rec(i, lits):
                if i == len(inds):
                    return ev(lits)
                h = rec(i + 1, {**lits, inds[i]: True})
                l = rec(i + 1, {**lits, inds[i]: False})
                return ite(atom(inds[i]), h, l)
            return rec(0, {})
        return b_not(cond_of(_ind("EQ", t)))
    if kind_of(t) in ("scalar", "int"):
        return b_not(cond_of(_ind("EQ", t)))
    if kind_of(t) in ("list", "seq"):
        return b_not(cond_of(_ind("EQ", length(t))))
    if kind_of(t) in tm.OBJ_KINDS or kind_of(t) in ("sfn", "afn", "observer", "rng", "handle"):
        return b_not(cond_of(_is_none(t)))
    if is_app(t, PROGRESS_BAR):     # a progress bar is as true as its total
        total = dict(t.kw).get("total")
        if total is not None and total is not NONE:
            return cond_of(total)
    return atom(raw("truth", t))


def bool_val(c):
    """boolean diagram used as a value (kept as diagram)."""
    return c


def isinst(v, tnames):
    """tnames: list of type qualnames (strings)."""
    r = FALSE
    for n in tnames:
        r = b_or(r, lift(lambda x: _isinst(x, n), v))
    return r


NUMBER_TYPES = {"builtins.int", "builtins.float", "numbers.Number", "builtins.complex"}


def _isinst(t, n):
    if n == "builtins.NoneType":
        return cond_of(_is_none(t))
    st = _static_type(t)
    if t is NONE:
        return FALSE
    if st is not None and st not in ("number", "ext") and n.startswith(
            ("builtins.", "numpy.")):
        if st == "builtins.bool":
            return const(n in ("builtins.bool", "builtins.int"))
        return const(st == n)
    if st == "number" and n in ("builtins.str", "builtins.list", "builtins.tuple",
                                "builtins.dict", "numpy.ndarray"):
        return FALSE
    if t.k == "num":
        if n == "builtins.float":
            return TRUE  # literal numbers: int/float distinction is not tracked
        if n == "builtins.int":
            return const(t.x.denominator == 1)
    kt = KIND_TYPE.get(kind_of(t)) if t.k in ("sym", "app", "poly") else None
    if t.k == "poly" and kt == "builtins.int":
        kt = None
    if kt is not None and n.startswith(("builtins.", "numpy.")) and (
            n in tm.TYPES_DISJOINT or n == "builtins.bool"):
        if t.k == "sym" or kt == "numpy.ndarray":
            return const(kt == n or (kt == "builtins.bool" and n == "builtins.int"))
    if t.k == "sym" and kind_of(t) in ("op", "callable", "sfn", "afn", "observer") and (
            n in tm.TYPES_DISJOINT):
        return FALSE
    return atom(raw("isinst", t, _tname(n)))


def _tname(n):
    return raw(n)


# ------------------------------------------------------------------ containers
def tuple_(items):
    return raw("tuple", *items)


def list_(items):
    return raw("list", *items)


def concat(a, b):
    return lift(_concat, a, b)


def _parts(t):
    if is_app(t, "concat"):
        return list(t.a)
    return [t]


def _concat(a, b):
    if is_app(a, "tuple") and is_app(b, "tuple"):
        return raw("tuple", *(a.a + b.a))
    out = []
    for p in _parts(a) + _parts(b):
        if is_app(p, "list") and not p.a:
            continue
        if out and is_app(p, "list") and is_app(out[-1], "list"):
            out[-1] = raw("list", *(out[-1].a + p.a))
        else:
            out.append(p)
    if not out:
        return raw("list")
    if len(out) == 1:
        return out[0]
    return raw("concat", *out)


def dict_(pairs):
    """pairs: list of (key term, value)."""
    d = {}
    for k, v in pairs:
        d[k] = v
    items = []
    for k, v in d.items():
        items.append(raw("tuple", k, v))
    return raw("dict", *items)


def dict_items(t):
    return [(x.a[0], x.a[1]) for x in t.a]


def strcat(parts):
    out = []
    for p in parts:
        ps = p.a if is_app(p, "strcat") else (p,)
        for q in ps:
            if is_app(q, "tostr"):
                q = q.a[0]
            if q is NONE or q is TRUE or q is FALSE:
                q = const(str(q.x))
            if q.k == "num" and q.x.denominator == 1:
                q = const(str(int(q.x)))
            if is_str(q) and out and is_str(out[-1]):
                out[-1] = const(out[-1].x + q.x)
            elif is_str(q) and not q.x:
                continue
            else:
                out.append(q)
    if not out:
        return const("")
    if len(out) == 1 and is_str(out[0]):
        return out[0]
    return raw("strcat", *out)


ZIPPED = set()


def zipped(a, b):
    """iteration lengths taken as equal because the reference zips the sequences."""
    return a is b or (a.id, b.id) in ZIPPED or (b.id, a.id) in ZIPPED


def slice_(a, b, c):
    if a is NONE:
        a = ZERO if (c is NONE or (c.k == "num" and c.x > 0)) else a
    if c is NONE:
        c = ONE
    return raw("slice", a, b, c)


def int_arange(t):
    return is_app(t, "arange") and len(t.a) == 1 and not t.kw and is_int(t.a[0])


def length(t):
    return lift(_length, t)


def _repeated(t):
    """a number repeated"""
    return is_app(t, "repeat") and not t.kw and len(t.a) == 2 and (
        t.a[0].k == "num" or kind_of(t.a[0]) in ("scalar", "int")) and is_int(t.a[1])


def _length(t):
    if t.k == "const" and t.h == "str":
        return num(len(t.x))
    if t.k == "app":
        if t.h in ("list", "tuple", "set", "dict"):
            return num(len(t.a))
        if t.h == "concat":
            return tm.add(*[_length_leaf(x) for x in t.a])
        if t.h == "map" and not t.kw:
            return t.a[0]
        if t.h in ("arr", "copy", "setitem", "fill", "abs", "astype", "sorted",
                   "reversed", "sort", "argsort"):
            return _length_leaf(t.a[0])
        if t.h in ("zeros", "empty", "ones", "full"):
            s = t.a[0]
            if is_app(s, "tuple") and s.a:
                return s.a[0]
            if kind_of(s) in ("scalar", "int"):
                return s
        if _repeated(t):
            return t.a[1]
        if t.h == "zeros_like" or t.h == "empty_like":
            return _length_leaf(t.a[0])
        if t.h == "range" or int_arange(t):
            return t.a[0]
        if t.h == "shape":
            return raw("ndim", t.a[0])
        if t.h in ("listof", "tupleof", "values", "keys", "items") and len(t.a) == 1 \
                and not t.kw:
            return _length_leaf(t.a[0])
    c = carrier(t)
    if c is not t:
        return _length_leaf(c)
    if is_app(t, "bcast") and all(kind_of(x) == "array" for x in t.a):
        pass
    return raw("len", t)


def _length_leaf(t):
    r = length(t)
    if r.k == "node":
        return raw("len", t)
    return r


def getitem(b, i):
    return lift(_getitem, b, i)


def _one_dim(x):
    c = carrier(unarr(x))
    return is_app(c) and c.h in ("ravel", "unique", "sort", "argsort") and not c.kw and (
        c.h in ("ravel", "unique") or _one_dim(c.a[0]))


def _layout_only(b):
    """the layout of ravelled coefficients depends on the shape of the data, not on its values."""
    w = b.a[0] if b.a else None
    if is_app(w) and w.h.startswith("x:pywt.wavedec") and w.a and is_app(w.a[0]) and w.a[0].h in (
            "zeros", "ones", "empty") and w.a[0].a:
        d = raw("zeros", w.a[0].a[0])
        if d is not w.a[0]:
            return raw(b.h, raw(w.h, d, *w.a[1:], kw=w.kw), *b.a[1:], kw=b.kw)
    return b


def _getitem(b, i):
    if is_app(b, "x:pywt.ravel_coeffs") and i.k == "num" and i.x in (1, 2):
        b = _layout_only(b)
    # an element or a tail of a tail
    if is_app(b, "getitem") and is_app(b.a[1], "slice") and b.a[1].a[1] is NONE and all(
            x.k == "num" and x.x > -1 for x in (b.a[1].a[0], b.a[1].a[2])) and b.a[1].a[2].x > 0:
        lo, _, st = b.a[1].a
        if i.k == "num" and i.x >= 0:
            return _getitem(b.a[0], num(lo.x + i.x * st.x))
        if st is ONE and is_app(i, "slice") and i.a[2].k == "num" and i.a[2].x > 0 and i.a[
                0].k == "num" and i.a[0].x >= 0 and (
                i.a[1] is NONE or i.a[1].k == "num" and i.a[1].x < 0):
            return _getitem(b.a[0], slice_(num(lo.x + i.a[0].x), i.a[1], i.a[2]))
    # d[argsort(d)] is sort(d) for one-dimensional d
    if is_app(i, "argsort") and not i.kw and len(i.a) == 1 and i.a[0] is unarr(b) and _one_dim(b):
        return _n_sort([b], [])
    if is_app(i, "getitem") and is_app(i.a[0], "argsort") and is_app(i.a[1], "slice") \
            and not i.a[0].kw and len(i.a[0].a) == 1 and i.a[0].a[0] is unarr(b) and _one_dim(b):
        return _getitem(_n_sort([b], []), i.a[1])
    if is_app(i, "tuple") and len(i.a) == 1:
        i = i.a[0]
        if i.k == "node":
            return getitem(b, i)
    if is_app(b) and b.h in ("attr:handlers", "copylist") and is_app(i, "slice") \
            and i.a[0] is ZERO and i.a[1] is NONE and i.a[2] is ONE:
        return b                    # the whole of a list
    if b.k == "app":
        if _repeated(b) and b.a[1].k == "num" and i.k == "num" and i.x.denominator == 1 \
                and -b.a[1].x <= i.x < b.a[1].x:
            return b.a[0]
        if b.h in ("list", "tuple"):
            if i.k == "num" and i.x.denominator == 1:
                n = int(i.x)
                if -len(b.a) <= n < len(b.a):
                    return b.a[n]
                return raw("getitem", b, i)
            if is_app(i, "slice") and all(x.k == "num" or x is NONE for x in i.a):
                v = [None if x is NONE else int(x.x) for x in i.a]
                return raw(b.h, *b.a[slice(*v)])
        if b.h == "concat" and i.k == "num" and i.x.denominator == 1 and i.x >= 0:
            n = int(i.x)
            first = b.a[0]
            if is_app(first, "list"):
                if n < len(first.a):
                    return first.a[n]
                rest = b.a[1:]
                r = rest[0] if len(rest) == 1 else raw("concat", *rest)
                return getitem(r, num(n - len(first.a)))
            if is_app(first, "listof"):
                l = _length_leaf(first)
                rest = b.a[1:]
                r = rest[0] if len(rest) == 1 else raw("concat", *rest)
                k = sub(i, l)
                return ite(cond_of(rel("<", i, l)), getitem(first, i),
                           getitem(r, k) if is_num(k) else raw("getitem", r, k))
        if b.h == "listof" and (i.k == "num" and i.x >= 0 or is_int(i)) and is_app(b.a[0]):
            if b.a[0].h == "values":
                return raw("valat", b.a[0].a[0], i)
            if b.a[0].h == "getitem" and i.k == "num":
                return getitem(b.a[0], i)
        if b.h == "concat" and is_app(i, "slice") and i.a[1] is NONE and i.a[2] is ONE \
                and i.a[0].k == "num" and is_app(b.a[0], "list") \
                and len(b.a[0].a) == int(i.a[0].x):
            rest = b.a[1:]
            return rest[0] if len(rest) == 1 else raw("concat", *rest)
        if b.h == "concat" and i.k == "num" and i.x == -1 and is_app(b.a[-1], "list"):
            return b.a[-1].a[-1]
        if b.h == "dict":
            if i.k in ("const", "num"):
                for k, v in dict_items(b):
                    if k is i:
                        return v
                if all(k.k in ("const", "num") for k, _ in dict_items(b)):
                    return raw("keyerror", i)
            elif all(k.k in ("const", "num") for k, _ in dict_items(b)) and b.a:
                r = raw("keyerror", i)
                for k, v in reversed(dict_items(b)):
                    r = ite(cond_of(_eq(i, k)), v, r)
                return r
        if b.h == "map" and b.x is None and (
                i.k in ("sym", "poly") or (i.k == "num" and i.x >= 0)) and is_int(i):
            return beta(b, i)
        if b.h in ("arr",) and not b.kw and is_app(b.a[0]) and b.a[0].h in (
                "list", "tuple", "concat") and (i.k == "num"):
            return getitem(b.a[0], i)
        if b.h == "arr" and not b.kw and (i.k == "num" or is_index(i)):
            return getitem(b.a[0], i)
        if b.h == "copy":
            return getitem(b.a[0], i)
        if b.h == "shape" and i is ZERO:
            return _length_leaf(b.a[0])
        if (b.h == "range" or int_arange(b)) and (is_index(i) or i.k == "num" and i.x >= 0):
            return i
        if b.h == "items":
            return raw("tuple", raw("keyat", b.a[0], i), raw("valat", b.a[0], i))
        if b.h == "setitem":
            b0, j, v = b.a
            if j is i:
                return v
            if i.k == "num" and j.k == "num":
                return getitem(b0, i)
        if b.h == "fill" and is_index(i):
            return beta(b.a[1], i)
        if b.h == "zip" and len(b.a) == 1 and is_app(b.a[0], "star") and i.k == "num":
            # column of a transposed sequence of tuples
            z = sym("%zipstar", "int")
            src = b.a[0].a[0]
            return map_(length(src), getitem(elem(src, z), i), z)
        if b.h == "zip" and (is_index(i) or i.k == "num" and i.x >= 0) and not any(
                is_app(x, "star") for x in b.a):
            return raw("tuple", *[elem(x, i) for x in b.a])
        if b.h == "enumerate" and is_index(i):
            return raw("tuple", i, elem(b.a[0], i))
    return raw("getitem", b, i)


def is_index(t):
    return t.k == "sym" and t.h.startswith("%")


def elem(seq, i):
    """element i of an iterable value."""
    return getitem(seq, i)


def setitem(b, i, v):
    return lift(_setitem, b, i, v)


def _lastdisjoint(i, j):
    if is_app(i, "slice") and is_app(j, "slice"):
        return i.a[1] is j.a[0] or j.a[1] is i.a[0]
    return i.k == "num" and j.k == "num" and i is not j


def _halves(b, i, v, j, w):
    """a new vector of which the first part is set to v and the remaining one to w."""
    if not (is_app(b) and b.h in ("zeros", "empty", "ones") and not b.kw and is_app(i, "slice")
            and is_app(j, "slice") and i.a[0] is ZERO and i.a[2] is ONE and j.a[2] is ONE
            and i.a[1] is j.a[0] and _one_dim(v) and _one_dim(w)):
        return None
    n = _length_leaf(b)
    if j.a[1] is not NONE and j.a[1] is not n or _length_leaf(v) is not i.a[1] or \
            n.k == "node" or sub(n, i.a[1]) is not _length_leaf(w):
        return None
    return raw("concatenate", raw("list", v, w))


def _n_hstack(a, kw):
    x = a[0]
    if is_app(x) and x.h in ("list", "tuple") and x.a and not kw and all(map(_one_dim, x.a)):
        return raw("concatenate", raw("list", *x.a))
    return raw("hstack", *a, kw=kw)


def _setitem(b, i, v):
    if b.k == "app" and b.h == "list" and i.k == "num" and i.x.denominator == 1:
        n = int(i.x)
        if -len(b.a) <= n < len(b.a):
            items = list(b.a)
            items[n] = v
            return raw("list", *items)
    if b.k == "app" and b.h == "dict" and i.k in ("const", "num"):
        ps = dict_items(b)
        for n, (k, _) in enumerate(ps):
            if k is i:
                ps[n] = (k, v)
                return dict_(ps)
        return dict_(ps + [(i, v)])
    if is_app(i, "slice") and i.a == (ZERO, NONE, ONE) and is_app(v, "map"):
        return raw("fill", b, v)
    if b.k == "app" and b.h == "setitem":
        if b.a[1] is i and (i.k in ("num", "sym") or is_app(i, "slice")):
            return raw("setitem", b.a[0], i, v)
        h = _halves(b.a[0], b.a[1], b.a[2], i, v) or _halves(b.a[0], i, v, b.a[1], b.a[2])
        if h is not None:
            return h
        if _lastdisjoint(b.a[1], i) and b.a[1].id > i.id:
            return raw("setitem", _setitem(b.a[0], i, v), b.a[1], b.a[2])
    return raw("setitem", b, i, v)


# ------------------------------------------------------------------ binders
def _height(t, memo):
    if t.k == "sym" and t.h.startswith("#"):
        return int(t.h[1:].split(".")[0])
    k = memo.get(t.id)
    if k is None:
        k = 0
        for c in tm.children(t):
            k = max(k, _height(c, memo))
        memo[t.id] = k
    return k


def bvar(level):
    return sym("#%d" % level, "int")


def map_(n, body, idx, filt=None):
    """[body for idx in range(n) if filt] with idx a '%k' symbol."""
    if n.k == "num" and n.x.denominator == 1 and 0 <= n.x <= 12 and filt is None:
        return raw("list", *[subst(body, {idx: num(k)}) for k in range(int(n.x))])
    lev = 1 + max(_height(body, {}), _height(filt, {}) if filt is not None else 0)
    bv = bvar(lev)
    b = subst(body, {idx: bv})
    f = subst(filt, {idx: bv}) if filt is not None else TRUE
    # eta: [S[i] for i in range(len S)] is S as a list
    if f is TRUE and is_app(b, "getitem") and b.a[1] is bv and bv not in tm.free(b.a[0]):
        if _length_leaf(b.a[0]) is n:
            return raw("listof", b.a[0])
    if f is TRUE and is_app(b, "valat") and b.a[1] is bv and bv not in tm.free(b.a[0]) \
            and _length_leaf(b.a[0]) is n:
        return raw("listof", raw("values", b.a[0]))
    def build(fl, bb):
        if fl is TRUE:
            return raw("map", n, bb, bv)
        return raw("map", n, bb, bv, kw=(("filt", fl),))
    # lift conditions independent of the bound variable
    return _hoist(b, bv, lambda bb: _hoist(f, bv, lambda ff: build(ff, bb)))


def _hoist(v, bv, k):
    ats = [a for a in tm.support(v) if bv not in tm.free(a)]
    if not ats:
        return k(v)
    a = min(ats, key=tm.order_of)
    hi = _hoist(tm.restrict(v, {a: True}), bv, k)
    lo = _hoist(tm.restrict(v, {a: False}), bv, k)
    return ite(atom(a), hi, lo)


def beta(m, i):
    if is_app(m, "listof"):
        return getitem(m.a[0], i)
    n, b, bv = m.a
    return subst(b, {bv: i})


# ------------------------------------------------------------------ substitution
def subst(v, env):
    """Replace sym terms; renormalise."""
    keys = frozenset(env)
    return _subst(v, env, keys, {})


def _subst(t, env, keys, memo):
    if not (tm.free(t) & keys):
        return t
    r = memo.get(t.id)
    if r is not None:
        return r
    if t.k == "sym":
        r = env.get(t, t)
    elif t.k == "node":
        c = cond_of(_subst(t.a[0], env, keys, memo))
        r = ite(c, _subst(t.a[1], env, keys, memo), _subst(t.a[2], env, keys, memo))
    elif t.k == "poly":
        r = ZERO
        for m, c in tm._poly_items(t):
            x = num(c)
            for b, e in m:
                x = mul(x, power(_subst(b, env, keys, memo), num(e)))
            r = add(r, x)
    elif t.k == "app":
        args = [_subst(x, env, keys, memo) for x in t.a]
        kw = [(n, _subst(x, env, keys, memo)) for n, x in t.kw]
        r = app(t.h, args, kw)
    else:
        r = t
    memo[t.id] = r
    return r


def app(h, args, kw=()):
    """normalising application on values."""
    kw = list(kw)
    if h in CONSTRUCT:
        return raw(h, *args, kw=kw)
    names = [n for n, _ in kw]
    na = len(args)
    def f(*xs):
        return app_leaf(h, list(xs[:na]), list(zip(names, xs[na:])))
    return lift(f, *args, *[v for _, v in kw])


LINEAR1 = {"sum", "mean", "transpose", "reshape", "ravel", "conj", "squeeze", "real",
           "imag"}


def app_leaf(h, a, kw):
    f = NORM.get(h)
    if f is not None:
        return f(a, kw)
    return raw(h, *a, kw=kw)


def _n_abs(a, kw):
    x = unarr(a[0])
    if x.k == "num":
        return num(abs(x.x))
    c, y = tm.content(x)
    if is_app(y, "abs"):
        return tm.scale(y, abs(c))
    if nonneg(y):
        return tm.scale(y, abs(c))
    return tm.scale(raw("abs", y), abs(c))


def _listof(x):
    """normalise sequences given to reductions."""
    if is_app(x, "listof"):
        return x.a[0]
    if is_app(x) and x.h in ("arr", "copy") and not x.kw:
        return _listof(x.a[0])
    return x


def _n_sum(a, kw):
    x = _listof(a[0])
    kw = [(n, v) for n, v in kw if not (n == "axis" and v is NONE)]
    kwd = dict(kw)
    ax0 = kwd.get("axis") is ZERO
    if _repeated(x) and (ax0 or not kw):
        return mul(*x.a)
    if is_app(x) and x.h in ("list", "tuple"):
        if ax0 or all(kind_of(i) in ("scalar", "bool", "int") for i in x.a):
            r = ZERO
            for i in x.a:
                r = add(r, i)
            return r
    if is_app(x, "map") and not kw:
        b = x.a[1]
        if all(is_app(l) and l.h in ("tuple", "list") and len(l.a) == 1 for l in leaves(b)):
            b = lift(lambda l: l.a[0], b)       # the sum over all axes
            x = raw("map", x.a[0], b, x.a[2], kw=x.kw)
        if all(kind_of(l) in ("scalar", "bool", "int") for l in leaves(b)):
            kw = [("axis", ZERO)]
            ax0 = True
    if is_app(x, "map") and ax0 and len(kw) == 1:
        # pull numeric factors
        b = x.a[1]
        if b.k != "node":
            c, y = tm.content(b)
            if c != 1:
                return tm.scale(raw("sum", raw("map", x.a[0], y, x.a[2], kw=x.kw),
                                    kw=kw), c)
    if x.k == "num":
        return raw("sum", x, kw=kw)
    c, y, s = _pull(x)
    if is_app(y, "sumsq_dummy"):
        pass
    p = to_poly(y)
    if len(p) == 1:
        (m, cc), = p.items()
        if len(m) == 1 and is_app(m[0][0], "abs") and m[0][1] == 2:
            return tm.mul(num(c), s, raw("sum_abs2", m[0][0].a[0], kw=kw))
    return tm.mul(num(c), s, raw("sum", y, kw=kw))


def _pull(x):
    """x = c * s * y with c numeric, s product of scalar factors."""
    c, y = tm.content(x)
    if y.k == "poly":
        p = to_poly(y)
        if len(p) == 1:
            (m, cc), = p.items()
            sc = [(b, e) for b, e in m if kind_of(b) in ("scalar", "int")]
            ar = [(b, e) for b, e in m if kind_of(b) not in ("scalar", "int")]
            if sc and ar:
                return c, from_poly({tuple(ar): Fraction(1)}), from_poly(
                    {tuple(sc): Fraction(1)})
    return c, y, ONE


def _n_mean(a, kw):
    """mean -> sum divided by the number of entries"""
    x = _listof(a[0])
    kw = [(n, v) for n, v in kw if not (n == "axis" and v is NONE)]
    d = dict(kw)
    if x.k == "num":
        return x
    if set(d) - {"axis"} or (d and d["axis"].k != "num"):
        return raw("mean", x, kw=kw)
    if not d:
        cnt = _n_size([x], [])
    elif d["axis"] is ZERO:
        cnt = _length_leaf(x)
    else:
        cnt = raw("getitem", raw("shape", unarr(x)), d["axis"])
    return div(_n_sum([x], kw), cnt)


def _n_norm(a, kw):
    """euclidean norm -> sqrt of the sum of squared moduli"""
    x = _listof(a[0])
    ordv = a[1] if len(a) > 1 else dict(kw).get("ord", NONE)
    kw = [(n, v) for n, v in kw if n != "ord" and not (n == "axis" and v is NONE)
          and not (n == "keepdims" and v is FALSE)]
    if ordv is not NONE:
        return raw("norm_ord", x, ordv, kw=kw)
    x = unarr(x)
    if x.k == "num":
        return num(abs(x.x))
    c, y = tm.content(x)
    if not kw and kind_of(x) == "scalar":
        return _n_abs([x], [])
    if is_app(y, "abs"):
        y = y.a[0]
    return tm.scale(tm.power(raw("sum_abs2", y, kw=kw), Fraction(1, 2)), abs(c))


def _n_vdot(a, kw):
    x, y = unarr(a[0]), unarr(a[1])
    c1, x = tm.content(x)
    c2, y = tm.content(y)
    if x is y:
        return tm.scale(raw("sum_abs2", x), c1 * c2)
    return tm.scale(raw("vdot", x, y), c1 * c2)


def _n_inner(a, kw):
    x, y = unarr(a[0]), unarr(a[1])
    c1, x = tm.content(x)
    c2, y = tm.content(y)
    x, y = sorted((x, y), key=lambda t: t.id)
    return tm.scale(raw("inner", x, y), c1 * c2)


def _n_dot(a, kw):
    x, y = unarr(a[0]), unarr(a[1])
    c1, x = tm.content(x)
    c2, y = tm.content(y)
    return tm.scale(raw("dot", x, y), c1 * c2)


def _n_exp(a, kw):
    x = unarr(a[0])
    return ONE if x is ZERO else raw("exp", x)


def _n_sqrt(a, kw):
    x = unarr(a[0])
    return tm.power(x, Fraction(1, 2))


def _n_log10(a, kw):
    return raw("log10", unarr(a[0]))


def _n_max(a, kw):
    """elementwise maximum: y + (x - y)[x > y] in canonical orientation"""
    x, y = unarr(a[0]), unarr(a[1])
    if x.k == "num" and y.k == "num":
        return num(max(x.x, y.x))
    if kind_of(x) in ("scalar", "int") and kind_of(y) in ("scalar", "int"):
        return smax(x, y)
    if not _arith(x) or not _arith(y):
        x, y = sorted((x, y), key=lambda t: t.id)
        return raw("max", x, y)
    if y is ZERO and nonneg(x):
        return x
    if x is ZERO and nonneg(y):
        return y
    d = tm.sub(x, y)
    if d.k == "num":
        return x if d.x > 0 else y
    c, q = tm.content(d)
    if c < 0:
        x, y, d = y, x, tm.neg(d)
    return tm.add(y, tm.mul(d, _ind("GT", d)))


def _arith(t):
    return t.k in ("num", "poly", "sym", "app") and not (
        t.k == "app" and t.h in ("list", "tuple", "concat", "map"))


def _n_min(a, kw):
    x, y = unarr(a[0]), unarr(a[1])
    if x.k == "num" and y.k == "num":
        return num(min(x.x, y.x))
    if kind_of(x) in ("scalar", "int") and kind_of(y) in ("scalar", "int"):
        return smin(x, y)
    if not _arith(x) or not _arith(y):
        x, y = sorted((x, y), key=lambda t: t.id)
        return raw("min", x, y)
    return tm.sub(tm.add(x, y), _n_max([x, y], []))


def smax(x, y):
    if x is y:
        return x
    x, y = sorted((x, y), key=lambda t: t.id)
    return ite(cond_of(_rel("<", x, y)), y, x)


def smin(x, y):
    if x is y:
        return x
    x, y = sorted((x, y), key=lambda t: t.id)
    return ite(cond_of(_rel("<", x, y)), x, y)


NAN_TESTS = {"isnan", "isinf", "isfinite"}


def _n_where(a, kw):
    if len(a) == 1:
        return raw("where1", a[0])
    c, x, y = a
    c = unarr(c)
    if c.k == "poly":
        d = tm.sub(ONE, c)          # where(~c, x, y)
        if is_app(d) and d.h in NAN_TESTS:
            c, x, y = d, y, x
    if is_app(c) and c.h in NAN_TESTS:
        # not an arithmetic selection: nan * 0 is nan
        if x.k == "num":
            return _setitem(unarr(y), c, x)
        return raw("where", c, x, y)
    if c.k == "app" and c.h in BOOL_ATOMS or c.k == "poly":
        return tm.add(tm.mul(c, unarr(x)), tm.mul(tm.sub(ONE, c), unarr(y)))
    return raw("where", c, x, y)


def _n_arr(a, kw):
    x = a[0]
    kw = [(n, v) for n, v in kw if n not in ("copy", "order") and not (
        n == "dtype" and v is NONE)]
    if not kw:
        if is_app(x, "listof"):
            x = x.a[0]
        if is_app(x) and x.h in ("arr", "copy"):
            return x if x.h == "arr" else _n_arr([x.a[0]], [])
        if kind_of(x) == "array":
            return x
        if x.k == "poly":
            return x
        if x.k == "sym" and kind_of(x) in ("array",):
            return x
        if is_app(x, "tuple"):
            x = raw("list", *x.a)
    else:
        if is_app(x) and x.h in ("arr", "copy") and not x.kw:
            x = x.a[0]
        if is_app(x, "listof"):
            x = x.a[0]
    return raw("arr", x, kw=kw)


def _n_copy(a, kw):
    x = a[0]
    return _n_arr([x], [])


def _n_transpose(a, kw):
    x = unarr(a[0])
    if kw or len(a) > 1:
        ax = dict(kw).get("axes") or (a[1] if len(a) > 1 else NONE)
        if ax is not NONE:
            return raw("transpose", x, kw=(("axes", ax),))
    c, y = tm.content(x)
    if is_app(y, "transpose") and not y.kw:
        return tm.scale(y.a[0], c)
    if is_app(y, "conj"):
        return tm.scale(_n_conj([_n_transpose([y.a[0]], [])], []), c)
    return tm.scale(raw("transpose", y), c)


def _n_conj(a, kw):
    x = unarr(a[0])
    c, y = tm.content(x)
    if is_app(y, "conj"):
        return tm.scale(y.a[0], c)
    return tm.scale(raw("conj", y), c)


def _n_reshape(a, kw):
    x = a[0]
    kwd = dict(kw)
    order = kwd.get("order")
    shp = a[1] if len(a) > 1 else kwd.get("newshape", kwd.get("shape"))
    if is_app(shp, "list"):
        shp = raw("tuple", *shp.a)
    if is_app(shp, "arr") and is_app(shp.a[0]) and shp.a[0].h == "list":
        shp = raw("tuple", *shp.a[0].a)
    if is_app(shp, "concat"):
        pass
    if shp is num(-1) or (is_app(shp, "tuple") and shp.a == (num(-1),)):
        return app_leaf("ravel", [x], [])
    if shp.k != "app" or shp.h not in ("tuple",):
        if kind_of(shp) in ("scalar", "int"):
            shp = raw("tuple", shp)
    x = unarr(x)
    if is_app(x) and x.h == "reshape" and not x.kw and not order:
        x = x.a[0]
    if is_app(x) and x.h == "ravel" and not x.kw and not order:
        x = x.a[0]
    if is_app(shp, "shape") and shp.a[0] is x and not order:
        return x
    return raw("reshape", x, shp, kw=(("order", order),) if order is not None else ())


def _n_ravel(a, kw):
    x = unarr(a[0])
    if kw or len(a) > 1:
        return raw("ravel", *([x] + a[1:]), kw=kw)
    if is_app(x) and x.h in ("reshape", "ravel") and not x.kw:
        x = x.a[0]
    return raw("ravel", x)


ELEMENTWISE = {"abs", "conj", "around", "LT", "GT", "EQ", "exp", "log10", "log", "cos", "sin",
               "sign", "real", "imag", "isnan", "nan_to_num", "max", "min", "mod", "floordiv",
               "floor", "astype", "angle", "sort", "copy", "zeros_like", "ones_like",
               "empty_like"}


def _carriers(x, out):
    """arrays whose broadcast shape is the shape of an elementwise expression."""
    if x.k == "poly":
        for b in x.a:
            _carriers(b, out)
    elif x.k == "app" and x.h in ("astype", "around", "sort"):
        _carriers(x.a[0], out)
    elif x.k == "app" and x.h in ELEMENTWISE:
        for b in x.a:
            _carriers(b, out)
    elif x.k == "app" and x.h == "setitem":
        _carriers(x.a[0], out)
    elif x.k == "num" or kind_of(x) in ("scalar", "int", "bool"):
        pass
    else:
        out.add(x)


def carrier(x):
    if x.k == "poly" or (x.k == "app" and (x.h in ELEMENTWISE or x.h == "setitem")):
        out = set()
        _carriers(x, out)
        if len(out) == 1:
            return unarr(out.pop())
        if out:
            return raw("bcast", *sorted(out, key=lambda z: z.id))
    return x


def _n_shape(a, kw):
    x = carrier(unarr(a[0]))
    if is_app(x) and x.h in ("abs", "zeros_like", "copy", "empty_like", "conj", "around",
                             "nan_to_num", "setitem", "fill", "sort", "argsort",
                             "astype"):
        return _n_shape([x.a[0]], [])
    if is_app(x) and x.h in ("zeros", "empty", "ones"):
        s = x.a[0]
        if is_app(s) and s.h in ("tuple", "shape"):
            return s
        if kind_of(s) in ("scalar", "int"):
            return raw("tuple", s)
    if is_app(x, "reshape") and is_app(x.a[1], "tuple"):
        if not any(i is num(-1) for i in x.a[1].a):
            return x.a[1]
    return raw("shape", x)


def _n_len(a, kw):
    return _length(a[0])


def _n_size(a, kw):
    x = carrier(unarr(a[0]))
    if kind_of(x) in ("list", "seq", "oplist"):
        return length(x)
    if is_app(x) and x.h in ("arr", "repeat", "listof") and kind_of(x.a[0]) in (
            "list", "seq", "oplist") and x.h != "repeat":
        return length(x.a[0])
    if is_app(x) and x.h in ("abs", "conj", "around", "ravel"):
        return _n_size([x.a[0]], [])
    if _repeated(x):
        return x.a[1]
    return raw("size", x)


def _n_around(a, kw):
    d = dict(kw)
    dec = a[1] if len(a) > 1 else d.get("decimals", ZERO)
    x = unarr(a[0])
    c, y = tm.content(x)
    if c < 0:
        return tm.neg(raw("around", tm.neg(x), dec))
    return raw("around", x, dec)


def _n_prod(a, kw):
    x = _listof(a[0])
    kw = [(n, v) for n, v in kw if not (n == "axis" and v is NONE)]
    if is_app(x) and x.h in ("tuple", "list") and not kw and len(x.a) <= 6:
        r = ONE
        for i in x.a:
            r = mul(r, i)
        return r
    if is_app(x, "shape") and not kw:
        return app_leaf("size", [x.a[0]], [])
    return raw("prod", x, kw=kw)


def _n_zeros(h):
    def f(a, kw):
        s = a[0]
        kw = [(n, v) for n, v in kw if not (
            n == "dtype" and v.k == "ext" and v.h in ("builtins.float", "numpy.float64"))]
        if len(a) > 1:
            kw.append(("dtype", a[1]))
        if is_app(s, "list"):
            s = raw("tuple", *s.a)
        if is_app(s, "tuple") and len(s.a) == 1:
            s = s.a[0]
        return raw(h, s, kw=kw)
    return f


def _n_dtype(a, kw):
    if is_app(a[0], "astype"):
        return a[0].a[1]
    if _repeated(a[0]) and a[0].a[0].k == "num" and a[0].a[0].x.denominator > 1:
        return tm.leafobj("ext", "builtins.float", None)
    return raw("dtype", *a, kw=kw)


def _n_astype(a, kw):
    x = a[0]
    d = a[1] if len(a) > 1 else dict(kw).get("dtype")
    if is_app(x, "astype") and x.a[1] is d:
        return x
    return raw("astype", x, d)


def _n_int(a, kw):
    x = a[0]
    if x.k == "num":
        return num(int(x.x))
    if is_int(x):
        return x
    return raw("int", x)


def _n_float(a, kw):
    x = a[0]
    if x.k == "num":
        return x
    return raw("float", x)


def _n_any(a, kw):
    x = _listof(a[0])
    kw = [(n, v) for n, v in kw if not (n == "axis" and v is NONE)]
    if is_app(x) and x.h in ("list", "tuple", "set") and not kw:
        r = FALSE
        for i in x.a:
            r = b_or(r, cond_of(i))
        return r
    if is_app(x, "map") and not kw:
        return any_map(x)
    return raw("any", x, kw=kw)


def any_map(m):
    n, b, bv = m.a
    f = dict(m.kw).get("filt", TRUE)
    c = b_and(f, cond_of(b))
    if c is FALSE:
        return FALSE
    return raw("any", raw("map", n, c, bv))


def _n_all(a, kw):
    x = _listof(a[0])
    kw = [(n, v) for n, v in kw if not (n == "axis" and v is NONE)]
    if is_app(x) and x.h in ("list", "tuple", "set") and not kw:
        r = TRUE
        for i in x.a:
            r = b_and(r, cond_of(i))
        return r
    if is_app(x, "map") and not kw:
        n, b, bv = x.a
        f = dict(x.kw).get("filt", TRUE)
        c = b_and(f, b_not(cond_of(b)))
        if c is FALSE:
            return TRUE
        return bnot_val(raw("any", raw("map", n, c, bv)))
    # all(x) == not any(not x) for masks
    if x.k == "app" and x.h in ("LT", "GT", "EQ") or x.k == "poly":
        return bnot_val(raw("any", _bnot_leaf(x), kw=kw))
    return raw("all", x, kw=kw)


def _n_np_any(a, kw):
    x = unarr(_listof(a[0]))
    if is_app(x, "mod") or kind_of(x) == "array" and not (
            x.k == "app" and x.h in BOOL_ATOMS) and x.k != "poly":
        return raw("any", tm.sub(ONE, _ind("EQ", x)), kw=kw)
    return _n_any([x], kw)


def _n_np_all(a, kw):
    x = unarr(_listof(a[0]))
    if is_app(x, "mod"):
        return bnot_val(raw("any", _ind("EQ", x), kw=kw))
    return _n_all([x], kw)


def _n_array_equal(a, kw):
    x, y = unarr(a[0]), unarr(a[1])
    if not kw and _n_shape([x], []) is _n_shape([y], []):
        return _n_np_all([_rel("==", x, y)], [])
    return raw("array_equal", x, y, kw=kw)


def _n_repeat(a, kw):
    d = dict(kw)
    n = a[1] if len(a) > 1 else d.get("repeats")
    kw = [(k, v) for k, v in kw if k != "repeats"]
    x = a[0]
    return raw("repeat", unarr(x), n, kw=kw)


def _n_split(a, kw):
    if is_app(a[0], "m:shlexjoin") and len(a) == 1:
        pass
    return raw("m:split", *a, kw=kw)


def _n_shlex_split(a, kw):
    if is_app(a[0], "shlex.join"):
        x = a[0].a[0]
        return x
    return raw("shlex.split", *a, kw=kw)


def _n_listof(a, kw):
    x = a[0]
    if is_app(x) and x.h in ("list", "map", "concat", "listof", "flatmap", "sorted"):
        return x
    if is_app(x) and x.h in ("tuple", "set"):
        return raw("list", *x.a)
    if is_app(x, "dict"):
        return raw("list", *[k for k, _ in dict_items(x)])
    if _repeated(x) and x.a[1].k == "num" and x.a[1].x.denominator == 1 and 0 <= x.a[1].x <= 8:
        return raw("list", *[x.a[0]] * int(x.a[1].x))
    if is_app(x) and x.h in ("items", "keys", "values") and is_app(x.a[0], "dict"):
        return raw("list", *[raw("tuple", k, v) if x.h == "items" else k if x.h == "keys" else v
                             for k, v in dict_items(x.a[0])])
    return raw("listof", x)


def _n_tupleof(a, kw):
    x = a[0]
    if is_app(x) and x.h in ("list", "tuple"):
        return raw("tuple", *x.a)
    if is_app(x, "listof"):
        return raw("tupleof", x.a[0])
    if is_app(x, "shape"):
        return x
    return raw("tupleof", x)


def _n_sort(a, kw):
    x = unarr(_listof(a[0]))
    if not kw and len(a) == 1 and is_app(x) and x.h in ("sort", "unique") and not x.kw \
            and len(x.a) == 1:
        return x
    return raw("sort", unarr(_listof(a[0])), *a[1:], kw=kw)


def _n_unary_lin(h):
    def f(a, kw):
        x = unarr(_listof(a[0])) if a else a
        return raw(h, *([x] + a[1:]), kw=kw)
    return f


def _n_mono(h):
    """min/max reductions"""
    def f(a, kw):
        x = _listof(a[0])
        kw = [(n, v) for n, v in kw if not (n == "axis" and v is NONE)]
        return raw(h, unarr(x), *a[1:], kw=kw)
    return f


def _n_map(a, kw):
    return raw("map", *a, kw=kw)


def _n_floor(a, kw):
    return raw("floor", unarr(a[0]))


def _n_arange(a, kw):
    d = dict(kw)
    if len(a) == 1 and not kw:
        return raw("arange", a[0])
    return raw("arange", *a, kw=kw)


def _n_fill(a, kw):
    return raw("fill", *a)


def _n_getitem(a, kw):
    return _getitem(*a)


def _n_setitem(a, kw):
    return _setitem(*a)


def _n_ind(h):
    return lambda a, kw: _ind(h, a[0])


NORM = {
    "abs": _n_abs, "sum": _n_sum, "mean": _n_mean, "norm": _n_norm, "vdot": _n_vdot,
    "inner": _n_inner, "dot": _n_dot, "exp": _n_exp, "sqrt": _n_sqrt, "log10": _n_log10,
    "max": _n_max, "min": _n_min, "where": _n_where, "arr": _n_arr, "copy": _n_copy,
    "transpose": _n_transpose, "conj": _n_conj, "reshape": _n_reshape, "ravel": _n_ravel,
    "shape": _n_shape, "len": _n_len, "size": _n_size, "around": _n_around,
    "prod": _n_prod, "zeros": _n_zeros("zeros"), "empty": _n_zeros("empty"),
    "ones": _n_zeros("ones"), "astype": _n_astype, "dtype": _n_dtype, "int": _n_int, "float": _n_float,
    "any": _n_any, "all": _n_all, "np_any": _n_np_any, "np_all": _n_np_all,
    "repeat": _n_repeat, "array_equal": _n_array_equal, "listof": _n_listof, "tupleof": _n_tupleof, "sort": _n_sort,
    "amax": _n_mono("amax"), "amin": _n_mono("amin"), "median": _n_mono("median"),
    "std": _n_mono("std"), "getitem": _n_getitem, "setitem": _n_setitem,
    "LT": _n_ind("LT"), "GT": _n_ind("GT"), "EQ": _n_ind("EQ"),
    "shlex.split": _n_shlex_split, "floordiv": lambda a, k: _floordiv(*a),
    "mod": lambda a, k: _mod(*a), "pow": lambda a, k: _power(*a),
    "hstack": _n_hstack, "argsort": _n_unary_lin("argsort"), "diag": _n_unary_lin("diag"),
    "unique": _n_unary_lin("unique"), "squeeze": _n_unary_lin("squeeze"),
    "nan_to_num": _n_unary_lin("nan_to_num"), "isnan": _n_unary_lin("isnan"),
    "count_nonzero": _n_unary_lin("count_nonzero"), "rot90": _n_unary_lin("rot90"),
    "fftconvolve": lambda a, k: raw("fftconvolve", *[unarr(x) for x in a], kw=k),
    "isnone": lambda a, k: _is_none(a[0]),
    "eqc": lambda a, k: _eq(a[0], a[1]), "EQT": lambda a, k: _eq(a[0], a[1]),
    "isinst": lambda a, k: _isinst(a[0], a[1].h),
    "truth": lambda a, k: _cond_leaf(a[0]),
    "strcat": lambda a, k: strcat(a),
    "sum_abs2": lambda a, k: tm.power(_n_norm(a, k), 2),
}
