"""Decides whether two value graphs denote the same value.

EQUAL      the normal forms coincide (modulo congruence, rational-function identity and
           case analysis on signs);
DIFFERENT  the innermost mismatch consists of modelled constructs that no rule known to
           preserve the value connects;
UNKNOWN    anything else (never reported as a violation, counted as undecided).
"""
from fractions import Fraction
from . import terms as tm
from . import ops
from .terms import (T, TRUE, FALSE, NONE, ZERO, ONE, num, const, raw, is_app, kind_of,
                    TooLarge, to_poly, from_poly)

EQ, DIFF, UNK = "EQ", "DIFF", "UNK"
DONTCARE = raw("dontcare")

# heads for which a rewriting unknown to the normaliser may exist
FOLDLIKE = {"fold", "lastiter", "first", "atstop", "whilestop", "UNMODELLED", "viewset", "cyclic",
            "undef", "loopstop", "loopraise", "atraise", "accum", "foldl", "fixpoint"}
GROUPS = [
    {"vstack", "hstack", "stack", "concatenate", "arr", "fill", "map", "setitem", "zeros",
     "zeros_like", "empty", "empty_like", "ones", "full", "repeat", "concat", "list", "listof",
     "tupleof", "tuple", "tile", "append", "column_stack", "dstack", "array_split", "split",
     "dictcomp", "dict", "range", "arange", "lam", "getitem", "slice", "elem", "slicecat"},
    {"rot90", "flip", "transpose", "swapaxes", "reshape", "ravel", "squeeze", "roll", "rollaxis",
     "moveaxis", "expand_dims", "atleast_1d", "atleast_2d", "getitem", "slice", "flatten",
     "astype", "arr", "asarray", "size", "shape", "len", "ndim", "prod", "vsplit", "hsplit"},
    {"vdot", "inner", "dot", "outer", "einsum", "sum", "sum_abs2", "trace", "norm_ord", "tensordot",
     "matmul", "diag", "multi_dot", "nuclear", "norm"},
    {"where", "max", "min", "sign", "abs", "LT", "GT", "EQ", "clip", "angle", "exp", "real", "imag",
     "conj", "heaviside", "nan_to_num", "hypot", "copysign"},
    {"sort", "sorted", "argsort", "flip", "getitem", "slice", "amax", "amin", "argmax", "argmin",
     "partition", "median", "percentile", "quantile"},
    {"any", "all", "count_nonzero", "sum", "isin", "np_any", "np_all", "in", "anyof", "allof",
     "unique", "len", "size"},
    {"log", "log10", "log2", "exp", "log1p", "expm1", "power"},
    {"mean", "sum", "median_", "average", "size", "len"},
    {"std", "var", "sum", "sum_abs2", "mean", "size"},
    {"amax", "amin", "max", "min"},
    {"int", "floor", "ceil", "around", "floordiv", "round", "trunc", "mod"},
    {"strcat", "tostr", "m:format", "x:builtins.str", "join", "m:join", "x:shlex.join"},
    {"fftconvolve", "convolve_fft"} if False else set(),
]
UNTRUSTED = {"sign", "angle", "einsum", "where", "choose", "select", "piecewise", "take",
             "apply_along_axis", "vectorize", "frompyfunc", "nditer", "bcast"}
TRUSTED_ATOMS = {"LT", "GT", "EQ", "isnone", "truth", "isinst", "eqc", "callable", "fails",
                 "avail", "EQT", "isnan", "exists", "hasattr", "issubclass"}
PERM_INVARIANT = {"sum", "sum_abs2", "amax", "amin", "any", "all", "count_nonzero", "median", "size",
                  "std", "norm_ord", "np_any", "np_all", "prod"}


LAYOUT = GROUPS[1] - {"getitem", "slice", "len", "size", "shape", "prod", "ndim", "astype", "arr",
                      "asarray"}


def plain_index(i):
    """a fixed element or a fixed forward range."""
    if i.k == "num":
        return True
    return is_app(i, "slice") and all(z.k == "num" or z is NONE for z in i.a) and not (
        i.a[2].k == "num" and i.a[2].x < 0)


# functions of the same arguments no two of which give the same result
DISTINCT = [
    {"amax", "amin", "mean", "median"}, {"argmax", "argmin"}, {"any", "all"}, {"np_any", "np_all"},
    {"floor", "ceil", "around"}, {"exp", "log", "log10", "log2"}, {"vstack", "hstack", "dstack"},
    {"zeros", "ones"}, {"zeros_like", "ones_like"},
    {"x:ptwt.wavedec", "x:ptwt.wavedec2", "x:ptwt.wavedec3"},
    {"x:ptwt.waverec", "x:ptwt.waverec2", "x:ptwt.waverec3"},
]
# transforms over another number of dimensions than the specified one
OTHER_DIMENSION = {
    "x:pywt.wavedecn": ("x:pywt.wavedec",), "x:pywt.waverecn": ("x:pywt.waverec",),
    "x:ptwt.wavedec2": ("x:ptwt.wavedec", "x:ptwt.wavedec3"),
    "x:ptwt.wavedec3": ("x:ptwt.wavedec", "x:ptwt.wavedec2"),
    "x:ptwt.waverec2": ("x:ptwt.waverec", "x:ptwt.waverec3"),
    "x:ptwt.waverec3": ("x:ptwt.waverec", "x:ptwt.waverec2"),
}


def _unk_head(h):
    return (h in FOLDLIKE or h in UNTRUSTED or h.startswith("rec:"))


class Comparer:
    def __init__(self):
        self.memo = {}
        self.work = 0

    # ------------------------------------------------------------------ diagrams
    def compare(self, s, c, tol=None):
        """-> (verdict, list of (path, spec leaf, code leaf, inner))"""
        if s is c:
            return EQ, []
        self.tol = tol
        bad = []
        try:
            self._walk(s, c, {}, bad, [0])
        except TooLarge as e:
            return UNK, [({}, s, c, ("UNK", "comparison limit", s, c))]
        if not bad:
            return EQ, []
        if any(b[3][0] == DIFF for b in bad):
            return DIFF, [b for b in bad if b[3][0] == DIFF]
        return UNK, bad

    def _walk(self, s, c, path, bad, cnt):
        if s is c or s is DONTCARE or c is DONTCARE:
            return
        cnt[0] += 1
        if cnt[0] > 4000:
            raise TooLarge("walk")
        if len(bad) > 40:
            return
        tops = [v.a[0] for v in (s, c) if v.k == "node"]
        if tops:
            top = min(tops, key=tm.order_of)
            for val in (True, False):
                def co(v):
                    if v.k == "node" and v.a[0] is top:
                        v = v.a[1] if val else v.a[2]
                    return tm.restrict_by(v, top, val)
                p2 = dict(path)
                p2[top] = val
                self._walk(co(s), co(c), p2, bad, cnt)
            return
        r = self.leaf_under(s, c, path)
        if r[0] == EQ:
            return
        bad.append((path, s, c, r))

    def leaf_under(self, s, c, path):
        r = self._leaf_under(s, c, path)
        if r[0] == UNK and other_degree(s, c, path):
            return (DIFF, "degree", s, c)
        return r

    def _leaf_under(self, s, c, path):
        if self.tol is not None:
            t = self.tol(s, c, path)
            if t is not None:
                return t
        r = self.leaf(s, c)
        if r[0] == EQ:
            return r
        if path:
            if infeasible(path):
                return (EQ,)
            s2, c2 = refine(s, path), refine(c, path)
            if s2 is not s or c2 is not c:
                if s2.k == "node" or c2.k == "node":
                    v, b = Comparer().compare(s2, c2, self.tol)
                    if v == EQ:
                        return (EQ,)
                    r = b[0][3]
                    if len(r) > 4 or b[0][0]:
                        r = r[:4] + (dict(r[4]) if len(r) > 4 else {},)
                        r[4].update(b[0][0])
                else:
                    r = self.leaf(s2, c2)
                if r[0] == EQ:
                    return r
            if r[0] == DIFF and len(r) > 4 and contradicts(path, r[4]):
                return (UNK, "nested case", r[2], r[3])
        return r

    # ------------------------------------------------------------------ leaves
    def leaf(self, s, c):
        if s is c:
            return (EQ,)
        key = (s.id, c.id)
        r = self.memo.get(key)
        if r is None:
            self.memo[key] = (UNK, "recursion", s, c)
            self.work += 1
            if self.work > 20000:
                raise TooLarge("leaf comparisons")
            r = self._leaf(s, c)
            self.memo[key] = r
        return r

    def _leaf(self, s, c):
        if s.k == "node" or c.k == "node":
            bad = []
            self._walk(s, c, {}, bad, [0])
            if not bad:
                return (EQ,)
            d = [b for b in bad if b[3][0] == DIFF]
            b = (d or bad)[0]
            # remember where inside the value the difference lies
            at = dict(b[3][4]) if len(b[3]) > 4 else {}
            at.update(b[0])
            return b[3][:4] + (at,)
        if "poly" in (s.k, c.k) or "num" in (s.k, c.k):
            return self._poly(s, c)
        if s.k == "app" and c.k == "app" and s.h == c.h:
            return self._app(s, c)
        if s.k == "app" and c.k == "app" and s.a == c.a and s.kw == c.kw and any(
                s.h in g and c.h in g for g in DISTINCT):
            return (DIFF, "", s, c)
        return self.verdict(s, c)

    def _app(self, s, c):
        h = s.h
        if len(s.a) != len(c.a) or [n for n, _ in s.kw] != [n for n, _ in c.kw]:
            return self.verdict(s, c)
        if h == "concat" or h in ("dict", "set"):
            # order / splitting may be equivalent
            pass
        res = [self.leaf(x, y) for x, y in zip(tm.children(s), tm.children(c))]
        if h in ("map", "rec", "fill", "dictcomp") and res[0][0] != EQ and ops.zipped(s.a[0], c.a[0]):
            res[0] = (EQ,)
        badr = [r for r in res if r[0] != EQ]
        if not badr:
            return (EQ,)
        if h in PERM_INVARIANT and any(
                self._layouts(x) != self._layouts(y)
                for x, y in zip(s.a, c.a) if x is not y):
            return (UNK, "permutation under %s" % h, s, c)
        d = [r for r in badr if r[0] == DIFF]
        u = [r for r in badr if r[0] == UNK]
        if u and not d:
            return u[0]
        if h in ("map", "fold", "fill") and u:
            return u[0]
        if h in FOLDLIKE:
            return (UNK, h, s, c)
        if len(badr) > 1:
            # several arguments differ at once: the whole must be unexplained
            v = self.verdict(s, c)
            if v[0] == UNK:
                if h == "setitem" and s.a[0] is c.a[0]:
                    ws, wc = masked(s), masked(c)
                    if ws and wc and len(ws[1] | wc[1]) == 1:
                        r = self.leaf(ws[0], wc[0])
                        return r if r[0] != DIFF else (DIFF, "", s, c)
                if not u and self._one_change(s, c, d):
                    return d[0]
                return v
        return d[0]

    def _one_change(self, s, c, d):
        """all arguments differ by the same subterm."""
        x, y = d[0][2], d[0][3]
        if len(d[0]) > 4 or x.k == "num" or y.k in ("num", "sym", "const"):
            return False
        try:
            return replace(c, {y: x}) is s
        except TooLarge:
            return False

    def _layouts(self, t):
        """the rearrangements a quantity is read through."""
        if not tm.heads(t) & GROUPS[1]:
            return frozenset()
        memo = {}

        def moves(x):
            return is_app(x) and x.a and (x.h in LAYOUT or x.h == "getitem" and not plain_index(
                x.a[1]))

        def skeleton(x):
            if not moves(x):
                return None
            if x not in memo:
                memo[x] = (x.h, tuple(y.id for y in x.a[1:]), tuple(
                    (n, y.id) for n, y in x.kw), skeleton(x.a[0]))
            return memo[x]
        return frozenset(skeleton(x) for x in tm_sub(t) if moves(x))

    def _poly(self, s, c):
        try:
            d = tm.sub(s, c)
        except TooLarge:
            return (UNK, "size", s, c)
        if d is ZERO or tm.is_zero(d):
            return (EQ,)
        sb, cb = self._bases(s), self._bases(c)
        so = [b for b in sb if b not in cb]
        co = [b for b in cb if b not in sb]
        # identify bases that are equal by deeper reasoning
        repl = {}
        inner = []
        for y in co:
            for x in so:
                if x.k == y.k and x.h == y.h:
                    r = self.leaf(x, y)
                    if r[0] == EQ:
                        repl[y] = x
                        break
                    inner.append(r)
        if repl:
            c2 = replace(c, repl)
            if c2.k != "node" and c2 is not c:
                return self.leaf(s, c2)
        # sign case analysis
        ind = sorted({b for b in sb | cb if is_app(b) and b.h in ("LT", "GT", "EQ")},
                     key=lambda z: z.id)
        if ind and len(ind) <= 6:
            try:
                r = self._cases(s, c, ind)
            except TooLarge:
                return (UNK, "sign cases", s, c)
            if r is not None:
                return r
        # abs of a sign-determined quantity
        if so and co and inner and len(so) == 1 and len(co) == 1:
            r = inner[0]
            # is the rest of the polynomial the same?
            c2 = replace(c, {co[0]: so[0]})
            if c2.k != "node" and tm.is_zero(tm.sub(s, c2)):
                return r
        u = [r for r in inner if r[0] == UNK]
        if u:
            return u[0]
        return self.verdict(s, c)

    def _cases(self, s, c, ind):
        """split on the sign of an indicator's argument."""
        b = ind[0]
        p = dict(to_poly(b.a[0]))
        base = b.a[0]
        same = [x for x in ind if x.a[0] is base]
        out = []
        rel = {-1: {"LT": ONE, "GT": ZERO, "EQ": ZERO}, 1: {"LT": ZERO, "GT": ONE, "EQ": ZERO},
               0: {"LT": ZERO, "GT": ZERO, "EQ": ONE}}
        for sg in (-1, 1, 0):
            env = {raw(h, base): v for h, v in rel[sg].items()}
            # other indicators decided by this one
            for x in ind:
                if x not in env:
                    for h, v in rel[sg].items():
                        if v is ONE:
                            t = tm.implied(raw(h, base), True, x)
                            if t is not None:
                                env[x] = ONE if t else ZERO
            s2, c2 = replace(s, env), replace(c, env)
            if sg == 0:
                sb_ = solve_zero(base)
                if sb_ is not None:
                    s2, c2 = replace(s2, sb_), replace(c2, sb_)
            if s2 is c2:
                continue
            if s2.k == "node" or c2.k == "node":
                return None
            r = self.leaf(s2, c2)
            if r[0] != EQ:
                if sg == 0 and r[0] == DIFF and sb_ is None:
                    r = (UNK, "boundary case", s2, c2)
                out.append(r)
        if not out:
            return (EQ,)
        d = [r for r in out if r[0] == DIFF]
        return (d or out)[0]

    def _bases(self, t):
        if t.k == "poly":
            return set(t.a)
        if t.k == "num":
            return set()
        return {t}

    def _unconjugated(self, s, c):
        """one side sums squares where the other sums squared moduli (complex data)."""
        for x, y in ((s, c), (c, s)):
            if "sum_abs2" not in tm.heads(x) or "sum_abs2" in tm.heads(y):
                continue
            env = {}
            for t in tm_sub(x):
                if is_app(t, "sum_abs2") and len(t.a) == 1 and not t.kw and kind_of(
                        t.a[0]) not in ("scalar", "int") and not tm.heads(t.a[0]) & {
                            "abs", "real", "imag", "angle"}:
                    try:
                        env[t] = ops.app("sum", [ops.power(t.a[0], num(2))])
                    except TooLarge:
                        return False
            if not env:
                continue
            plain = {}
            for t in tm_sub(y):
                if not is_app(t, "abs") or len(t.a) != 1:
                    continue
                for e in set(env.values()):
                    for r in (1, -1, 2, -2):
                        # |t| with r*t a sum of squares
                        if tm.is_zero(tm.sub(ops.mul(num(r), t.a[0]), e)):
                            plain[t] = ops.mul(num(Fraction(1, abs(r))), e)
            x2, y2 = replace(x, env), replace(y, plain)
            if x2 is not x and (x2 is y2 or x2.k != "node" and y2.k != "node"
                                and tm.is_zero(tm.sub(x2, y2))):
                return True
        return False

    # ------------------------------------------------------------------ verdict
    def verdict(self, s, c):
        hs, hc = tm.heads(s), tm.heads(c)
        so, co = hs - hc, hc - hs
        for h in co | so:
            if _unk_head(h):
                return (UNK, "construct %s" % h, s, c)
        for h in co:
            if h.startswith("x:") or h.startswith("attr:") or h.startswith("m:"):
                if not h.startswith(("m:op", "m:adj_op", "m:cost", "m:get_cost")):
                    if any(z.startswith(("x:", "attr:", "m:")) for z in so):
                        if any(z == h for x in so for z in OTHER_DIMENSION.get(x, ())):
                            return (DIFF, "", s, c)
                        return (UNK, "construct %s" % h, s, c)
        if "sum_abs2" in hs | hc and self._unconjugated(s, c):
            return (DIFF, "", s, c)
        ds, dc = extents(s), extents(c)
        if ds and dc and not ds & dc and not (extent(s) and extent(c)):
            return (DIFF, "", s, c)     # functions of independent quantities
        top_s = s.h if s.k == "app" else s.k
        top_c = c.h if c.k == "app" else c.k
        for g in GROUPS:
            if so & g and co & g:
                return (UNK, "rewrite group %s/%s" % (sorted(so & g)[0], sorted(co & g)[0]), s, c)
            if top_s != top_c and top_s in g and top_c in g:
                return (UNK, "rewrite group %s/%s" % (top_s, top_c), s, c)
        return (DIFF, "", s, c)


def masked(t):
    """x[mask] = f(x[mask], scalars) as an elementwise value, and what the mask compares."""
    x, m, v = t.a
    signs = {b for b in ([m] if is_app(m) else m.a if m.k == "poly" else ())}
    if not signs or not all(is_app(b) and b.h in ("LT", "GT", "EQ") for b in signs):
        return None
    env = {b: b.a[0] for b in (v.a if v.k == "poly" else [v])
           if is_app(b, "getitem") and b.a[1] is m}
    if not all(b in env or is_app(b, "len") or kind_of(b) in ("scalar", "int")
               for b in (v.a if v.k == "poly" else [v] if v.k != "num" else ())):
        return None
    try:
        v = replace(v, env)
        if v.k == "node":
            return None
        return tm.add(x, ops.mul(m, tm.sub(v, x))), {b.a[0] for b in signs}
    except TooLarge:
        return None


def extent(t):
    return is_app(t) and t.h in ("len", "getitem")


def extents(t):
    """the extents of arrays a number is computed from; None if from anything else."""
    out = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if is_app(x, "len") and x.a[0].k == "sym" and kind_of(x.a[0]) == "array":
            out.add((x.a[0].id, 0))
        elif is_app(x, "getitem") and is_app(x.a[0], "shape") and x.a[0].a[0].k == "sym" and x.a[
                1].k == "num" and x.a[1].x >= 0:
            out.add((x.a[0].a[0].id, int(x.a[1].x)))
        elif x.k == "sym" or x.k == "node":
            return None
        elif x.k == "app" and x.h not in ("int", "floor", "ceil", "astype", "floordiv", "mod",
                                          "around", "abs", "max", "min"):
            return None
        else:
            todo += [y for y in tm.children(x) if y.k in ("sym", "app", "poly", "node")]
    return out


# ---------------------------------------------------------------------- degrees
LINEAR_IN_FIRST = {"sum", "mean", "amax", "amin", "abs", "sort", "sorted", "flip", "transpose",
                   "reshape", "ravel", "squeeze", "roll", "swapaxes", "rot90", "real", "imag",
                   "conj", "norm_ord", "nuclear", "diag", "trace", "expand_dims", "getitem", "std",
                   "median", "arr", "copy"}
LINEAR_JOINTLY = {"max", "min", "vstack", "hstack", "concatenate", "stack", "list", "tuple"}
LINEAR_IN_EACH = {"vdot", "dot", "inner", "outer", "matmul"}


def degree(t, z, memo):
    """the power of a positive factor of z that comes out of t; None where there is none, "0" for
    the value zero (of every degree)."""
    if z not in tm.free(t):
        return "0" if t is ZERO else Fraction(0)
    if t is z:
        return Fraction(1)
    if t.id not in memo:
        memo[t.id] = _degree(t, z, memo)
    return memo[t.id]


def _degree(t, z, memo):
    if t.k == "poly":
        out = set()
        for m, _ in tm._poly_items(t):
            d = Fraction(0)
            for b, e in m:
                x = degree(b, z, memo)
                if x is None or x == "0":
                    return None
                d += x * e
            out.add(d)
        return out.pop() if len(out) == 1 else None
    if t.k != "app" or any(z in tm.free(v) for _, v in t.kw):
        return None
    if t.h in LINEAR_JOINTLY:
        ds = {degree(y, z, memo) for y in t.a} - {"0"}
        return ds.pop() if len(ds) == 1 else None
    if t.h in LINEAR_IN_EACH:
        ds = [degree(y, z, memo) for y in t.a]
        return None if None in ds or "0" in ds else sum(ds)
    if not t.a or any(z in tm.free(y) for y in t.a[1:]):
        return None
    d = degree(t.a[0], z, memo)
    if t.h in LINEAR_IN_FIRST:
        return d
    if t.h == "sum_abs2" and d is not None and d != "0":
        return 2 * d
    return None


def other_degree(s, c, path):
    """s and c grow with different powers of one of the inputs: no identity connects them."""
    if s.k == "node" or c.k == "node":
        return False
    if s.k == c.k == "app" and s.h == c.h and s.h in ("tuple", "list", "ev") and len(s.a) == len(
            c.a):
        return any(x is not y and other_degree(x, y, path) for x, y in zip(s.a, c.a))
    for z in tm.free(s) | tm.free(c):
        if z.k != "sym" or kind_of(z) not in ("scalar", "array"):
            continue
        if any(z in tm.free(a) for a in path):
            continue
        try:
            ds, dc = degree(s, z, {}), degree(c, z, {})
        except TooLarge:
            continue
        if ds is not None and dc is not None and "0" not in (ds, dc) and ds != dc:
            return True
    return False


# ---------------------------------------------------------------------- helpers
def replace(t, env):
    return _replace(t, env, {})


def _replace(t, env, memo):
    r = env.get(t)
    if r is not None:
        return r
    r = memo.get(t.id)
    if r is not None:
        return r
    if t.k == "poly":
        r = ZERO
        ch = False
        for m, c in tm._poly_items(t):
            x = num(c)
            for b, e in m:
                b2 = _replace(b, env, memo)
                ch = ch or b2 is not b
                x = ops.mul(x, ops.power(b2, num(e)))
            r = ops.add(r, x)
        if not ch:
            r = t
    elif t.k == "app":
        a = [_replace(x, env, memo) for x in t.a]
        kw = [(n, _replace(x, env, memo)) for n, x in t.kw]
        if all(x is y for x, y in zip(a, t.a)) and all(
                x[1] is y[1] for x, y in zip(kw, t.kw)):
            r = t
        else:
            r = ops.app(t.h, a, kw)
    elif t.k == "node":
        at = env.get(t.a[0])
        if at is not None and at in (ONE, TRUE, ZERO, FALSE):
            r = _replace(t.a[1] if at in (ONE, TRUE) else t.a[2], env, memo)
        else:
            a2 = _replace(t.a[0], env, memo)
            hi, lo = _replace(t.a[1], env, memo), _replace(t.a[2], env, memo)
            if a2 is t.a[0] and hi is t.a[1] and lo is t.a[2]:
                r = t
            else:
                c = tm.atom(a2) if a2 is t.a[0] else ops.cond_of(a2)
                r = tm.ite(c, hi, lo)
    else:
        r = t
    memo[t.id] = r
    return r


def solve_zero(p):
    """substitution making polynomial p zero (linear in some base)."""
    d = to_poly(p)
    for m, c in sorted(d.items(), key=lambda z: tuple(b.id for b, _ in z[0])):
        if len(m) == 1 and m[0][1] == 1:
            b = m[0][0]
            if any(b in [x for x, _ in m2] for m2 in d if m2 != m):
                continue
            rest = {m2: -v / c for m2, v in d.items() if m2 != m}
            val = from_poly(rest)
            if b in tm_sub(val):
                continue
            if b.k == "sym" or b.k == "app":
                return {b: val}
    if len(d) == 1:
        (m, c), = d.items()
        if len(m) == 1 and m[0][1] > 0:
            return {m[0][0]: ZERO}
    return None


def tm_sub(t):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st.extend(tm.children(x))
    return seen


def pinned(path):
    """whole numbers that the bounds on a path leave a single value"""
    lo, hi = {}, {}
    for a, v in path.items():
        if not is_app(a):
            continue
        q = a.a[0] if a.a else None
        if a.h == "EQ" and not v and ops.nonneg(q) and ops.is_int(q):
            lo[q] = max(lo.get(q, 0), 1)
        elif a.h == "LT":
            d = dict(to_poly(q))
            c = d.pop((), 0)
            if len(d) != 1:
                continue
            (m, k), = d.items()
            if k != 1 or len(m) != 1 or m[0][1] != 1 or not ops.is_int(m[0][0]) \
                    or not ops.nonneg(m[0][0]) or getattr(c, "denominator", 1) != 1:
                continue
            b = m[0][0]
            if v:
                hi[b] = min(hi.get(b, -c - 1), -c - 1)
            else:
                lo[b] = max(lo.get(b, 0), -c)
    return {b: num(h) for b, h in hi.items() if lo.get(b, 0) == h}


def refine(t, path):
    """use the facts of a path inside a leaf."""
    env = {}
    sub_ = tm_sub(t)
    gates = {x.a[0] for x in sub_ if x.k == "node"}
    inner = [x for x in sub_ if is_app(x) and (x in gates or x.h in (
        "LT", "GT", "EQ", "isnone", "eqc", "truth", "isinst"))]
    for x in inner:
        for a, v in path.items():
            r = tm.implied(a, v, x)
            if r is not None:
                env[x] = ONE if r else ZERO
    if env:
        t = replace(t, env)
    env = pinned(path)
    if env:
        t = replace(t, env)
    for a, v in path.items():
        if v and is_app(a, "EQ"):
            sb = solve_zero(a.a[0])
            if sb:
                t = replace(t, sb)
                for b, val in sb.items():
                    if val is ZERO and is_app(b, "len"):
                        t = replace(t, {b.a[0]: raw("list")}) if kind_of(b.a[0]) in (
                            "list", "oplist") else t
        elif v and is_app(a, "isnone"):
            t = replace(t, {a.a[0]: NONE})
        elif v and is_app(a, "eqc"):
            t = replace(t, {a.a[0]: a.a[1]})
    return t


def contradicts(path, inner):
    """can the case of a value inside a result not occur where the result is produced?"""
    for a, v in inner.items():
        if path.get(a, v) != v:
            return True
    return infeasible({**path, **inner})


def infeasible(path):
    """simple inconsistency of several facts (beyond pairwise implication)."""
    lits = list(path.items())
    for n, (a, v) in enumerate(lits):
        for b, w in lits[n + 1:]:
            r = tm.implied(a, v, b)
            if r is not None and r != w:
                return True
            r = tm.implied(b, w, a)
            if r is not None and r != v:
                return True
    # substitute equalities into the other conditions
    for a, v in lits:
        sb = None
        if v and is_app(a, "EQ"):
            sb = solve_zero(a.a[0])
        elif v and is_app(a, "isnone"):
            sb = {a.a[0]: NONE}
        elif v and is_app(a, "eqc"):
            sb = {a.a[0]: a.a[1]}
        if not sb:
            continue
        for b, w in lits:
            if b is a:
                continue
            b2 = replace(b, sb)
            if b2 is b:
                continue
            c = ops.cond_of(b2)
            if (c is TRUE and not w) or (c is FALSE and w):
                return True
    return _no_solution(lits)


def _no_solution(lits):
    """do the linear facts among the conditions exclude each other? (Fourier-Motzkin over the
    rationals with integer tightening; monomials are the unknowns)"""
    rows = []                       # (coefficients, constant, strict): sum + constant >= 0 or > 0

    def add(p, strict):
        d = dict(to_poly(p))
        if strict and ops.is_int(p) and all(v.denominator == 1 for v in d.values()):
            d[()] = d.get((), 0) - 1
            strict = False
        c = d.pop((), 0)
        rows.append((d, c, strict))
    for a, v in lits:
        if not is_app(a):
            continue
        if a.h == "GT":
            add(a.a[0] if v else tm.neg(a.a[0]), v)
        elif a.h == "LT":
            add(tm.neg(a.a[0]) if v else a.a[0], v)
        elif a.h == "EQ":
            if v:
                add(a.a[0], False)
                add(tm.neg(a.a[0]), False)
            elif ops.nonneg(a.a[0]):
                add(a.a[0], True)
    if len(rows) < 2:
        return False
    unknowns = set()
    for d, _, _ in rows:
        unknowns.update(d)
    for m in unknowns:
        if len(m) == 1 and m[0][1] == 1 and ops.nonneg(m[0][0]):
            rows.append(({m: 1}, 0, False))
    while True:
        live = []
        seen = set()
        for d, c, st in rows:
            if not d:
                if c < 0 or (st and c == 0):
                    return True
                continue
            k = min(abs(x) for x in d.values())
            d = {m: x / k for m, x in d.items()}
            key = (frozenset(d.items()), c / k, st)
            if key not in seen:
                seen.add(key)
                live.append((d, c / k, st))
        rows = live
        if not rows or len(rows) > 120:
            return False
        best = None
        for m in {m for d, _, _ in rows for m in d}:
            up = sum(1 for d, _, _ in rows if d.get(m, 0) > 0)
            lo = sum(1 for d, _, _ in rows if d.get(m, 0) < 0)
            cost = up * lo - up - lo
            if best is None or cost < best[0]:
                best = (cost, m)
        m = best[1]
        up = [r for r in rows if r[0].get(m, 0) > 0]
        lo = [r for r in rows if r[0].get(m, 0) < 0]
        rows = [r for r in rows if not r[0].get(m, 0)]
        for d1, c1, s1 in up:
            for d2, c2, s2 in lo:
                f, g = -d2[m], d1[m]
                d = {}
                for k, x in d1.items():
                    d[k] = x * f
                for k, x in d2.items():
                    d[k] = d.get(k, 0) + x * g
                rows.append(({k: x for k, x in d.items() if x}, c1 * f + c2 * g, s1 or s2))


OPAQUE = {"array_equal", "allclose", "isclose", "array_equiv"}


FILE_TESTS = {"isfile", "access", "isdir", "exists"}


def other_test(s, c):
    """both ask the same question of things that are known to differ."""
    if is_app(s) and s.h != c.h and s.h in FILE_TESTS and c.h in FILE_TESTS:
        return s.a[0] is c.a[0]
    if not is_app(s) or s.h != c.h or len(s.a) != len(c.a) or s.kw != c.kw:
        return False
    if s.h == "issubdtype":
        x, y = tm._dtype_class(s.a[1]), tm._dtype_class(c.a[1])
        return bool(s.a[0] is c.a[0] and x and y and x != y)
    try:
        if s.h == "any":
            s, c = s.a[0], c.a[0]
            if all(y.k == "poly" or is_app(y) and y.h in ("LT", "GT", "EQ") for y in (s, c)):
                return Comparer().compare(s, c)[0] == DIFF
            if not (is_app(s, "map") and is_app(c, "map")) or s.kw or c.kw or s.a[0] is not c.a[
                    0] or s.a[2:] != c.a[2:]:
                return False
            v, bad = Comparer().compare(s.a[1], c.a[1])
            sup = tm.support(c.a[1])
            return v == DIFF and all(
                trusted_path(b[0], [s.a[1]], sup) is None for b in bad)
        return any(Comparer().compare(x, y)[0] == DIFF for x, y in zip(s.a, c.a))
    except TooLarge:
        return False


def same_answer(a, b, path):
    """conditions of the same form that need not agree, or do agree on this path."""
    if a.h != b.h or len(a.a) != len(b.a) or len(a.a) < 2 or a.a[1:] != b.a[1:]:
        return False
    if a.h == "in" and all(x.k == "const" and isinstance(x.x, str) for x in (a.a[0], b.a[0])):
        return True
    return a.h == "isinst" and path[a] == path[b]


def trusted_path(path, spec, code_support=frozenset()):
    """conditions on which a difference may be based."""
    known, words = set(), set()
    for v in spec:
        known |= tm.support(v)
    for a in known:
        words |= tm.heads(a)
    weak = {"hasattr", "callable", "EQT", "issubclass", "in", "isinst", "exists"}
    for a in path:
        if a not in known and is_app(a) and a.h in weak:
            for b in path:
                if b in known and b not in code_support and is_app(b) and b.h in weak \
                        and not same_answer(a, b, path):
                    return "condition %s instead of %s" % (tm.show(a, 3), tm.show(b, 3))
    for a in path:
        if a in known:
            continue
        if is_app(a, "in") and any(b in known and is_app(b, "in") and same_answer(a, b, path)
                                   for b in path):
            continue
        if is_app(a) and a.h in FILE_TESTS | {"any", "issubdtype"} and any(
                b in known and b not in code_support and other_test(b, a) for b in path):
            continue
        if not is_app(a) or a.h not in TRUSTED_ATOMS:
            return "condition %s" % tm.show(a, 3)
        hs = tm.heads(a)
        for h in hs:
            if _unk_head(h) or h not in words and (
                    h.startswith(("m:", "x:", "attr:")) or h in OPAQUE):
                return "condition on %s" % h
    return None
