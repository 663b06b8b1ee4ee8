"""Models of the Python builtins and of the libraries the analysed code calls."""
import json
import os
from fractions import Fraction
from . import terms as tm
from . import ops
from .terms import (TRUE, FALSE, NONE, ZERO, ONE, num, const, sym, raw, leafobj, ite, lift,
                    atom, b_and, b_or, b_not, is_app, is_str, kind_of)

# head, names of the positional parameters; "!" prefix: primary (stays positional)
SIG = {
    "sum": ("sum", "!a axis dtype out keepdims"),
    "mean": ("mean", "!a axis dtype out keepdims"),
    "median": ("median", "!a axis out"),
    "std": ("std", "!a axis dtype out ddof keepdims"),
    "var": ("var", "!a axis dtype out ddof keepdims"),
    "prod": ("prod", "!a axis dtype"),
    "cumsum": ("cumsum", "!a axis"), "cumprod": ("cumprod", "!a axis"),
    "max": ("amax", "!a axis out keepdims"), "amax": ("amax", "!a axis out keepdims"),
    "min": ("amin", "!a axis out keepdims"), "amin": ("amin", "!a axis out keepdims"),
    "argmax": ("argmax", "!a axis"), "argmin": ("argmin", "!a axis"),
    "any": ("np_any", "!a axis"), "all": ("np_all", "!a axis"),
    "abs": ("abs", "!x"), "absolute": ("abs", "!x"), "fabs": ("abs", "!x"),
    "exp": ("exp", "!x"), "sqrt": ("sqrt", "!x"), "log10": ("log10", "!x"),
    "log": ("log", "!x"), "log2": ("log2", "!x"), "cos": ("cos", "!x"),
    "sin": ("sin", "!x"), "sign": ("sign", "!x"), "angle": ("angle", "!x"),
    "conj": ("conj", "!x"), "conjugate": ("conj", "!x"), "real": ("real", "!x"),
    "imag": ("imag", "!x"), "floor": ("floor", "!x"), "ceil": ("ceil", "!x"),
    "maximum": ("max", "!x !y"), "minimum": ("min", "!x !y"),
    "fmax": ("fmax", "!x !y"), "fmin": ("fmin", "!x !y"),
    "where": ("where", "!c !x !y"), "vdot": ("vdot", "!a !b"), "inner": ("inner", "!a !b"),
    "dot": ("dot", "!a !b"), "matmul": ("dot", "!a !b"), "outer": ("outer", "!a !b"),
    "transpose": ("transpose", "!a axes"), "reshape": ("reshape", "!a !shape order"),
    "ravel": ("ravel", "!a order"), "squeeze": ("squeeze", "!a axis"),
    "expand_dims": ("expand_dims", "!a axis"), "roll": ("roll", "!a !shift axis"),
    "rot90": ("rot90", "!m k axes"), "flip": ("flip", "!m axis"),
    "fliplr": ("fliplr", "!m"), "flipud": ("flipud", "!m"),
    "pad": ("pad", "!a !pad_width mode"), "repeat": ("repeat", "!a !repeats axis"),
    "tile": ("tile", "!a !reps"), "vstack": ("vstack", "!t"), "hstack": ("hstack", "!t"),
    "stack": ("stack", "!t axis"), "concatenate": ("concatenate", "!t axis"),
    "dstack": ("dstack", "!t"), "column_stack": ("column_stack", "!t"),
    "diag": ("diag", "!v k"), "trace": ("trace", "!v"), "argsort": ("argsort", "!a axis"),
    "sort": ("sort", "!a axis"), "unique": ("unique", "!a"), "around": ("around", "!a !decimals"),
    "round": ("around", "!a !decimals"), "nan_to_num": ("nan_to_num", "!x"),
    "isnan": ("isnan", "!x"), "isfinite": ("isfinite", "!x"), "isinf": ("isinf", "!x"),
    "iscomplex": ("iscomplex", "!x"), "isreal": ("isreal", "!x"),
    "iscomplexobj": ("iscomplexobj", "!x"),
    "count_nonzero": ("count_nonzero", "!x"), "nonzero": ("nonzero", "!x"),
    "diff": ("diff", "!a n axis"), "size": ("size", "!a"), "shape": ("shape", "!a"),
    "ndim": ("ndim", "!a"), "searchsorted": ("searchsorted", "!a !v side"),
    "zeros_like": ("zeros_like", "!a dtype"), "empty_like": ("empty_like", "!a dtype"),
    "ones_like": ("ones_like", "!a dtype"), "full_like": ("full_like", "!a !v dtype"),
    "zeros": ("zeros", "!s dtype"), "empty": ("empty", "!s dtype"), "ones": ("ones", "!s dtype"),
    "full": ("full", "!s !v dtype"), "eye": ("eye", "!n"), "identity": ("eye", "!n"),
    "arange": ("arange", "!a !b !c dtype"), "linspace": ("linspace", "!a !b !n"),
    "meshgrid": ("meshgrid", "!a !b"), "issubdtype": ("issubdtype", "!a !b"),
    "isclose": ("isclose", "!a !b rtol atol"), "allclose": ("allclose", "!a !b rtol atol"),
    "array_equal": ("array_equal", "!a !b"), "interp": ("interp", "!a !b !c"),
    "swapaxes": ("swapaxes", "!a !b !c"), "moveaxis": ("moveaxis", "!a !b !c"),
    "rollaxis": ("rollaxis", "!a !b !c"), "nansum": ("nansum", "!a axis"),
    "nanmean": ("nanmean", "!a axis"), "nanmedian": ("nanmedian", "!a axis"),
    "percentile": ("percentile", "!a !q axis"), "atleast_1d": ("atleast_1d", "!a"),
    "atleast_2d": ("atleast_2d", "!a"), "cross": ("cross", "!a !b"),
    "convolve": ("npconvolve", "!a !b mode"), "split": ("split", "!a !b axis"),
    "take": ("take", "!a !b axis"), "compress": ("compress", "!a !b axis"),
    "histogram": ("histogram", "!a bins"), "average": ("average", "!a axis weights"),
    "linalg.svd": ("svd", "!a full_matrices compute_uv"),
    "linalg.inv": ("inv", "!a"), "linalg.det": ("det", "!a"), "linalg.eigh": ("eigh", "!a"),
    "linalg.eig": ("eig", "!a"), "linalg.pinv": ("pinv", "!a"), "linalg.qr": ("qr", "!a"),
    "can_cast": ("can_cast", "!a !b"), "result_type": ("result_type", "!a !b"),
    "isscalar": ("isscalar", "!a"), "delete": ("np_delete", "!a !b axis"),
    "append": ("np_append", "!a !b axis"), "insert": ("np_insert", "!a !b !c axis"),
    "tril": ("tril", "!a k"), "triu": ("triu", "!a k"), "kron": ("kron", "!a !b"),
    "bincount": ("bincount", "!a"), "cov": ("cov", "!a"), "ptp": ("ptp", "!a axis"),
    "array_split": ("array_split", "!a !b"), "ndenumerate": ("ndenumerate", "!a"),
    "broadcast_to": ("broadcast_to", "!a !b"), "hypot": ("hypot", "!a !b"),
    "arctan2": ("arctan2", "!a !b"), "deg2rad": ("deg2rad", "!a"), "tan": ("tan", "!a"),
    "fft.fft2": ("fft2", "!a"), "fft.ifft2": ("ifft2", "!a"), "trunc": ("trunc", "!a"),
    "rint": ("rint", "!a"), "finfo": ("finfo", "!a"), "iinfo": ("iinfo", "!a"),
    "copysign": ("copysign", "!a !b"), "heaviside": ("heaviside", "!a !b"),
    "argwhere": ("argwhere", "!a"), "flatnonzero": ("flatnonzero", "!a"),
    "ones_": ("ones", "!a"), "mod": ("mod", "!a !b"), "remainder": ("mod", "!a !b"),
    "floor_divide": ("floordiv", "!a !b"), "power": ("pow", "!a !b"),
    "float_power": ("pow", "!a !b"), "ascontiguousarray": ("arr", "!a dtype"),
    "asfortranarray": ("arr", "!a dtype"),
}
VIEW_FUNCS = {"transpose", "reshape", "ravel", "squeeze", "expand_dims", "real", "imag",
              "swapaxes", "moveaxis", "rollaxis", "diag", "flip", "fliplr", "flipud", "rot90",
              "atleast_1d", "atleast_2d", "nan_to_num?", "broadcast_to"}
ARITH = {"multiply": "Mult", "add": "Add", "subtract": "Sub", "divide": "Div",
         "true_divide": "Div"}
CMP = {"greater": "Gt", "greater_equal": "GtE", "less": "Lt", "less_equal": "LtE",
       "equal": "Eq", "not_equal": "NotEq"}
ARRAY_METHODS = {
    "sum", "mean", "std", "var", "prod", "max", "min", "argmax", "argmin", "any", "all",
    "conj", "conjugate", "dot", "transpose", "reshape", "ravel", "flatten", "squeeze",
    "repeat", "argsort", "round", "copy", "astype", "cumsum", "trace", "nonzero", "fill",
    "sort", "item", "tolist", "swapaxes", "view", "clip", "take", "diagonal", "ptp",
    "resize", "setflags", "searchsorted", "tobytes",
}
EFFECT_MODS = ("subprocess.", "os.remove", "os.unlink", "os.rename", "os.mkdir", "os.makedirs",
               "shutil.", "logging.", "glob.", "matplotlib.", "os.environ", "sys.std",
               "astropy.io.fits.writeto", "tqdm", "warnings.", "numpy.save", "numpy.random.seed",
               "random.seed", "signal.", "time.sleep", "os.system", "builtins.open",
               "numpy.seterr", "tempfile.", "numpy.savetxt")
PURE_METHODS = {"contiguous"}
# positional parameters and defaults of the wavelet packages
EXT_SIG = {
    "pywt.wavedec": ("data wavelet mode level axis", {"mode": "symmetric"}),
    "pywt.wavedecn": ("data wavelet mode level axes", {"mode": "symmetric"}),
    "pywt.wavedec2": ("data wavelet mode level axes", {"mode": "symmetric"}),
    "pywt.waverec": ("coeffs wavelet mode axis", {"mode": "symmetric"}),
    "pywt.waverecn": ("coeffs wavelet mode axes", {"mode": "symmetric"}),
    "pywt.waverec2": ("coeffs wavelet mode axes", {"mode": "symmetric"}),
    "pywt.wavedecn_shapes": ("shape wavelet mode level axes", {"mode": "symmetric"}),
    "pywt.ravel_coeffs": ("coeffs axes", {}),
    "pywt.unravel_coeffs": ("arr coeff_slices coeff_shapes output_format",
                            {"output_format": "wavedecn"}),
    "pywt.wavelist": ("family kind", {"kind": "all"}),
    "pywt.dwt_max_level": ("data_len filter_len", {}),
    "ptwt.wavedec2": ("data wavelet", {}), "ptwt.wavedec3": ("data wavelet", {}),
    "ptwt.waverec2": ("coeffs wavelet", {}), "ptwt.waverec3": ("coeffs wavelet", {}),
}
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec",
                       "extsigs.json")) as _fh:
    EXT_TABLE = json.load(_fh)
ARITY = {"numpy.copyto": (("dst", "src"), (), ()), "numpy.where": (("condition",), (), ()),
         "builtins.isinstance": (("#0", "#1"), (), ()), "builtins.issubclass": (("#0", "#1"), (), ())}
PYTYPES = {"list": list, "tuple": tuple, "dict": dict, "set": set, "str": str}
NOT_OF_ARRAYS = {"append", "extend", "insert", "pop", "remove", "clear", "keys", "items", "values",
                 "get", "add", "update", "index", "count", "setdefault", "popitem", "reverse"}
PURE_CLASSES = {"logging.Formatter"}


def is_default(t, v):
    if v is None:
        return t is NONE
    if isinstance(v, bool):
        return t is (TRUE if v else FALSE)
    if isinstance(v, str):
        return t is const(v)
    return t is num(v) if isinstance(v, int) else False
EFFECT_METHODS = {"close", "flush", "write", "release", "acquire", "terminate", "kill", "wait",
                  "communicate", "truncate", "seek", "setLevel", "setFormatter",
                  "removeHandler", "addHandler"}
IO_MODS = ("astropy.io.fits", "subprocess", "os", "shutil", "builtins.open", "tempfile")
PURE_EXT_PREFIX = ("numpy.", "scipy.", "math.", "builtins.", "os.path.", "time.", "datetime.",
                   "shlex.", "itertools.", "functools.", "inspect.", "importlib", "sys.",
                   "packaging", "operator.", "random.", "re.", "string.", "collections.",
                   "abc.", "copy.")
RNG_SIG = {
    "normal": "loc scale size", "standard_normal": "size dtype out", "poisson": "lam size",
    "random": "size", "uniform": "low high size", "integers": "low high size",
    "random_sample": "size", "ranf": "size", "randint": "low high size", "choice": "a size",
    "rand": None, "randn": None, "permutation": "x", "shuffle": "x", "exponential": "scale size",
    "laplace": "loc scale size", "gumbel": "loc scale size",
}
STR_METHODS = {"format", "join", "split", "startswith", "endswith", "lower", "upper", "strip",
               "replace", "encode", "decode", "rstrip", "lstrip", "splitlines", "rsplit",
               "title", "zfill", "isdigit", "capitalize", "rjust", "ljust", "count?", "find",
               "partition", "rpartition"}
OP_ARRAY_METHODS = {"op", "adj_op", "trans_op", "trans_op_op", "op_method", "get_grad_x",
                    "l_op", "adj_l_op", "trans_op_method"}
SETTERS = {"setLevel", "setFormatter"}


class Ext:
    def __init__(self, interp):
        self.i = interp

    # -------------------------------------------------------------- helpers
    def d(self, v):
        return self.i.deep(v)

    def summary(self, fn, args, kws):
        return None

    def event(self, key, item):
        i = self.i
        slot = ("t", key)
        cur = i.heap.get(slot, raw("list"))
        if cur.k in ("node", "undef"):
            cur = lift(lambda x: raw("list") if x.k == "undef" else x, cur)
        i.heap[slot] = ops.concat(cur, lift(lambda x: raw("list", x), item))

    def effect(self, recv, name, args, kws):
        """effectful call on an external object."""
        i = self.i
        recv = i.cont(recv)
        if recv.k == "node":
            return i.over_leaves(recv, lambda l: self.effect(l, name, args, kws))
        rc = self.d(recv)
        a = [self.d(x) for x in args]
        kw = [(n, self.d(v)) for n, v in kws]
        if name in SETTERS:
            i.heap[("a", rc, "set:" + name)] = a[0] if a else NONE
            return NONE
        key, pre = rc, ()
        if rc.k == "ext" and rc.h.startswith(IO_MODS) or is_app(rc) and rc.h.startswith(
                tuple("x:" + m for m in IO_MODS)):
            # one history for everything that touches files and processes
            key, pre = "io", (rc,)
        elif any(x.h.startswith(("%", "~")) for x in tm.free(rc) if isinstance(x.h, str)):
            key, pre = "each", (rc,)
        t = lift(lambda *xs: raw("ev", const(name), *(pre + xs[:len(a)]),
                                 kw=list(zip([n for n, _ in kw], xs[len(a):]))),
                 *a, *[v for _, v in kw])
        self.event(key, t)
        r = lift(lambda *xs: raw("m:" + name, rc, *xs[:len(a)],
                                 kw=list(zip([n for n, _ in kw], xs[len(a):]))),
                 *a, *[v for _, v in kw])
        self.fault(r)
        if name == "communicate":
            return raw("tuple", ops.getitem(r, ZERO), ops.getitem(r, ONE))
        return r

    def fault(self, term, exc="UserError"):
        i = self.i
        if i.faults and not i.dead:
            i.fault_no += 1
            slot = ("t", "#faults")
            i.raise_(exc, atom(raw("fails", term)) if term.k != "node" else
                     atom(raw("fails", raw("cond", term))))

    # -------------------------------------------------------------- attributes
    def module_attr(self, o, name):
        full = o.h + "." + name
        i = self.i
        v = i.heap.get(("x", full))
        if v is not None:
            return v
        consts = {
            "numpy.pi": sym("pi", "scalar"), "math.pi": sym("pi", "scalar"),
            "numpy.newaxis": NONE, "numpy.inf": const(float("inf")),
            "numpy.nan": const(float("nan")), "math.inf": const(float("inf")),
            "numpy.e": sym("e", "scalar"),
        }
        if full in consts:
            return consts[full]
        if o.h.startswith("cupy") or o.h.startswith("tensorflow"):
            return leafobj("ext", full, None)
        if o.h in ("builtins.list", "builtins.dict", "builtins.str", "builtins.set"):
            return leafobj("ext", full, None)
        return leafobj("ext", full, None)

    def attr(self, o, c, name):
        """attribute of a data value; o may be a ref, c its content."""
        i = self.i
        if c.k == "node":
            return i.over_leaves(c, lambda l: i.getattr(l, name) if l.k in (
                "obj", "cls", "ext", "closure", "bound") or l is NONE
                else self.attr(o if o.k == "ref" else l, l, name))
        if c is NONE:
            i.note_defect("AttributeError", "None.%s" % name)
            i.raise_("AttributeError")
            return NONE
        hv = i.heap.get(("a", c, name))
        if hv is not None and c.k in ("sym", "app"):
            und = tm.leafobj("undef", "undef", None)
            if not any(l is und for l in tm.leaves(hv)):
                return hv
            d = self._attr(o, c, name)
            return lift(lambda l: d if l is und else l, hv)
        return self._attr(o, c, name)

    def _attr(self, o, c, name):
        i = self.i
        if name == "__class__":
            return self.b_type([c], {})
        isop = c.k == "sym" and kind_of(c) == "op"
        py = c.h if is_app(c) and c.h in PYTYPES else "str" if is_str(c) or kind_of(c) == "str" \
            else None
        if name in NOT_OF_ARRAYS and is_app(c) and c.h in ("arr", "zeros", "zeros_like"):
            i.note_defect("AttributeError", "numpy.ndarray.%s" % name)
            i.raise_("AttributeError")
            return NONE
        if py and not hasattr(PYTYPES[py], name):
            i.note_defect("AttributeError", "%s.%s" % (py, name))
            i.raise_("AttributeError")
            return NONE
        if not isop and not (c.k == "const"):
            dc = None
            if name == "T":
                return i.view(o, ops.app("transpose", [self.d(c)]))
            if name == "shape":
                return ops.app("shape", [self.d(c)])
            if name == "size":
                return ops.app("size", [self.d(c)])
            if name == "ndim":
                return ops.app("ndim", [self.d(c)])
            if name == "dtype":
                return ops.app("dtype", [self.d(c)])
            if name in ("real", "imag"):
                return i.view(o, ops.app(name, [self.d(c)]))
            if name == "flat":
                return i.view(o, ops.app("ravel", [self.d(c)]))
            if name == "eps" and is_app(c, "finfo"):
                return raw("finfo_eps", c.a[0])
        if isop and name in ("grad", "obs_data"):
            return i.alloc(raw("attr:" + name, c), frozenset([("op", name)]))
        return raw("attr:" + name, o if i.hasref(o) else self.d(c))

    def set_attr(self, o, c, name, v):
        i = self.i
        if c.k == "node":
            i.over_leaves(c, lambda l: (self.set_attr(o, l, name, v), NONE)[1])
            return
        if name == "shape" and o.k == "ref":
            i.mutate(o, ops.app("reshape", [self.d(c), self.d(v)]), "shape assignment")
            return
        if name == "writeable" or name == "flags":
            i.heap[("a", c, name)] = self.d(v)
            return
        if c.k in ("sym", "app", "poly"):
            key = self.d(c)
            i.heap[("a", key, name)] = v
            return
        i.raise_("AttributeError")

    # -------------------------------------------------------------- calls of values
    def call_value(self, f, args, kws):
        i = self.i
        if f.k == "app" and f.h.startswith("attr:"):
            return self.method(f.a[0], f.h[5:], args, kws)
        if f.k == "app" and f.h == "partial":
            pf, pargs, pkw = f.a[0], f.a[1], f.a[2]
            d = dict((k.x, v) for k, v in ops.dict_items(pkw))
            d.update(dict(kws))
            return i.call(pf, list(pargs.a) + list(args), list(d.items()))
        if f.k in ("excval", "undef"):
            return NONE
        if is_app(f, "x:joblib.Parallel") and len(args) == 1:
            # runs the delayed calls in order and returns the list of their results
            self.event("joblib", raw("ev", const("Parallel"), *f.a, kw=f.kw))
            return self.b_list(args, [])
        a = [self.d(x) for x in args]
        kw = [(n, self.d(v)) for n, v in kws]
        fd = self.d(f)

        def mkt(*xs):
            return raw("call", fd, *xs[:len(a)], kw=list(zip([n for n, _ in kw],
                                                             xs[len(a):])))
        t = lift(mkt, *a, *[v for _, v in kw])
        if kind_of(fd) == "observer":
            self.event(fd, raw("ev", const("call"), *[self.snapshot(x) for x in a], kw=kw))
        self.fault(t)
        if kind_of(fd) == "afn":
            return i.bind(t, frozenset([("op", tm.show(fd, 2))]))
        return t

    def snapshot(self, v):
        """what an observer can read from a signal object: its attributes."""
        i = self.i

        def f(x):
            if x.k != "obj":
                return x
            at = [(k[2], i.deep(val)) for k, val in i.heap.items()
                  if k[0] == "a" and k[1] is x and not k[2].startswith("set:")]
            return ops.app("snapshot", [], sorted(at, key=lambda q: q[0]))
        return lift(f, v)

    def method(self, o, name, args, kws):
        i = self.i
        c = i.cont(o)
        if c.k == "node":
            return i.over_leaves(c, lambda l: i.call_method(l, name, args, kws) if l.k in (
                "obj", "cls", "ext", "closure", "bound") else self.method1(
                o if o.k == "ref" else l, l, name, args, kws))
        return self.method1(o, c, name, args, kws)

    def method1(self, o, c, name, args, kws):
        i = self.i
        if c is NONE:
            i.raise_("AttributeError")
            return NONE
        k = kind_of(c)
        if c.k == "app" and c.h in ("list", "concat", "map", "flatten", "listof") or k == "list":
            r = self.list_method(o, c, name, args, kws)
            if r is not NotImplemented:
                return r
        if c.k == "app" and c.h in ("dict", "dictupd", "dictcomp") or k == "dict":
            r = self.dict_method(o, c, name, args, kws)
            if r is not NotImplemented:
                return r
        if c.k == "app" and c.h in ("set", "setof"):
            if name == "add" and c.h == "set":
                i.mutate(o, raw("set", *(c.a + (self.d(args[0]),))), "set add")
                return NONE
            if name in ("isdisjoint", "issubset", "issuperset", "intersection", "difference",
                        "union") and len(args) == 1 and not kws:
                return lift(lambda x, y: i.set_op(name, x, y), self.d(c), self.d(args[0]))
        if is_str(c) or is_app(c, "strcat") or k == "str" or (
                name in STR_METHODS and not (k in ("array", "op"))):
            r = self.str_method(c, name, args, kws)
            if r is not NotImplemented:
                return r
        if k == "rng" or is_app(c) and c.h in ("rng", "rng_fresh", "globalrng"):
            return self.draw(self.d(c), name, args, kws)
        if name in ARRAY_METHODS and k not in ("op", "callable", "handle", "bar") and c.k != "obj":
            return self.array_method(o, c, name, args, kws)
        if name in ("append", "extend", "insert", "remove", "pop", "clear") and k in ("any", "array"):
            r = self.list_method(o, c, name, args, kws)
            if r is not NotImplemented:
                return r
        if name in ("items", "keys", "values", "get", "update", "setdefault") and k == "any" \
                and not (is_app(c) and c.h.startswith(("x:", "m:"))):
            r = self.dict_method(o, c, name, args, kws)
            if r is not NotImplemented:
                return r
        if name in PURE_METHODS and is_app(c) and c.h.startswith(("x:", "m:", "getitem")):
            return self.generic_method(c, name, args, kws)
        if k in ("handle", "bar") or name in EFFECT_METHODS or is_app(c) and (c.h.startswith(
                ("x:", "m:"))) and not name.startswith(
                ("op", "adj_op")):
            return self.effect(c, name, args, kws)
        return self.opaque(c, name, args, kws)

    def generic_method(self, c, name, args, kws):
        a = [self.d(x) for x in args]
        kw = [(n, self.d(v)) for n, v in kws]
        return lift(lambda r, *xs: raw("m:" + name, r, *xs[:len(a)], kw=list(zip(
            [n for n, _ in kw], xs[len(a):]))), self.d(c), *a, *[v for _, v in kw])

    def opaque(self, c, name, args, kws):
        """method of a user-supplied operator object."""
        i = self.i
        a = [self.d(x) for x in args]
        kw = [(n, self.d(v)) for n, v in kws]
        cd = self.d(c)

        def mkt(*xs):
            return raw("m:" + name, cd, *xs[:len(a)],
                       kw=list(zip([n for n, _ in kw], xs[len(a):])))
        t = lift(mkt, *a, *[v for _, v in kw])
        if name == "get_grad":
            g = lift(lambda *xs: raw("grad_of", cd, *xs), *a)
            i.heap[("a", cd, "grad")] = i.alloc(g, frozenset([("op", "grad")]))
            self.fault(t)
            return NONE
        if name in ("get_cost", "update", "reweight", "solve", "plot_cost", "retrieve_metrics",
                    "notify_observers", "add_observer"):
            self.event(cd, lift(lambda *xs: raw("ev", const(name), *xs[:len(a)], kw=list(
                zip([n for n, _ in kw], xs[len(a):]))), *a, *[v for _, v in kw]))
            cnt = self.d(i.heap.get(("n", cd, name), ZERO))
            i.heap[("n", cd, name)] = ops.add(cnt, ONE)
            t = lift(lambda n_, *xs: raw("m:" + name, cd, *xs[:len(a)], kw=list(zip(
                [n for n, _ in kw], xs[len(a):])) + [("#", n_)]), cnt, *a,
                *[v for _, v in kw])
        if kind_of(t) != "str":
            self.fault(t)
        if name in OP_ARRAY_METHODS or "op" in name.split("_"):
            return i.bind(t, frozenset([("op", name)]))
        return t

    # -------------------------------------------------------------- containers
    def list_method(self, o, c, name, args, kws):
        i = self.i
        if name == "append":
            v = i.bind(args[0])
            if not is_app(c) or c.h not in ("list", "concat"):
                v = self.d(v)
            i.mutate(o, ops.concat(c, raw("list", v)), "append")
            return NONE
        if name == "extend":
            x = i.cont(args[0])
            i.mutate(o, ops.concat(c, ops.app("listof", [x])), "extend")
            return NONE
        if name == "insert" and is_app(c, "list") and i.cont(args[0]).k == "num":
            items = list(c.a)
            items.insert(int(i.cont(args[0]).x), i.bind(args[1]))
            i.mutate(o, raw("list", *items), "insert")
            return NONE
        if name == "insert" and i.cont(args[0]) is ZERO:
            i.mutate(o, ops.concat(raw("list", i.bind(args[1])), c), "insert")
            return NONE
        if name == "remove":
            x = args[0]
            if is_app(c, "list"):
                items = list(c.a)
                # first equal element
                def rec(k):
                    if k == len(items):
                        i.raise_("ValueError")
                        return c
                    e = i.cond(i.compare("Eq", x, items[k]))
                    if e is TRUE:
                        return raw("list", *(items[:k] + items[k + 1:]))
                    if e is FALSE:
                        return rec(k + 1)
                    return ite(e, raw("list", *(items[:k] + items[k + 1:])), rec(k + 1))
                i.mutate(o, rec(0), "remove")
                return NONE
            i.mutate(o, raw("list_remove", self.d(c), self.d(x)), "remove")
            return NONE
        if name == "pop":
            if is_app(c, "list") and c.a and (not args or i.cont(args[0]).k == "num"):
                k = int(i.cont(args[0]).x) if args else -1
                items = list(c.a)
                try:
                    r = items.pop(k)
                except IndexError:
                    i.raise_("IndexError")
                    return NONE
                i.mutate(o, raw("list", *items), "pop")
                return r
            if is_app(c, "concat") and not args and is_app(c.a[-1], "list"):
                last = c.a[-1]
                r = last.a[-1]
                rest = list(c.a[:-1]) + ([raw("list", *last.a[:-1])] if len(last.a) > 1 else [])
                i.mutate(o, rest[0] if len(rest) == 1 else raw("concat", *rest), "pop")
                return r
            dc = self.d(c)
            a = [self.d(x) for x in args]
            i.mutate(o, raw("list_pop", dc, *a), "pop")
            return ops.getitem(dc, a[0] if a else num(-1))
        if name == "clear":
            i.mutate(o, raw("list"), "clear")
            return NONE
        if name == "copy":
            return c
        if name == "index":
            return raw("list_index", self.d(c), self.d(args[0]))
        if name == "count":
            return raw("list_count", self.d(c), self.d(args[0]))
        if name == "reverse":
            i.mutate(o, raw("list", *reversed(c.a)) if is_app(c, "list") else raw(
                "reversed", self.d(c)), "reverse")
            return NONE
        if name == "sort":
            i.mutate(o, raw("sorted", self.d(c), kw=[(n, self.d(v)) for n, v in kws]), "sort")
            return NONE
        return NotImplemented

    def dict_method(self, o, c, name, args, kws):
        i = self.i
        if name in ("items", "keys", "values"):
            return raw(name, o if o.k == "ref" else c)
        if name == "get":
            if not args:
                return NotImplemented
            key = self.d(args[0])
            dflt = args[1] if len(args) > 1 else NONE
            if is_app(c, "dict"):
                r = ops.getitem(c, key)
                return lift(lambda x: dflt if is_app(x, "keyerror") else x, r)
            return raw("dictget", self.d(c), key, self.d(dflt))
        if name == "update":
            items = []
            if args:
                x = i.cont(args[0])
                if is_app(x, "dict") and is_app(c, "dict"):
                    r = c
                    for k, v in ops.dict_items(x):
                        r = ops.setitem(r, k, v)
                    c = r
                else:
                    c = raw("dictupd", self.d(c), self.d(x))
            for k, v in kws:
                c = ops.setitem(c, const(k), i.bind(v))
            i.mutate(o, c, "dict update")
            return NONE
        if name == "copy":
            return c
        if name == "setdefault":
            key = self.d(args[0])
            dflt = i.bind(args[1]) if len(args) > 1 else NONE
            if is_app(c, "dict"):
                r = ops.getitem(c, key)
                if is_app(r, "keyerror"):
                    i.mutate(o, ops.setitem(c, key, dflt), "setdefault")
                    return dflt
                if not any(is_app(x, "keyerror") for x in tm.leaves(r)):
                    return r
            i.unmodelled("setdefault")
            return NONE
        if name == "pop":
            key = self.d(args[0])
            if is_app(c, "dict"):
                r = ops.getitem(c, key)
                if is_app(r, "keyerror"):
                    if len(args) > 1:
                        return args[1]
                    i.raise_("KeyError")
                    return NONE
                if key.k in ("const", "num"):
                    i.mutate(o, raw("dict", *[p for p in c.a if p.a[0] is not key]), "pop")
                    return r
            dc = self.d(c)
            i.mutate(o, raw("dict_pop", dc, key), "pop")
            return ops.getitem(dc, key)
        if name == "clear":
            i.mutate(o, raw("dict"), "clear")
            return NONE
        return NotImplemented

    def del_item(self, b, idx):
        i = self.i
        c = i.cont(b)
        if is_app(c, "dict"):
            i.mutate(b, raw("dict", *[p for p in c.a if p.a[0] is not idx]), "del")
        elif is_app(c, "list") and idx.k == "num":
            items = list(c.a)
            del items[int(idx.x)]
            i.mutate(b, raw("list", *items), "del")
        elif is_app(c, "list") and is_app(idx, "slice") and all(
                x.k == "num" or x is NONE for x in idx.a):
            items = list(c.a)
            del items[slice(*[None if x is NONE else int(x.x) for x in idx.a])]
            i.mutate(b, raw("list", *items), "del")
        elif is_app(idx, "slice") and idx.a == (ZERO, NONE, ONE):
            i.mutate(b, raw("list"), "del")
        else:
            i.mutate(b, raw("delitem", self.d(c), self.d(idx)), "del")

    def str_method(self, c, name, args, kws):
        i = self.i
        a = [self.d(x) for x in args]
        if name == "format" and is_str(c):
            import string
            parts = []
            auto = 0
            kw = {n: self.d(v) for n, v in kws}
            try:
                for lit, field, spec, conv in string.Formatter().parse(c.x):
                    if lit:
                        parts.append(const(lit))
                    if field is None:
                        continue
                    if field == "":
                        v = a[auto]
                        auto += 1
                    elif field.isdigit():
                        v = a[int(field)]
                    elif field in kw:
                        v = kw[field]
                    else:
                        v = raw("field", const(field), *a)
                    if spec or conv:
                        v = raw("fmt", v, const(spec) if spec else NONE,
                                const(ord(conv)) if conv else const(-1))
                    parts.append(v)
                return i.strcat(parts)
            except (IndexError, ValueError):
                i.note_defect("IndexError", "format arguments")
                i.raise_("IndexError")
                return NONE
        if is_str(c) and all(x.k in ("const", "num") for x in a) and not kws and name in (
                "lower", "upper", "strip", "startswith", "endswith", "replace", "split"):
            try:
                r = getattr(c.x, name)(*[x.x for x in a])
                if isinstance(r, list):
                    return raw("list", *[const(q) for q in r])
                return const(r)
            except Exception:
                return raw("m:" + name, c, *a)
        if name == "join":
            x = a[0]
            if is_app(x) and x.h in ("list", "tuple") and is_str(c):
                parts = []
                for k, e in enumerate(x.a):
                    if k:
                        parts.append(c)
                    parts.append(e)
                return i.strcat(parts)
            if is_app(x, "concat") and is_str(c):
                return raw("strjoin", c, x)
            return raw("strjoin", c, x)
        if name in STR_METHODS or name in ("format",):
            cd = self.d(c)
            kw = [(n, self.d(v)) for n, v in kws]
            return lift(lambda *xs: raw("m:" + name, cd, *xs), *a) if a else raw(
                "m:" + name, cd, kw=kw)
        return NotImplemented

    # -------------------------------------------------------------- arrays
    def array_method(self, o, c, name, args, kws):
        i = self.i
        if name == "copy":
            return ops.app("copy", [self.d(c)])
        if name == "flatten":
            return ops.app("ravel", [self.d(c)])
        if name == "astype":
            a = [self.d(x) for x in args] or [self.d(dict(kws).get("dtype", NONE))]
            return ops.app("astype", [self.d(c), self.dt(a[0])])
        if name == "reshape":
            if len(args) == 1:
                shp = args[0]
            else:
                shp = raw("tuple", *[self.d(x) for x in args])
            return self.np("reshape", [o, shp], kws)
        if name == "transpose":
            if len(args) > 1:
                args = [raw("tuple", *[self.d(x) for x in args])]
            return self.np("transpose", [o] + args, kws)
        if name == "fill":
            i.mutate(o, raw("full_like", self.d(c), self.d(args[0])), "fill")
            return NONE
        if name == "sort":
            i.mutate(o, ops.app("sort", [self.d(c)]), "sort")
            return NONE
        if name == "resize":
            i.mutate(o, raw("resize", self.d(c), *[self.d(x) for x in args]), "resize")
            return NONE
        if name in ("item",):
            return raw("item", self.d(c), *[self.d(x) for x in args])
        if name == "tolist":
            return ops.app("listof", [self.d(c)])
        if name == "view":
            return i.view(o, raw("arrview", self.d(c)))
        if name == "setflags":
            for n, v in kws:
                if n == "write":
                    i.heap[("a", self.attr(o, c, "flags"), "writeable")] = self.d(v)
            return NONE
        if name == "round":
            return self.np("around", [o] + args, kws)
        if name == "clip":
            return self.np("clip", [o] + args, kws)
        if name == "diagonal":
            return self.np("diag", [o] + args, kws)
        return self.np(name, [o] + args, kws)

    def dt(self, v):
        """canonical dtype values"""
        def f(x):
            if is_str(x) and x.x in ("float", "float64"):
                return leafobj("ext", "builtins.float", None)
            if is_str(x) and x.x == "int":
                return leafobj("ext", "builtins.int", None)
            if x.k == "ext" and x.h in ("numpy.float64", "numpy.double", "numpy.float_"):
                return leafobj("ext", "builtins.float", None)
            if x.k == "ext" and x.h in ("numpy.complex128",):
                return leafobj("ext", "builtins.complex", None)
            return x
        return lift(f, v)

    def canon(self, name, args, kws):
        """arguments of an external function: keywords at their default are left out, required
        ones stand in their position."""
        sg = EXT_TABLE.get(name) or ARITY.get(name)
        if sg is not None and not any(is_app(x, "star") for x in args) and not any(
                k is None or k == "**" for k, _ in kws):
            given = {k for k, _ in kws}
            if len(args) < len(sg[0]) and not all(r in given for r in sg[0][len(args):]):
                self.i.note_defect("TypeError", "missing argument of " + name)
                self.i.raise_("TypeError")
                return list(args) + [NONE] * (len(sg[0]) - len(args)), []
        if sg is None or not kws or any(is_app(x, "star") for x in args) or any(
                k is None or k == "**" for k, _ in kws):
            return args, kws
        req, _, dft = sg
        args, kw = list(args), dict(kws)
        while len(args) < len(req) and req[len(args)] in kw:
            args.append(kw.pop(req[len(args)]))
        for k, v in dft:
            if k in kw and is_default(self.i.cont(kw[k]), v):
                del kw[k]
        return args, list(kw.items())

    def _surely_array(self, c):
        return is_app(c) and c.h in (
            "arr", "copy", "zeros", "zeros_like", "empty", "ones", "fill", "astype"
        ) or kind_of(c) == "array" or c.k == "poly" and any(
            is_app(b, "arr") or kind_of(b) == "array" for b in c.a)

    def np(self, name, args, kws):
        """numpy function by short name."""
        i = self.i
        args, kws = self.canon("numpy." + name, args, kws)
        kwd = dict(kws)
        out = kwd.pop("out", None)
        if out is not None and self.i.cont(out) is NONE:
            out = None
        if any(is_app(x, "star") for x in args) or "**" in kwd:
            i.unmodelled("star call of numpy." + name)
            return raw("x:numpy." + name)
        r = self._np(name, args, kwd)
        if out is not None:
            i.mutate(out, self.d(r), "out= argument of numpy." + name)
            return out
        return r

    def _np(self, name, args, kwd):
        i = self.i
        if name in ARITH:
            return i.binop(ARITH[name], args[0], args[1]) if len(args) > 1 else NONE
        if name in CMP:
            return i.compare(CMP[name], args[0], args[1])
        if name == "square":
            return ops.power(self.d(args[0]), num(2))
        if name == "negative":
            return ops.neg(self.d(args[0]))
        if name == "reciprocal":
            return ops.div(ONE, self.d(args[0]))
        if name in ("logical_and", "bitwise_and"):
            return i.binop("BitAnd", args[0], args[1])
        if name in ("logical_or", "bitwise_or"):
            return i.binop("BitOr", args[0], args[1])
        if name in ("logical_not", "invert"):
            return lift(lambda x: ops._bnot_leaf(x), self.d(args[0]))
        if name in ("array", "asarray", "asanyarray", "copy", "ascontiguousarray"):
            src = args[0] if args else kwd.get("object", kwd.get("a", NONE))
            dtype = kwd.get("dtype", args[1] if len(args) > 1 and name != "copy" else None)
            kw = []
            if dtype is not None and i.cont(dtype) is not NONE:
                kw.append(("dtype", self.dt(self.d(dtype))))
            val = ops.app("arr", [self.d(src)], kw)
            cp = kwd.get("copy")
            aliasing = name in ("asarray", "asanyarray", "ascontiguousarray") or (
                cp is not None and i.cont(cp) is not TRUE)
            if aliasing:
                def same(x):            # an array is handed back as it is
                    return x.k == "ref" and not kw and self._surely_array(i.cont(x))

                if same(src):
                    return src
                if src.k == "node":
                    return lift(lambda x: x if same(x) else i.view(
                        x, ops.app("arr", [self.d(x)], kw)), src)
                return i.view(src, val)
            return val
        if name == "copyto":
            dst, src = args[0], args[1]
            wh = kwd.get("where")
            v = self.d(src)
            if wh is not None:
                v = ops.app("where", [self.d(wh), v, self.d(dst)])
            i.mutate(dst, v, "copyto")
            return NONE
        if name in ("fill_diagonal", "put", "place", "putmask", "add.at"):
            i.mutate(args[0], raw(name, *[self.d(x) for x in args]), name)
            return NONE
        if name == "clip":
            x = self.d(args[0])
            lo = self.d(args[1]) if len(args) > 1 else self.d(
                kwd.get("a_min", kwd.get("min", NONE)))
            hi = self.d(args[2]) if len(args) > 2 else self.d(
                kwd.get("a_max", kwd.get("max", NONE)))
            r = x
            if lo is not NONE:
                r = ops.app("max", [r, lo])
            if hi is not NONE:
                r = ops.app("min", [r, hi])
            return r
        if name == "linalg.norm":
            x = args[0]
            kw = []
            if len(args) > 1:
                kw.append(("ord", self.d(args[1])))
            if len(args) > 2:
                kw.append(("axis", self.d(args[2])))
            for k, v in kwd.items():
                if k == "x":
                    continue
                kw.append((k, self.d(v)))
            return ops.app("norm", [self.d(x)], kw)
        if name == "full" and len(args) > 1 and self.d(args[1]) is ZERO:
            name, args = "zeros", [args[0]] + args[2:]
        if name == "full_like" and len(args) > 1 and self.d(args[1]) is ZERO:
            name, args = "zeros_like", [args[0]] + args[2:]
        if name == "flip" and False:
            pass
        if name in ("errstate", "seterr", "printoptions"):
            return raw("np_errstate")
        if name == "vectorize":
            return raw("x:numpy.vectorize", self.d(args[0]))
        if name in ("float64", "float32", "int64", "complex128", "int32", "bool_", "double",
                    "float_", "complex_"):
            return ops.app("astype", [self.d(args[0]), self.dt(leafobj("ext", "numpy." + name,
                                                                       None))])
        if name == "isclose" and len(args) == 2 and not kwd:
            a, b = self.d(args[0]), self.d(args[1])
            tol = ops.add(ops.mul(num(Fraction(1, 10**5)), ops.app("abs", [b])),
                          num(Fraction(1, 10**8)))
            return i.compare("LtE", ops.app("abs", [ops.sub(a, b)]), tol)
        if name == "einsum":
            r = self.einsum([self.d(x) for x in args])
            if r is not None:
                return r
        sg = SIG.get(name)
        if sg is None:
            return self.generic("numpy." + name, args, list(kwd.items()))
        head, ps = sg
        ps = ps.split()
        prim = [p[1:] for p in ps if p[0] == "!"]
        allp = [p.lstrip("!") for p in ps]
        vals = {}
        for k, v in enumerate(args):
            if k < len(allp):
                vals[allp[k]] = v
        for k, v in kwd.items():
            if k in ("a", "x", "m", "input_data", "v", "object") and k not in vals and \
                    prim and prim[0] not in vals and prim[0] in (k, "a", "x", "m", "v"):
                vals[prim[0]] = v
            elif k == "newshape" or k == "shape":
                vals["shape"] = v
            else:
                vals[k] = v
        if name in ("ones", "zeros", "empty", "full") and "shape" in vals and "s" not in vals:
            vals["s"] = vals.pop("shape")
        pa = [self.d(vals[p]) for p in prim if p in vals]
        kw = [(k, self.dt(self.d(v)) if k == "dtype" else self.d(v))
              for k, v in vals.items() if k not in prim]
        dft = dict(EXT_TABLE.get("numpy." + name, ((), (), ()))[2])
        kw = [(k, v) for k, v in kw if not (k == "dtype" and v is NONE)
              and not (k in dft and is_default(v, dft[k]))
              and not (k == "keepdims" and v is FALSE)]
        if name in ("matmul",):
            pass
        if head == "arange" and len(pa) == 2 and pa[0] is ZERO:
            pa = [pa[1]]
        r = ops.app(head, pa, kw)
        if name in VIEW_FUNCS and args:
            return i.view(args[0], r)
        if name == "squeeze" or name == "nan_to_num":
            return i.view(args[0], r) if name == "squeeze" else r
        return r

    def einsum(self, a):
        return None

    def generic(self, name, args, kws):
        """uninterpreted pure external function."""
        if name in EXT_TABLE and name not in EXT_SIG and args:
            req, opt, dft = EXT_TABLE[name]
            n = len(req)
            if n < len(args) <= n + len(opt) and not any(is_app(x, "star") for x in args) and \
                    not {k for k, _ in kws} & set(opt[:len(args) - n]):
                kws = list(zip(opt, args[n:])) + list(kws)
                args = args[:n]
            args, kws = self.canon(name, args, kws)
            kws = sorted(kws, key=lambda x: str(x[0]))
        a = [self.d(x) for x in args]
        kw = [(n, self.d(v)) for n, v in kws]
        if name in EXT_SIG:
            names, dflt = EXT_SIG[name]
            names = names.split()
            if len(a) <= len(names) and not any(n is None for n, _ in kw):
                full = dict(zip(names, a))
                full.update(kw)
                a = [full.pop(names[0])] if names[0] in full else []
                kw = sorted((n, v) for n, v in full.items() if v is not NONE and not (
                    n in dflt and is_default(v, dflt[n])))
        ns = [n for n, _ in kw]
        return lift(lambda *xs: raw("x:" + name, *xs[:len(a)], kw=list(zip(ns, xs[len(a):]))),
                    *a, *[v for _, v in kw]) if a or kw else raw("x:" + name)

    # -------------------------------------------------------------- random numbers
    def draw(self, rng, meth, args, kws):
        i = self.i
        sg = RNG_SIG.get(meth)
        a = [self.d(x) for x in args]
        kw = {n: self.d(v) for n, v in kws}
        if sg:
            for k, v in zip(sg.split(), a):
                kw[k] = v
            a = []
        if meth in ("standard_normal",):
            kw = {k: v for k, v in kw.items()}
        if meth == "normal" and kw.get("loc", ZERO) is ZERO and kw.get("scale", ONE) is ONE \
                and False:
            pass
        kw = {k: v for k, v in kw.items() if v is not NONE}
        slot = ("r", rng)
        cnt = self.d(i.heap.get(slot, ZERO))
        i.heap[slot] = ops.add(cnt, ONE)
        ns = sorted(kw)
        scale = loc = None
        if meth == "normal":
            scale, loc = kw.pop("scale", ONE), kw.pop("loc", ZERO)
            ns = sorted(kw)
            meth = "standard_normal"
        base = lift(lambda c, *xs: raw("draw", rng, const(meth), c, *xs[:len(a)],
                                       kw=list(zip(ns, xs[len(a):]))),
                    cnt, *a, *[kw[n] for n in ns])
        if scale is not None:
            return ops.add(ops.mul(scale, base), loc)
        return base

    # -------------------------------------------------------------- ext functions
    def call(self, name, args, kws):
        i = self.i
        if name.startswith("mod:"):
            i.note_defect("TypeError", "module called")
            i.raise_("TypeError")
            return NONE
        if name.startswith("builtins."):
            m = getattr(self, "b_" + name[9:], None)
            if m is not None:
                return m(args, kws)
            n = name[9:]
            if n.endswith(("Error", "Exception", "Warning", "Interrupt", "Exit")):
                return raw("exc", const(n))
            if n.startswith("object"):
                return NONE
            if n.startswith(("list.", "dict.", "str.", "set.")):
                return i.call_method(args[0], n.split(".", 1)[1], args[1:], kws)
            return self.generic(name, args, kws)
        if name.startswith("numpy."):
            short = name[6:]
            if short.startswith("random."):
                return self.np_random(short[7:], args, kws)
            if short.startswith("ndarray."):
                return i.call_method(args[0], short[8:], args[1:], kws)
            if short in ("maximum.reduce",):
                return self.np("max", args, kws)
            if short in ("add.reduce",):
                kwd = dict(kws)
                if "axis" not in kwd and len(args) < 2:
                    kws = list(kws) + [("axis", ZERO)]
                return self.np("sum", args, kws)
            if short in ("issubdtype",):
                return lift(issubdtype,
                            self.dtn(self.d(args[0])), self.dtn(self.d(args[1])))
            if short.endswith("Error"):
                return raw("exc", const(short.split(".")[-1]))
            return self.np(short, args, kws)
        args, kws = self.canon(name, args, kws)
        f = EXTFN.get(name)
        if f is not None:
            return f(self, args, kws)
        last = name.rsplit(".", 1)[-1]
        if last.endswith(("Error", "Exception")):
            return raw("exc", const(last))
        if name.startswith(EFFECT_MODS) and name not in PURE_CLASSES:
            r = self.effect(leafobj("ext", name.rsplit(".", 1)[0], None), last, args, kws)
            return lift(lambda x: raw("x:" + name, *x.a[1:], kw=x.kw) if is_app(x) else x, r)
        return self.generic(name, args, kws)

    def dtn(self, v):
        return lift(lambda x: leafobj("ext", "builtins.float", None) if x.k == "ext" and x.h in
                    ("numpy.float64", "numpy.double") else x, v)

    def np_random(self, n, args, kws):
        i = self.i
        if n == "default_rng":
            s = self.d(args[0]) if args else self.d(dict(kws).get("seed", NONE))

            cnt = self.d(i.heap.get(("n", "rng_fresh"), ZERO))
            fresh = lift(lambda n_: raw("rng_fresh", n_), cnt)
            used = [False]

            def new(x):
                # a new generator starts its stream afresh
                g = raw("rng", x)
                i.heap[("r", g)] = ZERO
                return g

            def f(x):
                if x is NONE:
                    used[0] = True
                    return fresh
                if is_app(x) and x.h in ("rng", "rng_fresh") or kind_of(x) == "rng":
                    return x
                if kind_of(x) == "any" and x.k in ("sym", "app"):
                    used[0] = True
                    return ite(ops.cond_of(ops.is_none(x)), fresh,
                               ite(ops.cond_of(ops.isinst(x, ["numpy.random.Generator"])), x,
                                   new(x)))
                return new(x)
            r = lift(f, s)
            if used[0]:
                i.heap[("n", "rng_fresh")] = ops.add(cnt, ONE)
            return r
        if n in ("seed",):
            self.event("globalrng", raw("ev", const("seed"), *[self.d(x) for x in args]))
            return NONE
        if n in ("Generator", "RandomState", "PCG64", "SeedSequence"):
            g = raw("rng", raw("x:numpy.random." + n, *[self.d(x) for x in args]))
            i.heap[("r", g)] = ZERO
            return g
        if n in ("get_state", "set_state"):
            return raw("x:numpy.random." + n, *[self.d(x) for x in args])
        return self.draw(raw("globalrng"), n, args, kws)

    # -------------------------------------------------------------- builtins
    def b_len(self, a, k):
        c = self.i.cont(a[0])

        def f(x):
            if x.k == "obj":
                return self.i.cont(self.i.call_method(x, "__len__", [], []))
            if is_app(x) and x.h in ("list", "tuple", "dict", "set"):
                return num(len(x.a))
            if is_app(x) and x.h in ("keys", "items", "values"):
                return self.b_len([x.a[0]], [])
            return ops.length(self.d(x))
        return lift(f, c)

    def b_range(self, a, k):
        a = [self.d(x) for x in a]
        if len(a) == 1:
            return lift(lambda n: raw("range", n), a[0])
        if len(a) == 2:
            return lift(lambda x, y: raw("range", y) if x is ZERO else raw("range2", x, y),
                        *a)
        return lift(lambda x, y, z: (raw("range", y) if x is ZERO else raw("range2", x, y))
                    if z is ONE else raw("range3", x, y, z), *a)

    def b_zip(self, a, k):
        return raw("zip", *a)

    def b_enumerate(self, a, k):
        st = a[1] if len(a) > 1 else dict(k).get("start")
        return raw("enumerate", a[0], *([self.d(st)] if st is not None else []))

    def b_reversed(self, a, k):
        return raw("reversed", a[0])

    def b_map(self, a, k):
        i = self.i
        f = a[0]
        it = a[1] if len(a) == 2 else raw("zip", *a[1:])
        dom = i.domain(it)

        def one(v):
            args = list(i.cont(v).a) if len(a) > 2 else [v]
            return i.call(f, args, [])
        if dom[0] == "lit":
            return raw("list", *[i.bind(one(v)) for v in dom[1]])
        acc = i.alloc(raw("list"))
        i.run_for(dom, lambda v: i.heap.__setitem__(("v", i.frame.fid, "<mapv>"), v),
                  lambda: i.mutate(acc, ops.concat(i.cont(acc), raw("list", self.d(one(
                      i.heap[("v", i.frame.fid, "<mapv>")])))), "map"), [])
        i.heap.pop(("v", i.frame.fid, "<mapv>"), None)
        return i.cont(acc)

    def b_filter(self, a, k):
        i = self.i
        f, it = a
        dom = i.domain(it)
        if dom[0] == "lit":
            items = []
            for v in dom[1]:
                c = i.cond(i.call(f, [v], [])) if i.cont(f) is not NONE else i.cond(v)
                if c is TRUE:
                    items.append(v)
                elif c is not FALSE:
                    return i.unmodelled("filter")
            return raw("list", *items)
        return i.unmodelled("filter")

    def b_list(self, a, k):
        i = self.i
        if not a:
            return raw("list")
        c = i.cont(a[0])
        return lift(lambda x: self._listof(x), c)

    def _listof(self, x):
        i = self.i
        if is_app(x) and x.h in ("list", "concat", "map"):
            return x
        if is_app(x) and x.h in ("zip", "enumerate", "range", "range2", "items", "values",
                                 "keys", "tuple", "set", "dict", "reversed") or is_str(x):
            d = i._domain(x, x)
            if d[0] == "lit":
                return raw("list", *[i.bind(v) for v in d[1]])
            if d[0] == "sym":
                i.idxno += 1
                idx = sym("%%%d" % i.idxno, "int")
                return ops.map_(d[1], self.d(d[2](idx)), idx)
        return ops.app("listof", [self.d(x)])

    def b_tuple(self, a, k):
        if not a:
            return raw("tuple")
        c = self.i.cont(a[0])

        def f(x):
            if is_app(x) and x.h in ("list", "tuple"):
                return raw("tuple", *x.a)
            l = self._listof(x)
            return raw("tuple", *l.a) if is_app(l, "list") else ops.app("tupleof", [l])
        return lift(f, c)

    def b_set(self, a, k):
        if not a:
            return raw("set")
        return lift(lambda x: raw("set", *x.a) if is_app(x) and x.h in ("list", "tuple", "set")
                    else raw("setof", x), self.d(a[0]))

    b_frozenset = b_set

    def b_dict(self, a, k):
        i = self.i
        c = raw("dict")
        if a:
            c = i.cont(a[0])
            if is_app(c, "zip") or is_app(c) and c.h in ("list", "tuple", "items"):
                d = i._domain(c, c)
                if d[0] == "lit":
                    c = ops.dict_([(self.d(i.item(p, ZERO)), i.bind(i.item(p, ONE)))
                                   for p in d[1]])
                else:
                    return i.unmodelled("dict()")
        for n, v in k:
            if n == "**":
                c = raw("dictupd", self.d(c), v)
            else:
                c = ops.setitem(c, const(n), i.bind(v))
        return c

    def b_str(self, a, k):
        if not a:
            return const("")
        return lift(lambda x: x if is_str(x) else ops.strcat([x, const("")]) if x.k == "num"
                    else raw("tostr", x), self.d(a[0]))

    def b_repr(self, a, k):
        return raw("repr", self.d(a[0]))

    def b_int(self, a, k):
        return ops.app("int", [self.d(a[0])]) if a else ZERO

    def b_float(self, a, k):
        x = self.d(a[0]) if a else ZERO
        return lift(lambda y: const(float(y.x)) if is_str(y) else ops.app("float", [y]), x)

    def b_bool(self, a, k):
        return self.i.cond(a[0]) if a else FALSE

    def b_abs(self, a, k):
        return ops.app("abs", [self.d(a[0])])

    def b_round(self, a, k):
        return ops.app("around", [self.d(x) for x in a])

    def b_pow(self, a, k):
        return ops.power(self.d(a[0]), self.d(a[1]))

    def b_divmod(self, a, k):
        x, y = self.d(a[0]), self.d(a[1])
        return raw("tuple", ops.floordiv(x, y), ops.mod(x, y))

    def b_sum(self, a, k):
        i = self.i
        c = self.d(a[0])
        st = self.d(a[1]) if len(a) > 1 else self.d(dict(k).get("start", ZERO))
        if is_app(c, "list") or is_app(c, "tuple"):
            r = st
            for x in c.a:
                r = ops.add(r, x)
            return r
        if is_app(c, "zip") or is_app(c) and c.h in ("range", "values", "items"):
            c = self._listof(c)
        return ops.add(st, ops.app("sum", [c], [("axis", ZERO)]))

    def b_max(self, a, k):
        return self._mm(a, k, ops.smax, "amax")

    def b_min(self, a, k):
        return self._mm(a, k, ops.smin, "amin")

    def _mm(self, a, k, f, h):
        if len(a) == 1:
            c = self.d(a[0])
            if is_app(c) and c.h in ("list", "tuple") and c.a and not k:
                a = list(c.a)
            else:
                return ops.app(h, [c], [(n, self.d(v)) for n, v in k])
        r = self.d(a[0])
        for x in a[1:]:
            r = lift(f, r, self.d(x))
        return r

    def b_any(self, a, k):
        return self._aa(a, "any")

    def b_all(self, a, k):
        return self._aa(a, "all")

    def _aa(self, a, h):
        i = self.i
        c = i.cont(a[0])
        if is_app(c) and c.h in ("list", "tuple", "set"):
            r = FALSE if h == "any" else TRUE
            for x in c.a:
                r = b_or(r, i.cond(x)) if h == "any" else b_and(r, i.cond(x))
            return r
        if is_app(c) and c.h in ("values", "keys", "items", "zip"):
            c = self._listof(c)
        return ops.app(h, [self.d(c)])

    def b_sorted(self, a, k):
        c = self.d(a[0])
        kw = []
        for n, v in k:
            kw.append((n, self.d(v)))
        return raw("sorted", c, kw=kw)

    def b_iter(self, a, k):
        return a[0]

    def b_next(self, a, k):
        i = self.i
        c = self.d(a[0])
        if is_app(c, "map") and len(c.a) == 3:
            f = dict(c.kw).get("filt")
            if f is not None:
                idx = raw("first", c.a[0], raw("map", c.a[0], f, c.a[2]))
                found = ops.cond_of(ops.app("any", [raw("map", c.a[0], f, c.a[2])]))
                v = ops.subst(c.a[1], {c.a[2]: idx})
                if len(a) > 1:
                    return ite(found, v, self.d(a[1]))
                i.raise_("StopIteration", b_not(found))
                return v
        if is_app(c, "list") and c.a:
            return c.a[0]
        return i.unmodelled("next()")

    def b_print(self, a, k):
        kwd = dict(k)
        f = kwd.get("file")
        key = "stdout"
        if f is not None:
            fv = self.i.cont(f)
            key = "stderr" if fv.k == "ext" and fv.h == "sys.stderr" else "file"
            if fv.k == "ext" and fv.h == "sys.stdout":
                key = "stdout"
        sep = self.d(kwd["sep"]) if "sep" in kwd else const(" ")
        parts = []
        for n, x in enumerate(a):
            if n:
                parts.append(sep)
            parts.append(self.d(x))
        if "end" in kwd:
            parts.append(self.d(kwd["end"]))
        else:
            parts.append(const("\n"))
        if key == "file":
            return self.effect(f, "write", [self.i.strcat(parts)], [])
        self.event(key, lift(lambda x: raw("print", x), self.i.strcat(parts)))
        return NONE

    def b_isinstance(self, a, k):
        if len(a) != 2:
            self.i.note_defect("TypeError", "arguments of isinstance")
            self.i.raise_("TypeError")
            return NONE
        i = self.i
        types = []

        def collect(t):
            t = i.cont(t)
            if is_app(t, "tuple") or is_app(t, "list"):
                for x in t.a:
                    collect(x)
            elif t.k == "node":
                types.append(("node", t))
            elif t.k == "cls":
                types.append(("cls", t.h))
            elif t.k == "ext":
                types.append(("ext", t.h))
            elif t is NONE:
                types.append(("bad", None))
            else:
                types.append(("term", t))
        collect(a[1])
        c = i.cont(a[0])

        def leaf(x):
            r = FALSE
            for kd, t in types:
                if kd == "cls":
                    if x.k == "obj":
                        r = b_or(r, const(t in i.classes[x.h].mro))
                    elif x.k in ("num", "const") or x.k == "app" and x.h in (
                            "list", "tuple", "dict"):
                        pass
                    else:
                        r = b_or(r, atom(raw("isinst", self.d(x), raw("cls:" + t))))
                elif kd == "ext":
                    if x.k == "obj":
                        r = b_or(r, const("ext:" + t in i.classes[x.h].mro
                                          or t == "builtins.object"))
                    elif x.k in ("closure", "bound", "cls", "ext"):
                        r = b_or(r, const(t in ("builtins.object", "typing.Callable",
                                                "collections.abc.Callable")))
                    else:
                        r = b_or(r, ops.isinst(self.d(x), [t]))
                elif kd == "node":
                    def f(tl):
                        if tl.k == "ext":
                            return ops.isinst(self.d(x), [tl.h])
                        if is_app(tl, "tuple"):
                            return self.i.cond(self.b_isinstance([x, tl], []))
                        return atom(raw("isinst", self.d(x), raw("t?")))
                    r = b_or(r, lift(f, t))
                elif kd == "bad":
                    i.raise_("TypeError")
                else:
                    r = b_or(r, atom(raw("isinst", self.d(x), t)))
            return r
        return lift(leaf, c)

    def b_issubclass(self, a, k):
        x, t = self.i.cont(a[0]), self.i.cont(a[1])
        if x.k == "cls" and t.k == "cls":
            return const(t.h in self.i.classes[x.h].mro)
        return atom(raw("issubclass", self.d(x), self.d(t)))

    def b_type(self, a, k):
        def f(x):
            if x is NONE:
                return leafobj("ext", "builtins.NoneType", None)
            if x.k == "obj":
                return leafobj("cls", x.h, None)
            if is_str(x):
                return leafobj("ext", "builtins.str", None)
            return raw("type", self.d(x))
        return lift(f, self.i.cont(a[0]))

    def b_callable(self, a, k):
        i = self.i

        def f(x):
            if x.k in ("closure", "bound", "cls", "static"):
                return TRUE
            if x.k == "ext":
                return const(not x.h.startswith("mod:"))
            if x.k == "obj":
                return const(i.class_lookup(x.h, "__call__") is not None)
            if x.k in ("num", "const", "poly") or is_app(x) and x.h in (
                    "list", "tuple", "dict", "arr"):
                return FALSE
            if kind_of(x) in ("callable", "sfn", "afn", "observer"):
                return TRUE
            if kind_of(x) in ("array", "scalar", "int", "str", "list", "dict"):
                return FALSE
            if is_app(x) and x.h in ("attr:op", "attr:adj_op", "attr:cost", "attr:get_grad") \
                    and kind_of(x.a[0]) == "op":
                return TRUE
            return atom(raw("callable", self.d(x)))
        return lift(f, i.cont(a[0]))

    def b_hasattr(self, a, k):
        i = self.i
        n = i.cont(a[1])

        def f(x):
            if not is_str(n):
                return atom(raw("hasattr", self.d(x), n))
            if x.k == "obj":
                if i.class_lookup(x.h, n.x) is not None:
                    return TRUE
                v = i.heap.get(("a", x, n.x))
                if v is None:
                    return const(i.has_ext_base(x.h)) if False else FALSE
                from .interp import UNDEF
                return lift(lambda l: FALSE if l is UNDEF else TRUE, v)
            if x.k == "closure":
                v = i.heap.get(("fa", x.x, n.x))
                from .interp import UNDEF
                if v is None:
                    return FALSE
                return lift(lambda l: FALSE if l is UNDEF else TRUE, v)
            if x is NONE or x.k == "num":
                return FALSE
            if kind_of(x) == "op" and x.k == "sym" and n.x in ("op", "adj_op", "cost",
                                                               "get_grad"):
                return TRUE
            return atom(raw("hasattr", self.d(x), n))
        return lift(f, i.cont(a[0]))

    def b_getattr(self, a, k):
        i = self.i
        n = i.cont(a[1])
        if n.k == "node":
            return i.over_leaves(n, lambda l: self.b_getattr([a[0], l] + list(a[2:]), k))
        if not is_str(n):
            o = i.cont(a[0])
            return raw("getattr", self.d(o), self.d(n))
        if len(a) > 2:
            h = self.b_hasattr(a[:2], [])
            return i.fork(h, lambda: i.getattr(a[0], n.x), lambda: a[2])
        return i.getattr(a[0], n.x)

    def b_setattr(self, a, k):
        i = self.i
        n = i.cont(a[1])
        if not is_str(n):
            return i.unmodelled("setattr with computed name")
        i.setattr(a[0], n.x, i.bind(a[2]))
        return NONE

    def b_property(self, a, k):
        g = a[0].x if a and a[0].k == "closure" else None
        kwd = dict(k)
        s = a[1] if len(a) > 1 else kwd.get("fset")
        return leafobj("prop", "property", (g, s.x if s is not None and s.k == "closure"
                                            else None))

    def b_staticmethod(self, a, k):
        return leafobj("static", "s", a[0].x) if a[0].k == "closure" else a[0]

    def b_classmethod(self, a, k):
        return leafobj("clsm", "c", a[0].x) if a[0].k == "closure" else a[0]

    def b_id(self, a, k):
        return raw("id", self.d(a[0]))

    def b_slice(self, a, k):
        a = [self.d(x) for x in a]
        if len(a) == 1:
            return lift(lambda x: ops.slice_(NONE, x, NONE), a[0])
        if len(a) == 2:
            a.append(NONE)
        return lift(ops.slice_, *a)

    def b_open(self, a, k):
        r = self.effect(leafobj("ext", "builtins", None), "open", a, k)
        return raw("x:builtins.open", *[self.d(x) for x in a])

    def b_vars(self, a, k):
        return self.i.unmodelled("vars()")

    b_locals = b_globals = b_eval = b_exec = b_vars

    # analysis intrinsics (probe programs only)
    def b_EVENT(self, a, k):
        a = [self.d(x) for x in a]
        self.event(a[0], lift(lambda *xs: raw("ev", *xs), *a[1:]) if len(a) > 1 else raw("ev"))
        return NONE

    def b_EXTERN(self, a, k):
        a = [self.d(x) for x in a]
        nm = a[0].x
        kd = dict(k).get("kind")
        t = lift(lambda *xs: raw("extern:" + nm, *xs), *a[1:]) if len(a) > 1 else raw(
            "extern:" + nm)
        self.fault(t)
        return t

    def b_FAULTS(self, a, k):
        self.i.faults = self.i.cont(a[0]) is TRUE
        return NONE

    def b_ASSUME(self, a, k):
        i = self.i
        c = i.cond(a[0])
        if c is FALSE:
            i.kill()
        elif c is not TRUE:
            i.assume(c)
            # reinterpret: assumptions restrict the probe, they are not exits
        return NONE

    def b_TRACE(self, a, k):
        i = self.i
        key = self.d(a[0])
        return i.heap.get(("t", key.x if is_str(key) else key), raw("list"))

    def b_HAVOC(self, a, k):
        return self.i.havoc(a, k)

    def b_KNOWN(self, a, k):
        """reference trees only: documented behaviour, or the recorded deviation."""
        return a[2] if self.i.known_mode else a[1]

    def b_PEEK(self, a, k):
        """private state: compared when it exists under that name, unknown otherwise."""
        i = self.i
        n = i.cont(a[1])
        h = self.b_hasattr(a[:2], [])
        return i.fork(h, lambda: i.getattr(a[0], n.x),
                      lambda: raw("UNMODELLED", const("private " + n.x)))

    def b_KIND(self, a, k):
        return a[0]


FLOATS = ("builtins.float", "numpy.floating", "numpy.inexact", "numpy.number")


def issubdtype(x, y):
    if x.k == "ext" and y.k == "ext":
        if x.h == y.h:
            return TRUE
        if x.h == "builtins.float" and y.h in FLOATS:
            return TRUE
    return atom(raw("issubdtype", x, y))


def _ospathsplit(self, a, k):
    x = self.d(a[0])
    if is_str(x):
        import posixpath
        h, t = posixpath.split(x.x)
        return raw("tuple", const(h), const(t))
    return ops.app("os.path.split", [x])


def _pure(head):
    def f(self, a, k):
        return ops.app(head, [self.d(x) for x in a], [(n, self.d(v)) for n, v in k])
    return f


def _deepcopy(self, a, k):
    c = self.i.cont(a[0])
    return self.d(c) if c.k != "obj" else self.i.unmodelled("copy of object")


def _partial(self, a, k):
    return raw("partial", a[0], raw("tuple", *[self.i.bind(x) for x in a[1:]]),
               ops.dict_([(const(n), self.i.bind(v)) for n, v in k]))


def _reduce(self, a, k):
    i = self.i
    d = i.domain(a[1])
    if d[0] != "lit":
        return i.unmodelled("reduce")
    items = list(d[1])
    acc = a[2] if len(a) > 2 else items.pop(0)
    for x in items:
        acc = i.call(a[0], [acc, x], [])
    return acc


def _warn(self, a, k):
    self.event("warnings", raw("ev", const("warn")))
    return NONE


def _product(self, a, k):
    i = self.i
    rep = dict(k).get("repeat")
    if rep is not None:
        a = list(a) * int(i.cont(rep).x)
    ds = [i.domain(x) for x in a]
    if all(d[0] == "lit" for d in ds):
        import itertools
        return raw("list", *[raw("tuple", *t) for t in itertools.product(*[d[1] for d in ds])])
    return raw("product", *[self.d(x) for x in a])


def _getmro(self, a, k):
    c = self.i.cont(a[0])
    if c.k == "cls":
        return self.i.getattr(c, "__mro__")
    return raw("x:inspect.getmro", self.d(c))


def _operator(op):
    def f(self, a, k):
        return self.i.binop(op, a[0], a[1])
    return f


def _find_spec(self, a, k):
    i = self.i
    n = self.d(a[0])
    if is_str(n):
        c = i.import_ext(n.x)
        return ite(c, raw("modspec", n), NONE) if c is not TRUE else raw("modspec", n)
    return raw("x:find_spec", n)


def _norm(self, a, k):
    return self.np("linalg.norm", a, k)


def _svd(name):
    def f(self, a, k):
        kw = [(n, self.d(v)) for n, v in k]
        al = [self.d(x) for x in a]
        if len(al) > 1 and name == "svd":
            names = ["full_matrices", "compute_uv"]
            kw += list(zip(names, al[1:]))
            al = al[:1]
        kw = [(n, v) for n, v in kw if not (n == "check_finite" or n == "overwrite_a")]
        r = ops.app("scipy_" + name if name == "svds" else "svd", al, kw)
        self.fault(r)
        return r
    return f


def _sqrtm(self, a, k):
    return ops.app("sqrt", [self.d(a[0])])


EXTFN = {
    "joblib.delayed": lambda self, a, k: a[0],
    "copy.deepcopy": _deepcopy, "copy.copy": _deepcopy, "functools.partial": _partial,
    "functools.reduce": _reduce, "warnings.warn": _warn, "itertools.product": _product,
    "inspect.getmro": _getmro, "operator.mul": _operator("Mult"),
    "operator.add": _operator("Add"), "operator.sub": _operator("Sub"),
    "operator.truediv": _operator("Div"), "math.sqrt": _sqrtm,
    "math.exp": _pure("exp"), "math.log10": _pure("log10"), "math.prod": _pure("prod"),
    "math.floor": _pure("floor"), "math.fabs": _pure("abs"), "math.cos": _pure("cos"),
    "math.sin": _pure("sin"),
    "importlib.util.find_spec": _find_spec, "scipy.linalg.norm": _norm,
    "scipy.linalg.svd": _svd("svd"), "scipy.sparse.linalg.svds": _svd("svds"),
    "shlex.split": _pure("shlex.split"), "shlex.join": _pure("shlex.join"),
    "time.time": _pure("now"), "datetime.datetime.now": _pure("now_dt"),
    "os.path.isfile": _pure("isfile"), "os.path.isdir": _pure("isdir"), "os.path.exists": _pure("exists"),
    "os.access": _pure("access"), "os.path.join": _pure("os.path.join"),
    "os.path.split": _ospathsplit,
    "random.getrandbits": lambda s, a, k: s.draw(raw("pyrandom"), "getrandbits", a, k),
    "random.random": lambda s, a, k: s.draw(raw("pyrandom"), "random", a, k),
}
