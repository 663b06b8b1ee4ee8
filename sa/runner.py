"""Runs probe programs abstractly against a source tree.

A probe is a small client program (Python syntax, parsed and never executed) whose
parameters are arbitrary values of a declared kind.  Its *outcome* is the value graph of
everything it observes: result, exceptions, effect traces, writes to memory it does not
own, and internal defects (undefined names, wrong arity).
"""
import ast
import os
from . import terms as tm
from . import interp as ip
from . import ops
from .terms import TRUE, FALSE, NONE, raw, const, num, sym, ite, b_or, TooLarge

DONTCARE = raw("dontcare")
LISTLEN = 2         # length of list parameters when loops are peeled
ENVS = {
    "default": {"cupy": False, "tensorflow": False, "torch": True, "ptwt": True, "pywt": True, "joblib": True,
                "astropy": True, "skimage": True, "sklearn": True, "matplotlib": True,
                "termcolor": True, "tqdm": True, "progressbar": True},
    "free": {},
}
KINDS = {"array", "any", "scalar", "int", "str", "bool", "op", "callable", "sfn", "afn",
         "observer", "rng", "list", "dict", "handle", "bar", "oplist"}


class Probe:
    def __init__(self, name, mod, node, props, env, opts):
        self.name, self.mod, self.node = name, mod, node
        self.props, self.env, self.opts = props, env, opts


def read_probes(directory):
    out = []
    for f in sorted(os.listdir(directory)):
        if not f.endswith(".py"):
            continue
        path = os.path.join(directory, f)
        tree = ast.parse(open(path).read(), path)
        mod = "probe_" + f[:-3]
        default = []
        for n in tree.body:
            if isinstance(n, ast.Assign) and n.targets[0].id == "PROPS":
                default = ast.literal_eval(n.value)
            if isinstance(n, ast.FunctionDef) and n.name.startswith("p_"):
                props, env, opts = list(default), "default", {}
                for d in n.decorator_list:
                    if isinstance(d, ast.Call) and d.func.id == "probe":
                        if d.args:
                            props = [ast.literal_eval(a) for a in d.args]
                        for k in d.keywords:
                            v = ast.literal_eval(k.value)
                            if k.arg == "env":
                                env = v
                            else:
                                opts[k.arg] = v
                n.decorator_list = []
                if env == "free" and "C22" not in props:
                    props.append("C22")
                out.append((path, Probe(mod + "." + n.name[2:], mod, n, props, env, opts)))
    return out


NOT_OPTIONS = ("array", "op", "oplist", "list", "handle", "bar")


def option_uses(node, name):
    """calls of a client program in which the parameter `name` is passed as a keyword."""
    return [(c, k) for c in ast.walk(node) if isinstance(c, ast.Call) for k in c.keywords
            if k.arg and isinstance(k.value, ast.Name) and k.value.id == name]


def options(node):
    """parameters of a client program which only serve as optional keyword arguments."""
    out = []
    for a in node.args.args:
        kind = ast.unparse(a.annotation) if a.annotation else "any"
        uses = option_uses(node, a.arg)
        n = sum(1 for x in ast.walk(node) if isinstance(x, ast.Name) and x.id == a.arg)
        if kind not in NOT_OPTIONS and uses and n == len(uses):
            out.append(a.arg)
    return out


class Outcome:
    pass


class Tree:
    """one source tree in one environment."""

    def __init__(self, root, env, probedir, label):
        self.i = ip.Interp(root, avail=ENVS[env], label=label)
        self.names = self.i.load_all()
        self.load_taint = self.i.taint
        self.import_traces = {k[1]: v for k, v in self.i.heap.items() if k[0] == "t"}
        self.import_raises = [(r[3], r[4]) for r in self.i.raises]
        for k in [k for k in self.i.heap if k[0] == "t"]:
            del self.i.heap[k]
        self.load_defects = list(self.i.defect)
        self.base_raises = list(self.i.raises)
        self.mods = set()
        self.probedir = probedir
        self.base = None

    def load_probe_mod(self, mod, path):
        if mod in self.mods:
            return
        self.mods.add(mod)
        i = self.i
        if self.base is not None:
            self.reset()
        i.load(mod, path, extra=True)
        i.taint = self.load_taint
        self.base = (dict(i.heap), dict(i.owner), dict(i.viewof), dict(i.objno), i.cellno, i.idxno,
                     i.fidno)

    def reset(self):
        i = self.i
        heap, owner, view, objno, cellno, idxno, fidno = self.base
        i.heap, i.owner, i.viewof, i.objno = dict(heap), dict(owner), dict(view), dict(objno)
        i.cellno, i.idxno, i.fidno = cellno, idxno, fidno
        i.pc = i.abs = TRUE
        i.raises, i.muts, i.defect = [], [], []
        i.taint = self.load_taint
        i.faults = False
        i.fault_no = 0
        i.frames = []
        i.depth = {}
        i.steps = 0
        i.peel = 0
        i.loop_ns = set()
        i.reach = set()
        i.callsites = 0

    def run(self, p, peel=0, ints=None, omit=None):
        if omit is None:
            return self._run(p, peel, ints)
        fn = self.i.fns[self.i.heap.get(("g", p.mod, p.node.name)).x]
        undo = []
        try:
            for call, k in option_uses(fn.node, omit):
                undo.append((call, list(call.keywords)))
                call.keywords.remove(k)
            return self._run(p, peel, ints)
        finally:
            for call, ks in reversed(undo):
                call.keywords = ks

    def _run(self, p, peel, ints):
        self.reset()
        i = self.i
        i.peel = peel
        o = Outcome()
        o.probe = p
        fv = i.heap.get(("g", p.mod, p.node.name))
        args = []
        for a in p.node.args.args:
            kind = ast.unparse(a.annotation) if a.annotation else "any"
            s = sym("$" + a.arg + (":" + kind if kind != "any" else ""), kind)
            own = frozenset([("caller", a.arg)])
            if peel and kind in ("list", "oplist"):
                s = raw("list", *[i.bind(ops.getitem(s, num(k)), own) for k in range(LISTLEN)])
            elif ints and s in ints:
                s = ints[s]
            args.append(i.bind(s, own))
        o.exc = None
        try:
            v = i.call(fv, args, [])
            exits = []
            if not i.dead:
                exits.append((i.pc, i.heap, i.deep(v), None, i.site))
            ok_heap = i.heap
            for pc, ab, heap, name, site, val in i.raises:
                exits.append((pc, heap, raw("raised", const(name)), name, site))
            res = DONTCARE
            keys = set()
            for pc, heap, val, name, site in exits:
                res = ite(pc, val, res)
                keys |= {k for k in heap if k[0] == "t" or k[0] == "a" and k[2].startswith(
                    "set:")}
            o.value = res
            o.traces = {}
            for k in keys:
                t = DONTCARE
                for pc, heap, val, name, site in exits:
                    i.heap = heap
                    v_ = i.deep(heap.get(k, raw("list")))
                    t = ite(pc, tm.lift(lambda x: raw("list") if x.k == "undef" else x, v_), t)
                o.traces[k[1] if k[0] == "t" else "%s of %s" % (k[2], tm.show(k[1], 12))] = t
            i.heap = ok_heap
            o.raises = [(name, site) for pc, heap, val, name, site in exits if name]
        except Exception as e:          # noqa: BLE001  (an analyser limit, never a verdict)
            if os.environ.get("SA_DEBUG") and not isinstance(e, (TooLarge, ip.Stop,
                                                                  RecursionError)):
                raise
            o.value = raw("UNMODELLED", const("limit"))
            o.traces = {}
            o.raises = []
            i.taint = i.taint or "analysis limit: %s" % (e,)
        o.taint = i.taint
        o.loop_ns = set(i.loop_ns)
        o.muts = list(i.muts)
        o.defects = list(i.defect)
        o.reach = set(i.reach)
        o.callsites = i.callsites
        return o
