"""Drives the analysis: probes x trees -> findings -> verdict per property."""
import ast
import hashlib
import json
import os
import signal
import sys
import time
from . import terms as tm
from . import compare as cp
from . import runner
from .compare import EQ, DIFF, UNK
from .terms import raw, const, num, is_app, NONE

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(HERE, "spec", "ref")
PROBES = os.path.join(HERE, "spec", "probes")
LIST0 = raw("list")
PEEL = (2, 4)       # iterations observed when loops are peeled
PEEL_SECONDS = 30   # for one probe
PEEL_TOTAL = 120    # for one worker process


class Timeout(BaseException):
    pass



# aspects every probe contributes to cross-cutting properties
CROSS = {"C09": ("mut",), "C19": ("raise",), "C20": ("rng",), "C21": ("stdout", "verbose"),
         "C23": ("defect", "arity"), "C25": ("option", "default")}
INTERNAL_EXC = {"NameError", "UnboundLocalError", "AttributeError", "ImportError_"}


class Finding:
    def __init__(self, probe, aspect, verdict, text, site=None, props=()):
        self.probe, self.aspect, self.verdict = probe, aspect, verdict
        self.text, self.site, self.props = text, site, tuple(props)

    def key(self):
        return "%s|%s|%s" % (self.probe, self.aspect, self.text)


def fn_hashes(root):
    """fingerprint of every function of a tree (used only to point at a location)."""
    out = {}
    for d, ds, fs in os.walk(os.path.join(root, "modopt")):
        ds[:] = [x for x in ds if x not in ("__pycache__", "tests")]
        for f in fs:
            if not f.endswith(".py"):
                continue
            path = os.path.join(d, f)
            rel = os.path.relpath(path, root)
            try:
                tree = ast.parse(open(path).read())
            except SyntaxError:
                continue

            def walk(body, pre):
                for n in body:
                    if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                        if isinstance(n, ast.FunctionDef):
                            m = ast.parse(ast.unparse(n)).body[0]
                            if m.body and isinstance(m.body[0], ast.Expr) and isinstance(
                                    m.body[0].value, ast.Constant):
                                m.body = m.body[1:]
                            out[rel + "::" + pre + n.name] = (hashlib.sha1(
                                ast.dump(m).encode()).hexdigest()[:12], n.lineno)
                        else:
                            walk(n.body, pre + n.name + ".")
            walk(tree.body, "")
    return out


class Session:
    def __init__(self, repo_src):
        self.src = repo_src
        self.trees = {}
        self.stats = {"probes": 0, "decided": 0, "undecided": 0, "obligations": 0,
                      "functions": set(), "callsites": 0, "undecided_list": []}
        self.known = []
        self.loc = None
        self.errors = []
        self.spent = 0

    def tree(self, which, env):
        k = (which, env)
        t = self.trees.get(k)
        if t is None:
            root = SPEC if which != "code" else self.src
            t = runner.Tree(root, env, PROBES, which)
            t.i.known_mode = which == "variant"
            self.trees[k] = t
        return t

    def outcome(self, which, path, p, peel=0, ints=None, omit=None):
        t = self.tree(which, p.env)
        t.load_probe_mod(p.mod, path)
        return t.run(p, peel, ints, omit)

    def option_findings(self, path, p, f):
        """a difference which is not there once an option is left out, at its default, is one
        in what the option does."""
        own = [x for x in f if x.verdict == DIFF and x.aspect in (
            "value", "raise", "effect", "stdout", "warn")]
        if not own or p.opts.get("known"):
            return []
        out = []
        for name in runner.options(p.node):
            a = self.outcome("spec", path, p, omit=name)
            b = self.outcome("code", path, p, omit=name)
            if a.taint or b.taint or is_app(a.value, "raised"):
                continue
            if not self.diff(p, a, b):
                out.append(Finding(p.name, "option", DIFF, "option %s is not as documented: "
                                   "without it the source agrees with the specification, with "
                                   "it %s" % (name, own[0].text), own[0].site))
        return out

    # -------------------------------------------------------------- one probe
    def probe(self, path, p):
        s = self.outcome("spec", path, p)
        if s.taint:
            self.errors.append("%s: reference not modelled: %s" % (p.name, s.taint))
        c = self.outcome("code", path, p)
        f = self.diff(p, s, c)
        if f and not any(x.verdict == DIFF for x in f):
            f = f + self.refute(path, p, s, c)
        if f and p.opts.get("known"):
            v = self.outcome("variant", path, p)
            f2 = self.diff(p, v, c)
            if not f2:
                for k in p.opts["known"]:
                    self.known.append((k, p.name))
            f = f2
        self.count(p, f, c)
        self.stats["probes"] += 1
        self.stats["functions"] |= {x for x in c.reach if "/modopt/" in x[0]}
        self.stats["callsites"] += c.callsites
        return f, s, c

    def refute(self, path, p, s, c):
        """an undecided probe is looked at again for short loops: list arguments of a fixed
        length, integer bounds of loops fixed, other loops observed for their first
        iterations only.  Differences found there are differences."""
        for k in PEEL:
            if self.spent > PEEL_TOTAL:
                return []
            ints = {x: num(k) for o in (s, c) for x in o.loop_ns
                    if x.k == "sym" and x.h.startswith("$")}
            left = signal.alarm(PEEL_SECONDS)
            t0 = time.time()
            try:
                a = self.outcome("spec", path, p, k, ints)
                b = self.outcome("code", path, p, k, ints)
                if a.taint:
                    return []
                unify_shapes(a, b)
                out = [x for x in self.diff(p, a, b) if x.verdict == DIFF]
            except (Timeout, RecursionError, tm.TooLarge):
                return []
            finally:
                self.spent += time.time() - t0
                signal.alarm(max(1, int(left - (time.time() - t0))) if left else 0)
            if out:
                for x in out:
                    x.text = "(loops peeled) " + x.text
                return out
        return []

    def count(self, p, out, c):
        if any(x.verdict == DIFF for x in out):
            self.stats["decided"] += 1
        elif any(x.verdict == UNK for x in out) or c.taint:
            self.stats["undecided"] += 1
            self.stats["undecided_list"].append(p.name + ": " + ([
                x.text for x in out if x.verdict == UNK] + [c.taint])[0][:160])
        else:
            self.stats["decided"] += 1

    def diff(self, p, s, c):
        out = []

        state = [{x.h for v in [o.value] + list(o.traces.values()) for x in free_all(v)
                  if x.h.startswith("St:")} for o in (s, c)]
        renamed = "solver state is kept under other names" if state[1] - state[0] else None

        def add(aspect, verdict, text, site=None, props=()):
            if renamed and verdict == DIFF and aspect not in ("rng", "defect", "mut"):
                verdict, text = UNK, "[%s] %s" % (renamed, text)
            out.append(Finding(p.name, aspect, verdict, text, site, props))
        # internal defects
        sd = {(d[0], d[1]) for d in s.defects}
        for exc, what, site, ab in c.defects:
            if (exc, what) not in sd and ab is not tm.FALSE:
                add("defect", UNK if c.taint else DIFF,
                    "%s: %s" % (exc, what), site)
        # foreign memory
        so = {m[1] for m in s.muts}
        for ab, owner, how, site, stack in c.muts:
            if owner not in so and ab is not tm.FALSE:
                add("mut", UNK if c.taint else DIFF,
                    "%s of memory owned by %s" % (how, "/".join(map(str, owner))), site)
        cmpv = cp.Comparer()

        def run(aspect, sv, cv, tol=None):
            try:
                v, bad = cmpv.compare(sv, cv, tol)
            except (tm.TooLarge, RecursionError) as e:
                add(aspect, UNK, "limit")
                return
            self.stats["obligations"] += max(1, len(tm.leaves(cv)))
            if v == EQ:
                return
            csup = tm.support(cv)
            for path, sl, cl, r in bad:
                asp = aspect
                verdict = r[0]
                why = ""
                if verdict == DIFF:
                    t = cp.trusted_path(path, [sv], csup)
                    if t:
                        verdict, why = UNK, t
                    elif c.taint:
                        verdict, why = UNK, c.taint
                else:
                    why = r[1]
                if asp == "value":
                    rs, rc = is_app(sl, "raised"), is_app(cl, "raised")
                    if rs or rc:
                        asp = "raise"
                text = "when %s: expected %s, source computes %s" % (
                    show_path(path), tm.show(r[2] if len(r) > 2 else sl, 6)[:300],
                    tm.show(r[3] if len(r) > 2 else cl, 6)[:300])
                if why:
                    text = "[" + why + "] " + text
                add(asp, verdict, text)
                if verdict == DIFF and asp in ("value", "effect") and not renamed and \
                        not is_app(cl, "raised"):
                    lost = {x for x in tm.free(sl) - tm.free(cl) if x.h.startswith("$")}
                    conds = {x for a in tm.support(sv) for x in tm.free(a)}
                    lost2 = {x for x in (tm.free(sv) | conds) - tm.free(cv)
                             if x.h.startswith("$")}
                    if lost or lost2:
                        names = sorted(x.h[1:].split(":")[0] for x in lost | lost2)
                        out.append(Finding(p.name, "option", DIFF, "argument %s does not reach "
                                           "the result; %s" % (", ".join(names), text)))
        def draws(o):
            return any("globalrng" in tm.heads(v) for v in [o.value] + list(o.traces.values()))
        if draws(c) and not draws(s) and not c.taint:
            add("rng", DIFF, "a result or effect depends on the global random generator")
        run("value", s.value, c.value, tol_raise)
        for k in set(s.traces) | set(c.traces):
            a, b = s.traces.get(k, LIST0), c.traces.get(k, LIST0)
            asp = {"stdout": "stdout", "stderr": "warn", "warnings": "warn",
                   "globalrng": "rng"}.get(k, "effect") if isinstance(k, str) else "effect"
            if not isinstance(k, str) and k.k == "ext" and "sys.stderr" in str(k.h):
                asp = "warn"
            if not isinstance(k, str) and k.k == "ext" and "sys.stdout" in str(k.h):
                asp = "stdout"
            if k == "warnings":
                a, b = blur_warn(a), blur_warn(b)
            run(asp, a, b)
        return out

    def locate(self, c):
        """functions analysed whose source is not the verified one."""
        if self.loc is None:
            try:
                base = json.load(open(os.path.join(HERE, "spec", "fingerprints.json")))
            except OSError:
                base = {}
            cur = fn_hashes(self.src)
            self.loc = {k: v[1] for k, v in cur.items() if base.get(k) != v[0]}
        return self.loc


def free_all(v):
    out = set(tm.free(v))
    for a in tm.support(v):
        out |= tm.free(a)
    return out


def unify_shapes(a, b):
    """the case in which arrays that are broadcast together have the same shape."""
    vals = [a.value, b.value] + list(a.traces.values()) + list(b.traces.values())
    groups = {t for v in vals for t in cp.tm_sub(v) if is_app(t, "bcast")}
    if not groups:
        return
    rep = {}

    def find(x):
        while x in rep:
            x = rep[x]
        return x
    for g in sorted(groups, key=lambda z: z.id):
        for x in g.a[1:]:
            x, y = find(x), find(g.a[0])
            if x is not y:
                lo, hi = sorted((x, y), key=lambda z: z.id)
                rep[hi] = lo
    env = {g: find(g.a[0]) for g in groups}
    for x in rep:
        for h in ("shape", "len", "size", "ndim"):
            env[raw(h, x)] = raw(h, find(x))

    def go(v):
        return cp.replace(v, env)
    for o in (a, b):
        o.value = go(o.value)
        o.traces = {k: go(v) for k, v in o.traces.items()}


def blur_warn(v):
    """the wording of warnings is not specified, only that one is given."""
    def f(t):
        if is_app(t, "list"):
            return raw("list", *[raw("warning") for _ in t.a])
        return t
    return tm.lift(f, v)


def tol_raise(s, c, path):
    """two refusals are the same refusal when neither is specific."""
    if is_app(s, "raised") and is_app(c, "raised") and s is not c:
        # conversions of invalid operands raise whatever the operation raises
        if s.a[0].x in ("any",):
            return (EQ,)
    return None


def show_path(path):
    if not path:
        return "always"
    return " and ".join(("" if v else "not ") + tm.show(a, 4)[:80] for a, v in list(
        path.items())[-6:])
