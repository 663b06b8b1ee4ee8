"""Mutation survey (development): small edits of the package, one at a time, each analysed by
the probes whose reach includes the edited function.  usage: mutate.py SRC [-f filepat] [-n max] [-s seed]
prints mutants with no alarm (SURVIVED = all probes equal, UNDECIDED = some probe gave no answer)."""
import ast, copy, json, multiprocessing as mp, os, random, shutil, signal, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import main as m, check, runner


def arg(k, d=None):
    return sys.argv[sys.argv.index(k) + 1] if k in sys.argv else d


SRC = sys.argv[1]
R = random.Random(int(arg("-s", "1")))
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div, ast.Add], ast.Div: [ast.Mult],
       ast.Pow: [ast.Mult], ast.FloorDiv: [ast.Div], ast.Mod: [ast.Mult], ast.MatMult: [ast.Mult]}
CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE],
       ast.GtE: [ast.Gt, ast.Lt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot],
       ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
NAMES = {"sum": "prod", "max": "min", "min": "max", "any": "all", "all": "any", "floor": "ceil",
         "ceil": "floor", "maximum": "minimum", "minimum": "maximum", "append": "remove", "op": "adj_op",
         "adj_op": "op", "MtX": "MX", "MX": "MtX", "mean": "median", "sqrt": "abs", "zeros_like": "ones_like",
         "ones_like": "zeros_like", "zeros": "ones", "ones": "zeros", "_x_old": "_x_new", "_x_new": "_x_old",
         "_grad": "_prox", "shape": "size", "real": "imag", "vstack": "hstack", "hstack": "vstack"}


def mutants(tree):
    """yield (node description, apply) by deep copying the tree each time."""
    nodes = list(ast.walk(tree))
    for i, n in enumerate(nodes):
        if isinstance(n, ast.BinOp):
            for o in BIN.get(type(n.op), []):
                yield i, "binop", lambda x, o=o: setattr(x, "op", o())
            if isinstance(n.op, (ast.Sub, ast.Div)):
                yield i, "swap", lambda x: (lambda a, b: (setattr(x, "left", b), setattr(x, "right", a)))(x.left, x.right)
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                yield i, "cmp", lambda x, o=o: setattr(x, "ops", [o()])
        elif isinstance(n, ast.BoolOp):
            yield i, "boolop", lambda x: setattr(x, "op", ast.And() if isinstance(x.op, ast.Or) else ast.Or())
            yield i, "dropcond", lambda x: setattr(x, "values", x.values[:-1] * 2 if len(x.values) == 2 else x.values[:-1])
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            yield i, "unary", lambda x: setattr(x, "op", ast.UAdd() if isinstance(x.op, ast.USub) else ast.Not()) or (
                setattr(x, "operand", ast.UnaryOp(ast.Not(), x.operand)) if isinstance(x.op, ast.Not) else None)
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
            yield i, "const", lambda x: setattr(x, "value", x.value + 1)
            if n.value:
                yield i, "const0", lambda x: setattr(x, "value", 0)
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            yield i, "bool", lambda x: setattr(x, "value", not x.value)
        elif isinstance(n, ast.Constant) and type(n.value) is str and n.value:
            yield i, "str", lambda x: setattr(x, "value", x.value + "X")
        elif isinstance(n, ast.Attribute) and n.attr in NAMES:
            yield i, "attr", lambda x: setattr(x, "attr", NAMES[x.attr])
        elif isinstance(n, ast.Call):
            for k in range(len(n.keywords)):
                yield i, "dropkw", lambda x, k=k: x.keywords.pop(k)
            if len(n.args) > 1:
                yield i, "droparg", lambda x: x.args.pop()
                yield i, "swaparg", lambda x: x.args.reverse()
            if len(n.args) == 1 and not n.keywords:
                yield i, "unwrap", "UNWRAP"
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            yield i, "slice", lambda x: setattr(x, "slice", ast.Slice(x.slice.upper, x.slice.lower, x.slice.step))
        elif isinstance(n, ast.IfExp):
            yield i, "ifexp", lambda x: setattr(x, "test", ast.UnaryOp(ast.Not(), x.test))
        elif isinstance(n, ast.If):
            yield i, "iftrue", lambda x: setattr(x, "test", ast.Constant(True))
            yield i, "iffalse", lambda x: setattr(x, "test", ast.Constant(False))
        elif isinstance(n, (ast.FunctionDef, ast.If, ast.For, ast.While, ast.Try, ast.With)):
            for k, s in enumerate(n.body):
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                    continue
                if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.For)):
                    yield i, "del:%d" % s.lineno, lambda x, k=k: x.body.__setitem__(k, ast.Pass())
        elif isinstance(n, ast.Assign) and isinstance(n.value, ast.BinOp) is False and isinstance(
                n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and n.value.func.attr in ("copy", "deepcopy"):
            yield i, "nocopy", lambda x: setattr(x, "value", x.value.args[0] if x.value.args else x.value.func.value)


def owner(tree):
    own = {}

    def rec(n, qual):
        for c in ast.iter_child_nodes(n):
            q = qual
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                q = (qual + "." if qual else "") + c.name
            own[id(c)] = q
            rec(c, q)
    rec(tree, "")
    return own


def make(path):
    src = open(path).read()
    tree = ast.parse(src)
    own = owner(tree)
    nodes = list(ast.walk(tree))
    doc = {id(b.body[0].value) for b in nodes if isinstance(b, (ast.FunctionDef, ast.ClassDef, ast.Module))
           and b.body and isinstance(b.body[0], ast.Expr) and isinstance(b.body[0].value, ast.Constant)}
    parent = {}
    for n in nodes:
        for c in ast.iter_child_nodes(n):
            parent[id(c)] = n
    out = []
    for i, kind, f in mutants(tree):
        n = nodes[i]
        if id(n) in doc or not own.get(id(n)):
            continue
        # skip text of messages
        p = n
        skip = False
        while id(p) in parent:
            p = parent[id(p)]
            if isinstance(p, ast.Raise) and kind not in ("cmp",):
                skip = True
            if isinstance(p, ast.JoinedStr):
                skip = True
        if skip:
            continue
        out.append((path, i, kind, own[id(n)], getattr(n, "lineno", 0)))
    return out


def build(path, i, kind, dst):
    src = open(path).read()
    tree = ast.parse(src)
    seen = 0
    for j, k, f in mutants(tree):
        if j == i and k == kind:
            nodes = list(ast.walk(tree))
            n = nodes[i]
            if f == "UNWRAP":
                new = n.args[0]

                class X(ast.NodeTransformer):
                    def visit_Call(self, c):
                        self.generic_visit(c)
                        return new if c is n else c
                tree = X().visit(tree)
            else:
                f(n)
            break
    open(dst, "w").write(ast.unparse(ast.fix_missing_locations(tree)))
    return ast.unparse(tree)


def one(job):
    (path, i, kind, qual, line), names = job
    tmp = tempfile.mkdtemp(prefix="mut")
    try:
        shutil.copytree(SRC, tmp + "/src", ignore=shutil.ignore_patterns("__pycache__", "tests"))
        rel = os.path.relpath(path, SRC)
        before = ast.unparse(ast.parse(open(path).read())).split("\n")
        try:
            after = build(path, i, kind, tmp + "/src/" + rel).split("\n")
        except Exception as e:
            return None
        d = [(a, b) for a, b in zip(before, after) if a != b][:1]
        if not d:
            if len(before) == len(after):
                return None
            d = [("", "")]
        txt = "%s -> %s" % (d[0][0].strip(), d[0][1].strip())
        ses = m._S["s"]
        ses.src = tmp + "/src"
        for k in [k for k in ses.trees if k[0] == "code"]:
            del ses.trees[k]
        ses.loc = None
        und, n = [], 0
        t = time.time()
        for nm in names:
            n += 1
            try:
                name, out, st, kn, er, sec, reach = m._work(nm)
            except Exception as e:
                return ("CRASH", rel, line, qual, kind, txt, repr(e))
            und += [nm] if st["undecided_list"] else []
            bad = [(a, x) for a, v, x, s in out if v == m.DIFF]
            if bad:
                return ("KILLED", rel, line, qual, kind, txt, nm + ":" + bad[0][0])
            if time.time() - t > 100:
                break
        return ("UNDECIDED" if und else "SURVIVED", rel, line, qual, kind, txt, "%d probes %s" % (n, und[:4]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    probes = {p.name: p for _, p in runner.read_probes(check.PROBES) if m.wanted("C09", p, "quick")}
    slow = json.load(open(os.path.join(m.HERE, "spec", "slow.json")))
    # reach of every probe on the unmodified tree
    reach = {}
    m._init(SRC, "quick")
    ses = m._S["s"]
    memo = {}
    orig = ses.outcome

    def outcome(which, path, p, *a, **k):
        if which == "code" or a or k:
            return orig(which, path, p, *a, **k)
        if (which, p.name) not in memo:
            memo[which, p.name] = orig(which, path, p)
        return memo[which, p.name]
    ses.outcome = outcome
    for nm in sorted(probes, key=lambda n: slow.get(n, 0)):
        if arg("-p", "") not in nm or slow.get(nm, 0) > float(arg("-t", "4")):
            continue
        name, out, st, kn, er, sec, rc = m._work(nm)
        reach[name] = ({(f.split("modopt/")[-1], q) for f, q in rc}, sec)
    import gc
    gc.freeze()
    print("warm %.0fs" % sum(s for _, s in reach.values()), file=sys.stderr)
    muts = []
    for dp, dn, fn in os.walk(SRC + "/modopt"):
        if "tests" in dp:
            continue
        for f in sorted(fn):
            p = os.path.join(dp, f)
            if f.endswith(".py") and arg("-f", "") in p:
                muts += make(p)
    muts = sorted(set(muts))
    R.shuffle(muts)
    nmax = int(arg("-n", "100000"))
    jobs = []
    for mu in muts[:nmax]:
        rel = mu[0].split("modopt/", 1)[1]
        ns = [n for n, (rc, s) in reach.items() if any(f == rel and (q == mu[3] or q.startswith(mu[3] + ".") or mu[3].startswith(q + "."))
                                                      for f, q in rc)]
        ns.sort(key=lambda n: reach[n][1])
        jobs.append((mu, ns))
    cnt = {}
    t = time.time()
    out = []
    with mp.get_context("fork").Pool(8, maxtasksperchild=1) as pool:
        for r in pool.imap_unordered(one, jobs, chunksize=1):
            if r is None:
                continue
            cnt[r[0]] = cnt.get(r[0], 0) + 1
            if r[0] != "KILLED" or "-v" in sys.argv:
                out.append(r)
    for r in sorted(out):
        print(*r, sep=" | ")
    print(cnt, "%.0fs" % (time.time() - t))


main()
