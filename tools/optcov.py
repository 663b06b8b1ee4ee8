"""development: options (parameters with a default) of the public interface which no probe varies.
usage: optcov.py [SRC]"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from sa import check, runner, sigs, interp, terms as tm

SRC = sys.argv[1] if len(sys.argv) > 1 else "/repo/src"
seen = {}
orig = interp.Interp.call_fn


def call_fn(self, fid, args, kws):
    fn = self.fns[fid]
    if "/modopt/" in fn.file:
        a = fn.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        given = list(zip(pos, args)) + [(k, v) for k, v in kws]
        for p, v in given:
            try:
                s = any(x.h.startswith("$") for x in check.free_all(self.deep(v)))
            except Exception:
                s = False
            k = (fn.file, fn.node.lineno, p)
            seen[k] = max(seen.get(k, 0), 2 if s else 1)
    return orig(self, fid, args, kws)


interp.Interp.call_fn = call_fn
s = check.Session(SRC)
for path, p in runner.read_probes(check.PROBES):
    if p.name.split(".")[1].startswith(("ksup_", "pogm_iter")):
        continue
    t = s.tree("code", p.env)
    t.load_probe_mod(p.mod, path)
    t.run(p)
t = s.tree("code", "default")
for label, f in sorted(sigs.functions(t.i).items()):
    if not hasattr(f.node, "args") or not hasattr(f.node, "lineno") or "/modopt/" not in f.file:
        continue
    _, _, d, _, _ = sigs._params(f)
    none = [p for p in d if not seen.get((f.file, f.node.lineno, p))]
    one = [p for p in d if seen.get((f.file, f.node.lineno, p)) == 1]
    if none or one:
        print(label, "never:", none, "constant:", one)
