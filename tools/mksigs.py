"""development: signatures of the external functions (spec/extsigs.json), read from the installed
packages.  Run with the interpreter of the package's environment: /opt/venv/bin/python tools/mksigs.py
The checks only read the committed table."""
import importlib, inspect, json, os, types

MODS = ["numpy", "numpy.linalg", "numpy.fft", "scipy.signal", "scipy.linalg", "scipy.ndimage",
        "scipy.special", "scipy.fft", "scipy.sparse.linalg", "skimage.metrics",
        "sklearn.isotonic", "astropy.convolution", "pywt", "itertools", "functools", "shutil"]
UFUNC = [["out", None], ["where", True], ["casting", "same_kind"], ["order", "K"],
         ["dtype", None], ["subok", True]]
HAND = {
    "numpy.zeros": (["shape"], [["order", "C"]]), "numpy.empty": (["shape"], [["order", "C"]]),
    "numpy.ones": (["shape"], [["order", "C"], ["dtype", None]]),
    "numpy.array": (["object"], [["dtype", None], ["copy", True], ["order", "K"],
                                 ["subok", False], ["ndmin", 0]]),
    "numpy.asarray": (["a"], [["dtype", None], ["order", None]]),
    "numpy.concatenate": (["arrays"], [["axis", 0], ["out", None], ["dtype", None],
                                       ["casting", "same_kind"]]),
    "numpy.dot": (["a", "b"], [["out", None]]), "numpy.inner": (["a", "b"], []),
    "numpy.vdot": (["a", "b"], []),
}
out = {}
for m in MODS:
    try:
        mod = importlib.import_module(m)
    except ImportError:
        continue
    for n in dir(mod):
        f = getattr(mod, n)
        if n.startswith("_") or isinstance(f, (type, types.ModuleType)) or not callable(f):
            continue
        name = m + "." + n
        if type(f).__name__ == "ufunc":
            out[name] = [["#%d" % k for k in range(f.nin)], [], UFUNC]
            continue
        try:
            ps = list(inspect.signature(f).parameters.values())
        except (ValueError, TypeError):
            continue
        pos, dft, ok = [], [], True
        for p in ps:
            if p.kind in (p.VAR_POSITIONAL, p.VAR_KEYWORD):
                ok = p.kind is p.VAR_KEYWORD and ok
                continue
            if p.kind is not p.KEYWORD_ONLY and ok:
                pos.append(p.name)
            if p.default is not p.empty and isinstance(p.default, (str, bool, int, float,
                                                                   type(None))):
                dft.append([p.name, p.default])
        req = [p.name for p in ps if p.kind is p.POSITIONAL_OR_KEYWORD and p.default is p.empty
               or p.kind is p.POSITIONAL_ONLY and p.default is p.empty]
        if not ok:
            pos = []
        out[name] = [req, [p for p in pos if p not in req], dft]
for k, (req, d) in HAND.items():
    out[k] = [req, [], d]
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec",
                    "extsigs.json")
with open(path, "w") as fh:
    fh.write("{\n" + ",\n".join(json.dumps(k) + ": " + json.dumps(out[k])
                                for k in sorted(out)) + "\n}\n")
print(len(out))
