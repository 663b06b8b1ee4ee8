"""Command line: decide one property (or all) on /repo's current source.

    python3 -m sa.main C05            # exit 0 / exit 1 + VIOLATION line
"""
import ast
import json
import multiprocessing as mp
import os
import re
import signal
import sys
import time

from . import check, runner, sigs, terms as tm
from .check import Timeout
from .compare import EQ, DIFF, UNK

HERE = check.HERE
EVID = os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "known-findings.txt")
# aspects that belong to one property wherever they appear
CROSS = {"C09": ("mut",), "C19": ("raise",), "C20": ("rng",), "C21": ("stdout", "warn"),
         "C23": ("defect",), "C25": ("option",)}
# aspects that break the properties a probe was written for
OWN = ("value", "raise", "effect", "defect")
OUTPUT_PROPS = {"C07", "C08", "C20", "C22", "C24", "C26"}      # say something about messages
PROBE_SECONDS = {"quick": 150, "thorough": 600}


def wanted(pid, p, tier="quick"):
    if p.opts.get("tier") == "thorough" and tier != "thorough":
        return False
    return pid in p.props or pid in CROSS


def relevant(pid, p, aspect):
    if aspect in CROSS.get(pid, ()):
        return True
    if pid not in p.props:
        return False
    if aspect in OWN:
        return True
    return aspect in ("stdout", "warn") and pid in OUTPUT_PROPS


_S = {}


def _init(src, tier):
    sys.setrecursionlimit(20000)
    import resource
    import threading
    threading.stack_size(512 * 1024 * 1024)
    gb = 1 << 30
    try:
        resource.setrlimit(resource.RLIMIT_AS, (12 * gb, 12 * gb))
    except (ValueError, OSError):
        pass
    _S["s"] = check.Session(src)
    _S["probes"] = {p.name: (path, p) for path, p in runner.read_probes(check.PROBES)}
    _S["tier"] = tier


def _alarm(*a):
    signal.alarm(10)        # again, should a handler on the way out swallow this one
    raise Timeout("time limit")


def _work(name):
    path, p = _S["probes"][name]
    s = _S["s"]
    s.stats = {"probes": 0, "decided": 0, "undecided": 0, "obligations": 0,
               "functions": set(), "callsites": 0, "undecided_list": []}
    s.known, s.errors = [], []
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(PROBE_SECONDS[_S["tier"]])
    try:
        f, so, co = s.probe(path, p)
        out = [(x.aspect, x.verdict, x.text, _site(x.site)) for x in f]
        reach = sorted(co.reach)
        if not any(x[0] == "option" for x in out):
            out += _options(s, path, p, f)
    except (Timeout, MemoryError, RecursionError, tm.TooLarge) as e:
        out, reach = [("limit", UNK, "analysis limit %s" % e, None)], []
        s.stats["undecided"] += 1
        s.stats["undecided_list"].append(name + ": analysis limit")
    except Exception as e:      # noqa: BLE001
        if os.environ.get("SA_DEBUG"):
            raise
        out, reach = [("limit", UNK, "analyser: %r" % e, None)], []
        s.stats["undecided"] += 1
        s.stats["undecided_list"].append(name + ": analyser: %r" % e)
    finally:
        signal.alarm(0)
    st = dict(s.stats)
    st["functions"] = sorted(st["functions"])
    return name, out, st, list(s.known), list(s.errors), time.time() - t0, reach


def _options(s, path, p, f):
    obs = s.stats["obligations"]
    try:
        return [(x.aspect, x.verdict, x.text, _site(x.site))
                for x in s.option_findings(path, p, f)]
    except (Timeout, MemoryError, RecursionError, tm.TooLarge):
        return []
    finally:
        s.stats["obligations"] = obs


def _site(s):
    return None if s is None else "%s:%s (%s)" % (s[0], s[2], s[1])


def known_entries():
    out = {}
    try:
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", l)
            if m:
                out[m.group(2)] = (m.group(1), m.group(3))
    except OSError:
        pass
    return out


def imports(src, pid):
    """effects, failures and signatures of importing the package (every environment)."""
    out, nf, np_ = [], 0, 0
    for env in ("default", "free"):
        a = runner.Tree(check.SPEC, env, check.PROBES, "spec")
        b = runner.Tree(src, env, check.PROBES, "code")
        sd = {(d[0], d[1]) for d in a.load_defects}
        for d in b.load_defects:
            if (d[0], d[1]) not in sd and d[3] is not tm.FALSE:
                out.append(("C23" if env == "default" else "C22", "import: %s: %s" % d[:2],
                            _site(d[2])))
        if len(b.import_raises) > len(a.import_raises):
            for r in b.import_raises[len(a.import_raises):]:
                out.append(("C22", "import of the package raises %s" % (r[0],), _site(r[1])))
        for k in b.import_traces:
            if k not in a.import_traces and isinstance(k, str) and not b.load_taint:
                out.append(({"stdout": "C21", "stderr": "C21", "warnings": "C21",
                             "globalrng": "C20"}.get(k, "C24"),
                            "importing the package has an effect: %s %s" % (
                                k, tm.show(b.import_traces[k], 6)[:200]), None))
        if env == "default":
            bad, nf, np_ = sigs.compare(a.i, b.i)
            out += [("C25", t, _site(s)) for t, s in bad]
    return [(t, s) for p, t, s in out if p == pid], nf, np_


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in PROBE_SECONDS:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    src = os.path.join(check.REPO, "src")
    t0 = time.time()
    sys.setrecursionlimit(20000)
    probes = [p for _, p in runner.read_probes(check.PROBES)]
    todo = [p for p in probes if wanted(pid, p, tier)]
    if not todo:
        print("ERROR: no probe for %s" % pid)
        return 3
    byname = {p.name: p for p in todo}
    try:
        slow = json.load(open(os.path.join(HERE, "spec", "slow.json")))
    except OSError:
        slow = {}
    order = sorted(byname, key=lambda n: -slow.get(n, 0.2))
    n = max(1, min(8, os.cpu_count() or 1, len(order)))
    imp, nf, np_ = imports(src, pid)
    results = []
    with mp.get_context("fork").Pool(n, _init, (src, tier)) as pool:
        for r in pool.imap_unordered(_work, order, chunksize=1):
            results.append(r)
    results = settle(byname, results)
    changed = None
    found, stats = [], {"decided": 0, "undecided": 0, "obligations": 0, "callsites": 0}
    fns, undecided, known, errors, own = set(), [], [], [], [0, 0]
    for name, out, st, kn, er, secs, reach in results:
        p = byname[name]
        errors += er
        fns.update(map(tuple, st["functions"]))
        for k in stats:
            stats[k] += st[k]
        undecided += st["undecided_list"]
        known += [k for k, _ in kn if True]
        if pid in p.props:
            own[0] += st["decided"]
            own[1] += st["undecided"]
        for asp, verdict, text, site in out:
            if verdict == DIFF and relevant(pid, p, asp):
                if changed is None:
                    changed = changed_functions(src)
                found.append((name, asp, text, site, [c for c in changed if c in set(
                    map(reach_key, reach))]))
    for text, site in imp:
        found.append(("import", "interface", text, site, []))
    wall = time.time() - t0
    entries = known_entries()
    shown = set()
    for k in known:
        if k not in entries:
            found.append((k, "known", "deviation %s is not listed in known-findings.txt" % k,
                          None, []))
        elif entries[k][0] == pid and k not in shown:
            shown.add(k)
            print("KNOWN-FINDING: property=%s %s: %s" % (pid, k, entries[k][1]))
    write_evidence(pid, tier, seed, wall, todo, results, stats, fns, undecided, found, shown,
                   nf, np_, src)
    print("%s: %d probes, %d functions analysed, %d call sites resolved, %d obligations; "
          "%d probes decided, %d undecided; %.1f s" % (
              pid, len(results), len(fns), stats["callsites"], stats["obligations"],
              stats["decided"], stats["undecided"], wall))
    for u in undecided[:10]:
        print("  undecided: " + u[:200])
    if errors:
        print("ERROR: reference not analysable: " + "; ".join(errors[:5]))
        return 3
    if found:
        rp = write_replay(pid, found, byname)
        for f in found[:6]:
            print("  %s [%s] %s%s%s" % (f[0], f[1], f[2][:400], " at " + f[3] if f[3] else "",
                                       " via changed " + ", ".join(f[4][:4]) if f[4] else ""))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if pid not in CROSS and own[0] == 0:
        print("nothing could be decided for %s" % pid)
    return 0


def settle(byname, results):
    """Probes of private helpers only count when the helper still has the same interface and
    the public behaviour built on it was not shown unchanged."""
    verdict = {}
    for r in results:
        verdict[r[0]] = "same" if not r[1] and not r[2]["undecided"] else "open"
    out = []
    for r in results:
        cover = byname[r[0]].opts.get("helper")
        if cover and r[1] and (all(verdict.get(c) == "same" for c in cover) or any(
                o[0] == "defect" for o in r[1])):
            st = dict(r[2])
            if verdict.get(cover[0]) != "same":
                st["undecided"] = 1
                st["decided"] = 0
                st["undecided_list"] = [r[0] + ": private helper with another interface"]
            r = (r[0], [], st) + tuple(r[3:])
        out.append(r)
    return out


def reach_key(x):
    f, q = x
    k = f.find("/modopt/")
    return (f[k + 1:] if k >= 0 else f) + "::" + q


def changed_functions(src):
    s = check.Session(src)
    out = []
    for k, line in s.locate(None).items():
        rel, q = k.split("::")
        out.append("%s::%s" % (rel, q))
    return out


def write_replay(pid, found, byname):
    d = os.path.join(EVID, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, pid + ".txt")
    with open(path, "w") as fh:
        fh.write("Property %s: constructs of the current source that break it\n\n" % pid)
        for name, asp, text, site, ch in found:
            fh.write("== %s [%s]\n" % (name, asp))
            if site:
                fh.write("   at %s\n" % site)
            if ch:
                fh.write("   changed functions on the path: %s\n" % ", ".join(ch))
            fh.write("   %s\n" % text)
            if name in byname:
                fh.write("   client program analysed:\n")
                for l in ast.unparse(byname[name].node).splitlines():
                    fh.write("      %s\n" % l)
            fh.write("\n")
    return path


def write_evidence(pid, tier, seed, wall, todo, results, stats, fns, undecided, found, shown,
                   nf, np_, src):
    os.makedirs(EVID, exist_ok=True)
    per = []
    for name, out, st, kn, er, secs, reach in sorted(results):
        per.append({"probe": name, "functions": len(st["functions"]),
                    "obligations": st["obligations"],
                    "verdict": "violated" if any(o[1] == DIFF for o in out) else
                    "undecided" if st["undecided"] else "equal", "seconds": round(secs, 2)})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": (
                "Static analysis of %s (parsed, never imported or run). Each probe is a client "
                "program over symbolic arguments; both the current source and the "
                "specification are abstractly interpreted to gated value graphs (joins at "
                "control-flow merges, loop summaries, alias-tracking heap) covering results, "
                "exceptions, effects, writes to foreign memory and internal errors, and the "
                "graphs are compared by algebraic normalisation. A probe is decided when every "
                "leaf of its outcome was shown equal or different; the remainder is listed as "
                "undecided." % src),
            "probes": len(results),
            "probes_decided": stats["decided"], "probes_undecided": stats["undecided"],
            "outcome_leaves_compared": stats["obligations"],
            "functions_analysed": len(fns), "call_sites_resolved": stats["callsites"],
            "function_names": sorted(reach_key(f) for f in fns),
            "signatures_compared": nf, "parameters_compared": np_,
            "undecided": undecided, "known_findings": sorted(shown), "per_probe": per,
        },
        "assumptions": [
            "numpy, scipy, pywt and other external functions satisfy the algebraic laws listed "
            "in DESIGN.md; arithmetic is over the reals (rounding is not modelled)",
            "user-supplied operators and callables are deterministic functions of their "
            "arguments unless the probe gives them effects",
        ],
        "wall_s": round(wall, 2), "violations": len(found),
    }
    with open(os.path.join(EVID, pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)


if __name__ == "__main__":
    os.chdir(HERE)
    sys.exit(main(sys.argv[1:]))
