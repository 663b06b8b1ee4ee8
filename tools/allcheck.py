"""development: all probes once against a source tree; findings per property.
usage: allcheck.py SRC [-q] [-u]"""
import multiprocessing as mp, os, sys, json, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import main as m, check, runner


def run(src, tier="quick", pat="", n=8):
    probes = {p.name: p for _, p in runner.read_probes(check.PROBES)
              if pat in p.name and m.wanted("C09", p, tier)}
    try:
        slow = json.load(open(os.path.join(m.HERE, "spec", "slow.json")))
    except OSError:
        slow = {}
    order = sorted(probes, key=lambda k: -slow.get(k, 0.2))
    props = sorted({q for p in probes.values() for q in p.props} | set(m.CROSS))
    found, und, secs = {}, [], []
    with mp.get_context("fork").Pool(n, m._init, (src, tier)) as pool:
        res = list(pool.imap_unordered(m._work, order, chunksize=1))
        for name, out, st, kn, er, sec, reach in m.settle(probes, res):
            secs.append((sec, name))
            und += st["undecided_list"]
            for asp, v, text, site in out:
                if v == m.DIFF:
                    for q in props:
                        if m.relevant(q, probes[name], asp):
                            found.setdefault(q, []).append((name, asp, text, site))
    for q in props:
        bad, _, _ = m.imports(src, q) if q in ("C20", "C21", "C22", "C23", "C24", "C25") else ([], 0, 0)
        for t, s in bad:
            found.setdefault(q, []).append(("import", "interface", t, s))
    return found, und, sorted(secs)[::-1]


if __name__ == "__main__":
    src = sys.argv[1]
    t = time.time()
    pat = sys.argv[sys.argv.index("-p") + 1] if "-p" in sys.argv else ""
    found, und, secs = run(src, pat=pat)
    seen = set()
    for q in sorted(found):
        print(q, len(found[q]), "findings")
        if "-q" not in sys.argv:
            for name, asp, text, site in found[q]:
                if (name, asp) in seen:
                    continue
                seen.add((name, asp))
                print("   ", name, asp, text[:int(os.environ.get("W", "300"))], site or "")
    print("undecided", len(und), "time %.1f" % (time.time() - t), "slowest", [(round(a), b) for a, b in secs[:3]])
    if "-u" in sys.argv:
        und = sorted(und)[:int(os.environ.get("U", "12"))]
        for u in und:
            print("  U", u[:int(os.environ.get("W", "300"))])
