#!/usr/bin/env python3
"""Which checks catch which planted bug (analysis of patched scratch copies of /repo/src).

usage: runseeds.py [-v] [id ...]"""
import json, os, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import allcheck
from sa import main as m
SEED = os.path.join(m.HERE, 'seeded')


def main():
    ids = [a for a in sys.argv[1:] if a != '-v'] or sorted(os.listdir(SEED))
    table = {}
    for i in ids:
        d = os.path.join(SEED, i)
        prop = json.load(open(d + '/meta.json'))['property']
        tmp = tempfile.mkdtemp(prefix='rs_', dir='/tmp')
        try:
            shutil.copytree('/repo/src', tmp + '/src', ignore=shutil.ignore_patterns('__pycache__'))
            subprocess.run(['patch', '-s', '-p1', '-i', d + '/patch.diff'], cwd=tmp, check=True)
            t = time.time()
            found, und, secs = allcheck.run(tmp + '/src')
        finally:
            shutil.rmtree(tmp)
        own = sorted(found) and prop in found
        table[i] = (prop, sorted(found), len(und))
        print(('caught ' if own else 'MISSED ') + i, prop, 'by', ' '.join(sorted(found)), 'undecided', len(und), '%.0fs' % (time.time() - t), flush=True)
        if '-v' in sys.argv or not own:
            for q in sorted(found)[:3]:
                for f in found[q][:2]:
                    print('     ', q, f[0], f[1], f[2][:300])
            for u in und[:4]:
                print('      U', str(u)[:300])
    json.dump(table, open('/verif/tools/seedtable.json', 'w'))


main()
