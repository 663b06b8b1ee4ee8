#!/usr/bin/env python3
"""Build and confirm the planted bugs described in tools/seeds_*.py.

usage: mkseed.py [-n] [id ...]     (-n: only write, do not confirm)

Each seed is written to seeded/<id>/ and confirmed in a scratch copy of /repo:
the patch applies, the project's tests pass with it, the demonstration exits 0
without the patch and nonzero with it.  Nothing is kept for a seed that fails.
"""
import difflib, glob, importlib.util, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), 'seeded')
REPO = '/repo'
PY = '/opt/venv/bin/python'
PRELUDE = '''import sys, os, io, contextlib
import numpy as np


def check(cond, msg):
    if not cond:
        print("FAILED:", msg)
        sys.exit(1)


def close(a, b, tol=1e-8):
    return np.allclose(np.asarray(a), np.asarray(b), rtol=tol, atol=tol)


'''
SH = '''#!/bin/bash
# run with cwd = repository root, after the build
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD/src" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$here/demo.py"
'''


def seeds():
    out = {}
    for f in sorted(glob.glob(os.path.join(HERE, 'seeds_*.py'))):
        ns = {}

        def S(id, prop, edits, needs, breaks, demo):
            assert id not in out, id
            out[id] = dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo)
        ns['S'] = S
        exec(compile(open(f).read(), f, 'exec'), ns)
    return out


def patch_of(s):
    byfile = {}
    for f, old, new in s['edits']:
        p = 'src/modopt/' + f
        txt = byfile.get(p) or open(os.path.join(REPO, p)).read()
        n = txt.count(old)
        if n != 1:
            raise ValueError(f"{s['id']}: {n} occurrences in {f} of {old!r}")
        byfile[p] = txt.replace(old, new)
    d = ''
    for p, txt in byfile.items():
        a = open(os.path.join(REPO, p)).read().splitlines(True)
        d += ''.join(difflib.unified_diff(a, txt.splitlines(True), 'a/' + p, 'b/' + p))
    return d


BASE = '9a1ba4d'


def original(s):
    """Lines removed by the patch that are not lines of the original repository."""
    bad = []
    cache = {}
    some = False
    for f, old, new in s['edits']:
        p = 'src/modopt/' + f
        txt = open(os.path.join(REPO, p)).read()
        if p not in cache:
            o = subprocess.run(['git', '-C', REPO, 'blame', '-s', '--abbrev=7', p], stdout=subprocess.PIPE).stdout.decode()
            cache[p] = [l.split()[0].lstrip('^')[:7] for l in o.splitlines()]
        base = subprocess.run(['git', '-C', REPO, 'rev-list', BASE], stdout=subprocess.PIPE).stdout.decode().split()
        base = {b[:7] for b in base}
        i = txt.index(old)
        l0 = txt[:i].count('\n')
        ol, nl = old.splitlines(), new.splitlines()
        for tag, i1, i2, j1, j2 in difflib.SequenceMatcher(None, ol, nl, False).get_opcodes():
            if tag in ('replace', 'delete'):
                for k in range(i1, i2):
                    if cache[p][l0 + k] in base:
                        some = True
                    elif ol[k].strip():
                        bad.append(ol[k].strip())
    return bad, some


def run(cmd, cwd, env=None, timeout=300):
    e = dict(os.environ)
    e.update(env or {})
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return r.returncode, r.stdout.decode(errors='replace')


def tests(tree):
    xml = os.path.join(tree, '_j.xml')
    run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-p', 'no:sugar', '--no-cov', '--timeout=300',
         '--continue-on-collection-errors', '--doctest-modules', '--ignore=src/modopt/signal/validation.py',
         '-o', 'junit_family=xunit2', '--junitxml=' + xml, 'tests', 'src'],
        tree, {'PYTHONPATH': tree + '/src', 'MPLBACKEND': 'Agg', 'OMP_NUM_THREADS': '1',
               'OPENBLAS_NUM_THREADS': '1', 'CUDA_VISIBLE_DEVICES': ''}, 900)
    import xml.etree.ElementTree as ET
    ok = set()
    for tc in ET.parse(xml).getroot().iter('testcase'):
        if not any(c.tag in ('failure', 'error', 'skipped') for c in tc):
            ok.add(tc.get('classname') + '::' + tc.get('name'))
    os.remove(xml)
    return ok


def confirm(s, base_ok, write_only=False):
    d = os.path.join(OUT, s['id'])
    try:
        diff = patch_of(s)
    except ValueError as e:
        return f'BAD  {e}'
    bad, some = original(s)
    if bad or not some:
        return f"BAD  {s['id']}: not original lines {bad} (changes original lines: {some})"
    tmp = tempfile.mkdtemp(prefix='seed_', dir='/tmp')
    try:
        tree = os.path.join(tmp, 'repo')
        shutil.copytree(REPO, tree, ignore=shutil.ignore_patterns('.git', '__pycache__', 'build'), symlinks=True)
        sd = os.path.join(tmp, 'demo')
        os.makedirs(sd)
        open(sd + '/patch.diff', 'w').write(diff)
        open(sd + '/demo.py', 'w').write(PRELUDE + s['demo'].lstrip('\n'))
        open(sd + '/demo.sh', 'w').write(SH)
        os.chmod(sd + '/demo.sh', 0o755)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(sd + '/meta.json', 'w'), indent=1)
        if not write_only:
            rc, o = run(['bash', sd + '/demo.sh'], tree)
            if rc:
                return f"BAD  {s['id']}: demo fails on the unchanged tree\n{o[-1500:]}"
            rc, o = run(['patch', '-p1', '-i', sd + '/patch.diff'], tree)
            if rc:
                return f"BAD  {s['id']}: patch\n{o}"
            rc, o = run(['bash', sd + '/demo.sh'], tree)
            if rc == 0:
                return f"BAD  {s['id']}: demo passes with the patch\n{o[-800:]}"
            if 'FAILED:' not in o:
                return f"BAD  {s['id']}: demo crashed\n{o[-1500:]}"
            got = tests(tree)
            if base_ok - got:
                return f"BAD  {s['id']}: tests fail: {sorted(base_ok - got)[:4]}"
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(sd, d)
        return f"ok   {s['id']}"
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    args = sys.argv[1:]
    w = '-n' in args
    ids = [a for a in args if a != '-n']
    all_ = seeds()
    if not ids:
        ids = [i for i in all_ if not os.path.isdir(os.path.join(OUT, i))]
    elif ids == ['all']:
        ids = list(all_)
    base_ok = set()
    if not w:
        tmp = tempfile.mkdtemp(prefix='seed_', dir='/tmp')
        shutil.copytree(REPO, tmp + '/repo', ignore=shutil.ignore_patterns('.git', '__pycache__', 'build'), symlinks=True)
        base_ok = tests(tmp + '/repo') & set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        shutil.rmtree(tmp)
        print('base tests', len(base_ok))
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(lambda i: confirm(all_[i], base_ok, w), ids):
            print(r, flush=True)


if __name__ == '__main__':
    main()
