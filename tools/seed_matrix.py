#!/usr/bin/env python3
"""Runs every planted bug of /verif/seeded against the check of its property
(in a scratch copy of /repo) and rewrites the table in DESIGN.md.
usage: seed_matrix.py [ids...]"""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(tempfile.gettempdir(), 'seed_matrix.json')


def one(i):
    d = os.path.join(ROOT, 'seeded', i)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    tmp = tempfile.mkdtemp(prefix='seed_')
    try:
        sc = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', sc, symlinks=True)
        subprocess.run(['git', '-C', sc, 'apply', os.path.join(d, 'patch.diff')], check=True)
        env = dict(os.environ, VERIF_REPO=sc, VERIF_SEED='1', VERIF_TIER='quick', VERIF_PROCS='4')
        p = subprocess.run(['./check.sh', meta['property'], 'quick'], cwd=ROOT, env=env, capture_output=True, text=True)
        m = re.search(r'^--- \S+ (\S+)', p.stdout, re.M)
        return i, {'property': meta['property'], 'needs': meta['needs'], 'rc': p.returncode, 'sig': m.group(1) if m else ''}
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    ids = sys.argv[1:] or sorted(os.listdir(os.path.join(ROOT, 'seeded')))
    res = json.load(open(CACHE)) if sys.argv[1:] and os.path.exists(CACHE) else {}
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        for i, r in ex.map(one, ids):
            res[i] = r
            print(i, r['rc'], r['sig'], flush=True)
    json.dump(res, open(CACHE, 'w'))
    rows = ['| planted bug | needs | caught by | first signature |', '|---|---|---|---|']
    for i in sorted(res):
        if not os.path.isdir(os.path.join(ROOT, 'seeded', i)):
            continue
        r = res[i]
        rows.append('| %s | %s | %s | %s |' % (i, r['needs'].replace('|', '/'), r['property'] if r['rc'] == 1 else 'MISSED (%d)' % r['rc'], r['sig'].replace('|', '/')))
    path = os.path.join(ROOT, 'DESIGN.md')
    s = open(path).read()
    a, b = '<!-- seeds -->', '<!-- /seeds -->'
    if a in s:
        s = s[:s.index(a) + len(a)] + '\n' + '\n'.join(rows) + '\n' + s[s.index(b):]
        open(path, 'w').write(s)


main()
