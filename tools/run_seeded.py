#!/usr/bin/env python3
"""Applies each planted bug (/verif/seeded) to a copy of /repo and runs the check of its property on it; writes which sub-check
caught it to tools/seeded_results.json (used by gen_design.py).  No check reads this or /verif/seeded."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(HERE, 'tools', 'seeded_results.json')


def one(bug):
    d = os.path.join(HERE, 'seeded', bug)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    top = tempfile.mkdtemp(prefix='seeded')
    try:
        w = os.path.join(top, 'repo')
        subprocess.check_call(['cp', '-a', '/repo', w])
        if subprocess.call(['git', '-C', w, 'apply', os.path.join(d, 'patch.diff')]):
            return bug, dict(property=meta['property'], result='does not apply')
        v = os.path.join(top, 'verif')      # evidence and replay files of its own
        os.mkdir(v)
        for n in ('check.sh', 'known_findings.json', 'properties.jsonl', 'MANIFEST.json'):
            shutil.copy(os.path.join(HERE, n), v)
        shutil.copytree(os.path.join(HERE, 'pbt'), os.path.join(v, 'pbt'), ignore=shutil.ignore_patterns('__pycache__'))
        p = subprocess.run(['./check.sh', meta['property']], cwd=v, env=dict(os.environ, EBMLITE_REPO=w), text=True,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        m = re.search(r'^%s/([\w-]+):' % meta['property'], p.stdout, re.M)
        return bug, dict(property=meta['property'], result={0: 'missed', 1: 'caught'}.get(p.returncode, 'exit %d' % p.returncode),
                         sub=m.group(1) if m else '')
    finally:
        shutil.rmtree(top, ignore_errors=True)


if __name__ == '__main__':
    bugs = sys.argv[1:] or sorted(os.listdir(os.path.join(HERE, 'seeded')))
    res = json.load(open(OUT)) if os.path.exists(OUT) else {}
    with ThreadPoolExecutor(3) as ex:
        for b, r in ex.map(one, bugs):
            res[b] = r
            if r['result'] != 'caught':
                print(b, r, flush=True)
    res = {b: r for b, r in sorted(res.items()) if os.path.isdir(os.path.join(HERE, 'seeded', b))}
    json.dump(res, open(OUT, 'w'), indent=1)
    print(len(res), 'bugs;', sum(r['result'] == 'caught' for r in res.values()), 'caught')
