#!/usr/bin/env python3
"""matrix.py [--own] [-j N] [bug...]: run the checks against planted bugs, in scratch copies of /verif and /repo.
--own: only the check of the bug's own property.  Results are appended to /tmp/mx/results.json.  Not used by any check."""
import json, os, subprocess, sys, shutil, time
from concurrent.futures import ThreadPoolExecutor
import queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
own = '--own' in args
j = int(args[args.index('-j') + 1]) if '-j' in args else 3
checks = args[args.index('-c') + 1].split(',') if '-c' in args else None
seed = args[args.index('-s') + 1] if '-s' in args else '1'
skip = set()
for o in ('-j', '-c', '-s'):
    if o in args: skip |= {args.index(o), args.index(o) + 1}
bugs = [a for i, a in enumerate(args) if i not in skip and not a.startswith('-')] or sorted(os.listdir(V + '/seeded'))
W = '/tmp/mx'
os.makedirs(W, exist_ok=True)
slots = queue.Queue()
for i in range(j):
    d = '%s/%d' % (W, i)
    os.makedirs(d, exist_ok=True)
    subprocess.run('rsync -a --delete --exclude seeded --exclude evidence %s/ %s/verif/ 2>/dev/null || (mkdir -p %s/verif && cp -a %s/. %s/verif/)' % (V, d, d, V, d), shell=True)
    subprocess.run('rm -rf %s/repo; git clone -q /repo %s/repo' % (d, d), shell=True)
    slots.put(d)
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
R = W + '/results.json'
res = json.load(open(R)) if os.path.exists(R) else {}

def run(b):
    d = slots.get()
    try:
        repo = d + '/repo'
        subprocess.run('git checkout -q -- . && git clean -qfd -e target', shell=True, cwd=repo)
        meta = json.load(open('%s/seeded/%s/meta.json' % (V, b)))
        p = subprocess.run(['git', 'apply', '%s/seeded/%s/patch.diff' % (V, b)], cwd=repo)
        if p.returncode: print(b, 'does not apply'); return
        out = {}
        for c in checks or ([meta['property']] if own else props):
            t = time.time()
            e = dict(os.environ, VERIF_REPO=repo, VERIF_SEED=seed, VERIF_TIER='quick')
            p = subprocess.run(['python3', 'check.py', c, 'quick'], cwd=d + '/verif', env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
            out[c] = p.returncode
            if p.returncode != 0 and (p.returncode != 1 or 'VIOLATION property=' + c not in p.stdout) or c == meta['property']:
                open('%s/%s.%s.log' % (W, b, c), 'w').write(p.stdout)
        res.setdefault(b, {}).update(out)
        json.dump(res, open(R, 'w'), indent=1)
        print('%-40s own %s: %s   caught by %s%s' % (b, meta['property'], {0: 'MISSED', 1: 'caught'}.get(out.get(meta['property']), out.get(meta['property'])),
              ' '.join(c for c in out if out[c] == 1), ''.join(' %s=%s' % (c, r) for c, r in out.items() if r not in (0, 1))), flush=True)
    finally:
        subprocess.run('git checkout -q -- .', shell=True, cwd=d + '/repo')
        slots.put(d)

with ThreadPoolExecutor(j) as ex:
    list(ex.map(run, bugs))
