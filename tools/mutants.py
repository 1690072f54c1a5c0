#!/usr/bin/env python3
"""mutants.py list | filter [-j N] | run [-j N] [-c C01,...]: small mechanical changes of /repo, those that the tests do not notice,
and which of these the checks notice.  Everything below /tmp/mut.  Not used by any check; it shows where the checks are blind."""
import json, os, re, subprocess, sys, queue, random
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/mut'
os.makedirs(W, exist_ok=True)
RULES = [
    (r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'), (r' < ', ' <= '), (r' > ', ' >= '), (r' >= ', ' > '), (r' <= ', ' < '),
    (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'is_some\(\)', 'is_none()'), (r'is_none\(\)', 'is_some()'),
    (r'!(?=[a-z_.]+(\(|\b))(?<![a-z]!)', ''), (r'\bif (?!let)(.+) \{$', r'if !(\1) {'), (r'\bif (?!let)(.+) \{$', r'if true || (\1) {'), (r'\bif (?!let)(.+) \{$', r'if false && (\1) {'),
    (r'\bcontinue;', 'break;'), (r'\bbreak;', ''), (r'\.trim\(\)', ''), (r'\.rev\(\)', ''), (r'\.filter\(.*\)$', ''), (r' \+ 1\b', ''), (r'\b0\b', '1'), (r'\b1\b', '2'), (r'\b1\b', '0'),
    (r'unwrap_or_default\(\)', 'unwrap_or_default()'), (r'\.first\(\)', '.last()'), (r'\.last\(\)', '.first()'), (r'\.find\(', '.filter('), (r'\.any\(', '.all('), (r'\.all\(', '.any('),
    (r'Some\(([a-z_.]+)\)(?! =>| =)', 'None'), (r'\.or\(.*?\)', ''), (r'\.cloned\(\)', '.cloned()'), (r'\.or_else\(.*\)$', ''), (r'\.unwrap_or\((.*?)\)', '.unwrap()'),
    (r'to_snake_case', 'to_pascal_case'), (r'to_pascal_case', 'to_snake_case'), (r'to_lowercase\(\)', 'to_string()'),
    (r'\.push_back\(', '.push_front('), (r'\.push_front\(', '.push_back('), (r'\.pop_front\(', '.pop_back('),
    (r'^(\s*)(?!let |return|use |pub |#|//|\}|\)|mod |type |const |static )([a-z_.]+.*;)$', r'\1'),       # a statement
    (r'^(\s*)(.*\bwriter\.write.*;)$', r'\1'), (r'\?;$', ';'), (r'^(\s*)(ctx\.|self\.)(.*;)$', r'\1'),
    (r'^(\s*)return Err\(.*\);$', r'\1'), (r'"([a-z][a-zA-Z]+)"', r'"\1x"'), (r'Optional', 'Required'), (r'min_occurs', 'max_occurs'), (r'max_occurs', 'min_occurs'),
    (r'\bbase\b', 'base'), (r'\.skip\((\d+)\)', ''), (r'saturating_', 'wrapping_'), (r'\.take\(\)', '.clone()'), (r'\.insert\((.*)\);', ';'), (r'\.extend\((.*)\);', ';'),
    (r'^(\s*)(\S.*) => (.*),$', 'ARM'),
    (r'=> (Some|Ok)\((.+)\),$', r'=> None,'), (r'\bu64\b', 'u32'), (r'\bi64\b', 'i32'), (r'\bf32\b', 'f64'), (r'\busize\b', 'u8'), (r"'/'", "'\\\\\\\\'"), (r'Vec<', 'Vec<'),
    (r'\.is_empty\(\)', '.is_empty() == false'), (r'Namespace::None', 'Namespace::Id(1)'), (r'unqualified', 'qualified'), (r'is_qualified', '!is_qualified'),
]


def sources():
    out = subprocess.run('git ls-files "*/src/*.rs" "*/src/**/*.rs"', shell=True, cwd='/repo', capture_output=True, text=True).stdout.split()
    return sorted(set(out))


def mutants():
    out, seen = [], set()
    for f in sources():
        text = open('/repo/' + f).read()
        cut = text.find('#[cfg(test)]')
        lines = text.split('\n')
        pos = 0
        for n, l in enumerate(lines):
            if cut >= 0 and pos >= cut: break
            pos += len(l) + 1
            if l.strip().startswith(('//', '#[', 'use ', '//!')): continue
            for pat, rep in RULES:
                for m in re.finditer(pat, l):
                    if rep == 'ARM':
                        # drop the arm: only if there is a wildcard later; try it, the compiler decides
                        new = ''
                    else:
                        try: new = l[:m.start()] + m.expand(rep) + l[m.end():]
                        except re.error: continue
                    if new == l or (f, n, new) in seen: continue
                    seen.add((f, n, new))
                    out.append(dict(id='%s:%d:%d' % (f, n + 1, len(out)), file=f, line=n, old=l, new=new))
    return out


def sh(cmd, cwd=None, env=None, timeout=600):
    e = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', **(env or {}))
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors='replace')
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, ''


def slots(j, name):
    q = queue.Queue()
    for i in range(j):
        d = '%s/%s%d' % (W, name, i)
        sh('mkdir -p %s && rm -rf %s/repo && git clone -q /repo %s/repo' % (d, d, d))
        if name == 'c':
            sh('rsync -a --delete --exclude seeded --exclude evidence %s/ %s/verif/ || (rm -rf %s/verif; mkdir -p %s/verif && cp -a %s/. %s/verif/)' % (V, d, d, d, V, d))
        q.put(d)
    return q


def apply(d, m):
    p = '%s/repo/%s' % (d, m['file'])
    lines = open(p).read().split('\n')
    if lines[m['line']] != m['old']: return False
    lines[m['line']] = m['new']
    open(p, 'w').write('\n'.join(lines))
    return True


def load(n): return json.load(open(W + '/' + n)) if os.path.exists(W + '/' + n) else {}
def save(n, x): json.dump(x, open(W + '/' + n + '.tmp', 'w'), indent=1); os.replace(W + '/' + n + '.tmp', W + '/' + n)


def key(m): return '%s|%d|%s' % (m['file'], m['line'], m['new'].strip()) + '|' + m['old'].strip()


args = sys.argv[1:]
j = int(args[args.index('-j') + 1]) if '-j' in args else 3
if args[0] == 'list':
    ms = mutants(); print(len(ms))
    for m in ms[:3000:40]: print(m['id'], m['old'].strip()[:60], '->', m['new'].strip()[:60])
elif args[0] == 'filter':
    ms = mutants(); done = load('filter.json'); q = slots(j, 'f')
    random.Random(1).shuffle(ms)
    def one(m):
        k = key(m)
        if k in done: return
        d = q.get()
        try:
            sh('git checkout -q -- .', d + '/repo')
            if not apply(d, m): done[k] = 'stale'; return
            env = dict(CARGO_TARGET_DIR=d + '/target', CARGO_PROFILE_DEV_DEBUG='0', CARGO_INCREMENTAL='1')
            rc, o = sh('cargo check --offline -q -p xsd', d + '/repo', env)
            if rc: done[k] = 'compile'; return
            sh('rm -rf %s/target/debug/.fingerprint/xsd-*' % d)
            rc, o = sh('timeout 120 cargo test --workspace --no-fail-fast --offline -- --test-threads 4', d + '/repo', env)
            passed = len(re.findall(r'^test .* \.\.\. ok$', o, re.M))
            done[k] = 'survives' if rc == 0 and passed >= 55 else 'tests'
        finally:
            q.put(d)
            if len(done) % 20 == 0: save('filter.json', done)
    with ThreadPoolExecutor(j) as ex: list(ex.map(one, ms))
    save('filter.json', done)
    from collections import Counter
    print(Counter(done.values()))
elif args[0] == 'run':
    ms = {key(m): m for m in mutants()}; f = load('filter.json'); res = load('run.json'); q = slots(j, 'c')
    todo = [ms[k] for k in sorted(f) if f[k] == 'survives' and k in ms and (k not in res or '--missed' in args and res[k] == 'MISSED' or '=' in str(res[k]))]
    random.Random(2).shuffle(todo)
    todo = [m for m in todo if not re.search(r'prevent_unvisited|=> LiteralType|range, |utils.rs', m['old'] + m['file']) and 'restrictions.push' not in m['old'] and not ('writer' in m['old'] and m['old'].endswith('?;') and m['new'].endswith(');')) and m['old'].strip() != '})?;' and 'with_capacity' not in m['old'] and not re.search(r'^\s*[A-Z]\w+ => "', m['old'])]
    if '--each' not in args:        # one per line
        per = {}
        for m in todo: per.setdefault((m['file'], m['line']), m)
        had = {tuple(k.split('|')[:2]) for k in res} if '--missed' not in args else set()
        todo = [m for (f, l), m in per.items() if (f, str(l)) not in had and not ('utils.rs' in f and l % 3)]
    print(len(todo), flush=True)
    order = args[args.index('-c') + 1].split(',') if '-c' in args else 'C06 C07 C13 C11 C19 C09 C04 C17 C18 C16 C10 C20 C05 C14 C12 C02 C03 C15 C01 C08 C21'.split()
    def one(m):
        d = q.get(); k = key(m)
        try:
            sh('git checkout -q -- .', d + '/repo')
            if not apply(d, m): return
            r = None
            mine = order
            for pat, first in (('decode.rs', 'C06'), ('xsd/src/lib.rs', 'C07'), ('literal_type', 'C11 C02'), ('xsd-derive', 'C19'), ('src/ast/', 'C13 C17 C04 C02 C03 C18 C14'),
                               ('src/xsd/', 'C09 C16 C18 C17 C20')):
                if '-c' not in args and pat in m['file']:
                    mine = first.split() + [c for c in order if c not in first.split()]
                    if '--first' in args: mine = (first.split() + [c for c in 'C02 C14 C12'.split() if c not in first.split()])
                    break
            for c in mine:
                rc, o = sh('timeout 600 python3 check.py %s quick' % c, d + '/verif', dict(VERIF_REPO=d + '/repo', VERIF_SEED='1', VERIF_TIER='quick'), 700)
                if rc == 1: r = c; break
                if rc != 0: r = '%s=%d' % (c, rc); open('%s/err.%s.log' % (W, c), 'a').write(k + '\n' + o[-1500:] + '\n'); 
            res[k] = r or 'MISSED'
            print(res[k], '|', k[:260], flush=True)
            save('run.json', res)
        finally:
            q.put(d)
    with ThreadPoolExecutor(j) as ex: list(ex.map(one, todo))
