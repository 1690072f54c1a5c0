"""C21: calls do not influence each other, whatever ran before or runs at the same time."""
import os
import shutil
import subprocess
import docs
import gen
import harness
import model
import mutate
import pipe
import c_api
import c_front

TSAN = 'x86_64-unknown-linux-gnu'


def documents(c, ss, rnd, per):
    cases = []
    for i, s in enumerate(ss):
        r = c.rng('docs', rnd, i)
        for k in range(per):
            x, v = pipe.instance(s, r, huge=.05)
            kind = 'valid'
            if k % 3 == 1:
                kind, do, exp = r.choice(mutate.candidates(x, r))
                do()
            d = docs.Noisy(r, r.choice([0, .3])).doc(x)
            if k % 7 == 6:
                d = mutate.malform(r, d) or d
                kind = 'malformed'
            cases.append((s.mod + ':Root', d, s, kind))
    return cases


def strip(q):
    return {k: v for k, v in (q or {}).items() if k not in ('id', 'peak', 'allocs', 'mem')}


def history(c, label, run, cases, rnd, replay):
    """The same calls in several orders, in several processes."""
    base = run(cases)
    for n in range(c.pick(2, 4)):
        r = c.rng('order', label, rnd, n)
        order = list(range(len(cases)))
        r.shuffle(order)
        if n == 1:
            order = [i for i in order for _ in range(2)]        # every call twice in a row
        got = run([cases[i] for i in order])
        for i, q in zip(order, got):
            if q is None or base[i] is None:
                continue
            c.seen(label, n, i, rnd)
            bad = pipe.crashed(q)
            if not bad and strip(q) != strip(base[i]):
                bad = 'the result depends on what ran before: %s / %s' % (str(strip(base[i]))[:500], str(strip(q))[:500])
            if bad:
                c.violate('%s: %s' % (label, bad), replay(i, q))
        c.count(label + ' in another order', len(order))
    return base


def threads(c, label, binaries, threads, rounds, env=None, replay=None, timeout=400):
    for binary, cases in binaries:
        if not cases:
            continue
        e = dict(os.environ)
        e.update(RT_THREADS=str(threads), RT_ROUNDS=str(rounds))
        e.update(env or {})
        data = b''.join(('%d %s %d\n' % (i, k[0], len(k[1].encode()))).encode() + k[1].encode() for i, k in enumerate(cases))
        try:
            p = subprocess.run([binary], input=data, capture_output=True, timeout=timeout, env=e, preexec_fn=harness.limits)
        except subprocess.TimeoutExpired:
            raise harness.Inconclusive('%s: no end within %d s' % (label, timeout))
        summary = None
        for line in p.stdout.decode('utf-8', 'replace').splitlines():
            if not line.startswith('{'):
                continue
            import json
            q = json.loads(line)
            if q['id'] == -1:
                summary = q
                continue
            c.violate('%s: on thread %s the result is %s instead of %s' % (label, q['thread'], q['got'][:500], q['expected'][:500]),
                      replay(cases[q['id']], q) if replay else dict(case=cases[q['id']][:2], result=q))
        err = p.stderr.decode('utf-8', 'replace')
        if 'ThreadSanitizer' in err:
            c.violate('%s: data race: %s' % (label, err[:1500]), dict(report=err[:20000]))
        elif summary is None:
            c.violate('%s: the process ended abnormally (%s): %s' % (label, p.returncode, err[-500:]), dict(cases=[k[:2] for k in cases[:50]]))
        if summary:
            c.evaluations += summary['calls']
            for i in range(len(cases)):
                c.distinct.add(('t', label, binary, i))
            c.count(label + ': calls on threads', summary['calls'])
            c.count(label + ': calls that overlapped others', summary['overlapping'])


def hammer(c, label, binaries, times, replay, prop_leaks=True, timeout=400):
    """Long histories: one call thousands of times in a row, then all the others again."""
    from concurrent.futures import ThreadPoolExecutor
    import json

    def one(bc):
        binary, cases = bc
        data = b''.join(('%d %s %d\n' % (i, k[0], len(k[1].encode()))).encode() + k[1].encode() for i, k in enumerate(cases))
        try:
            return subprocess.run([binary], input=data, capture_output=True, timeout=timeout, env=dict(os.environ, RT_HAMMER=str(times)),
                                  preexec_fn=harness.limits)
        except subprocess.TimeoutExpired:
            return None
    binaries = [x for x in binaries if x[1]]
    with ThreadPoolExecutor(harness.CPUS) as ex:
        results = list(ex.map(one, binaries))
    for (binary, cases), p in zip(binaries, results):
        if p is None:
            raise harness.Inconclusive('%s: no end within %d s' % (label, timeout))
        summary = None
        for line in p.stdout.decode('utf-8', 'replace').splitlines():
            if not line.startswith('{'):
                continue
            q = json.loads(line)
            if q['id'] == -1:
                summary = q
            elif 'leak' in q:
                if prop_leaks:
                    c.violate('%s: %s: %s' % (label, q['leak'], cases[q['id']][1][:600]), replay(cases[q['id']], q))
            else:
                a = cases[q['after']]
                c.violate('%s: after %d calls with %s\nthe result is %s\ninstead of %s' % (
                    label, times, a[1][:300], q['got'][:500], q['expected'][:500]), dict(replay(cases[q['id']], q), repeated=replay(a, None)))
        if summary is None:
            c.violate('%s: the process ended abnormally (%s): %s' % (label, p.returncode, p.stderr[-500:]), dict(cases=[k[:2] for k in cases[:50]]))
        else:
            c.evaluations += len(cases) ** 2
            for i in range(len(cases)):
                c.distinct.add(('h', label, binary, i))
            c.count(label + ': calls repeated', summary['calls'])
            c.count(label + ': observations compared after long histories', len(cases) ** 2)


def few(r, ks, n):
    """n short cases of as many kinds as possible"""
    ks = sorted(ks, key=lambda k: len(k[1]))[:max(n, len(ks) * 2 // 3)]
    out, kinds = [], set()
    r.shuffle(ks)
    for k in ks:
        if k[3] not in kinds:
            kinds.add(k[3])
            out.append(k)
    out += [k for k in ks if k not in out]
    return out[:n]


def split_by_binary(b, cases, triple=None):
    per = {}
    for k in cases:
        mod = k[0].split(':')[0]
        if mod in b.alive:
            per.setdefault(b.ws.bin(b.home[mod], triple), []).append(k)
    return sorted(per.items())


def send_sync(s, r):
    """compile time: every promised type can be shared between threads and outlives everything"""
    names = sorted({model.raw(d.name) for d in s.decls})
    return ' '.join(['const _: fn() = || { fn ok<T: Send + Sync + Unpin + std::panic::UnwindSafe + std::panic::RefUnwindSafe + \'static>() {}'] +
                    ['ok::<%s::%s>();' % (s.mod, n) for n in names] + ['};'])


def c21(c):
    c.distinct_features = set()
    for rnd in pipe.rounds(c, 1, 400):
        # the front end
        d = harness.Driver().build()
        front = []
        base = os.path.join(c_front.SCRATCH, 'c21')
        for i in range(c.pick(60, 300)):
            r = c.rng('front', rnd, i)
            s = gen.make(r, gen.Opts(**pipe.PROFILES[i % len(pipe.PROFILES)]))
            texts = model.render_xsd(s, r)
            if i % 4 == 3:
                p = r.choice(sorted(texts))
                inj = c_front.injections(texts[p], r)
                if inj:
                    texts = dict(texts)
                    texts[p] = r.choice(inj)[1]
            front.append(('file', os.path.join(c_front.write_files('c21/%d' % i, texts), 'main.xsd'), texts))
        freplay = lambda k, q: dict(op=k[0], input=k[1], files=k[2], result=q)
        history(c, 'code generation', lambda ks: d.run([k[:2] for k in ks]), front, rnd, lambda i, q: freplay(front[i], q))
        threads(c, 'code generation', [(d.ws.bin('d'), front)], c.pick(8, 16), c.pick(1, 2), replay=freplay, timeout=800)
        hammer(c, 'repeated code generation', [(d.ws.bin('d'), [front[i + n] for i in range(0, 24, 4)] + [k for k in front if len(k[2]) > 1][n:n + 2])
                                               for n in range(8)], c.pick(60, 300), freplay, prop_leaks=False)
        versions(c, d, rnd)
        shutil.rmtree(base, ignore_errors=True)
        b = harness.Batch('c21')
        ss = pipe.schemas(c, rnd, c.pick(80, 120), None, b, decorate=send_sync)
        pipe.build(c, b)
        c.count('types asserted Send + Sync', sum(len(s.decls) for s in ss))
        cases = documents(c, ss, rnd, 12)
        for k in cases:
            c.count('documents: ' + ('valid' if k[3] == 'valid' else 'faulty'))

        def replay(k, q):
            return dict(files=k[2].texts, type='Root', doc=k[1], result=q)
        history(c, 'decode and encode', lambda ks: b.run([k[:2] for k in ks]), cases, rnd, lambda i, q: replay(cases[i], q))
        threads(c, 'decode and encode', split_by_binary(b, cases), c.pick(8, 16), c.pick(2, 6), replay=replay)
        r = c.rng('hammer', rnd)
        hammer(c, 'repeated decoding', [(x, few(r, ks, c.pick(10, 16))) for x, ks in split_by_binary(b, cases)], c.pick(4000, 12000), replay, prop_leaks=False)
    if c.thorough:
        sanitized(c)
    pipe.finish(c)


def versions(c, d, rnd):
    """Files that change between two calls of one process: each call sees what is there, as a fresh process does."""
    cases, steps = [], []
    for i in range(c.pick(24, 100)):
        r = c.rng('versions', rnd, i)
        while True:
            s = gen.make(r, gen.Opts(**pipe.PROFILES[i % len(pipe.PROFILES)]))
            texts = model.render_xsd(s, r)
            if i % 2 == 0 or len(texts) > 1:
                break
        home = c_front.write_files('c21/v%d' % i, texts)
        main = os.path.join(home, 'main.xsd')
        p = 'main.xsd' if i % 2 == 0 else r.choice(sorted(q for q in texts if q != 'main.xsd'))
        other = [texts[p]]
        for q in r.sample(c_front.injections(texts[p], r), 2):
            other.append(q[1])
        other.append(texts[p].replace('name="', 'name="V', 1) if i % 2 == 0 else texts[p] + ' ')
        other.append(texts[p])
        # the same file may also be reached under another name
        case = [main]
        for t in other:
            case += [os.path.join(home, p), t]
        if any('\x01' in t for t in case):
            continue
        cases.append(('versions', '\x01'.join(case), texts, main, os.path.join(home, p), other))
    got = d.run([k[:2] for k in cases])
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(harness.CPUS) as ex:      # a process of its own for each version
        fresh = [q for qs in ex.map(lambda k: [d.run([('versions', '\x01'.join([k[3], k[4], t]))])[0] for t in k[5]], cases) for q in qs]
    n = 0
    for k, q in zip(cases, got):
        for i, t in enumerate(k[5]):
            f = fresh[n]
            n += 1
            if q is None or f is None:
                continue
            c.seen('versions', k[0], rnd, n)
            c.count('calls on files changed since the last call')
            bad = pipe.crashed(q) or pipe.crashed(f)
            if not bad and q.get(str(i)) != f.get('0'):
                bad = 'the result does not follow the file: %s / %s' % (str(f.get('0'))[:500], str(q.get(str(i)))[:500])
            if bad:
                c.violate('changed files: %s' % bad, dict(op='versions', input=k[1], files=k[2], result=q))


def sanitized(c):
    """The same under ThreadSanitizer (nightly, together with an instrumented standard library)."""
    b = harness.Batch('c21-tsan', crates=8)
    ss = pipe.schemas(c, 'tsan', 60, None, b)
    b.ws.target = os.path.join(harness.BUILD, 'target-tsan')
    b.build(extra=['+nightly', '-Zbuild-std', '--target', TSAN], env=dict(RUSTFLAGS='-Zsanitizer=thread'))
    cases = documents(c, ss, 'tsan', 8)
    threads(c, 'ThreadSanitizer', split_by_binary(b, cases, TSAN), 12, 2, env=dict(TSAN_OPTIONS='halt_on_error=0 exitcode=66'), timeout=600)
    d = harness.Driver()
    d.ws = harness.Workspace('driver-tsan')
    d.ws.target = os.path.join(harness.BUILD, 'target-tsan')
    d.build(extra=['+nightly', '-Zbuild-std', '--target', TSAN], env=dict(RUSTFLAGS='-Zsanitizer=thread'))
    front = []
    for i in range(60):
        r = c.rng('tsan-front', i)
        s = gen.make(r, gen.Opts(**pipe.PROFILES[i % len(pipe.PROFILES)]))
        texts = model.render_xsd(s, r)
        front.append(('file', os.path.join(c_front.write_files('c21t/%d' % i, texts), 'main.xsd'), texts))
    threads(c, 'ThreadSanitizer, code generation', [(d.ws.bin('d', TSAN), front)], 12, 1,
            env=dict(TSAN_OPTIONS='halt_on_error=0 exitcode=66'), replay=lambda k, q: dict(op=k[0], input=k[1], files=k[2], result=q), timeout=600)
