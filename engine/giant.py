"""Documents far larger than random ones: lists beyond the limits of 8 and 16 bits, values around
the sizes of buffers, elements nested some hundred levels deep."""
import sys
import threading
import docs
import inst
import pipe
from model import *

B = Builtin
LENGTHS = [258, 300, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2049, 4095, 4096, 4097, 5000, 8193, 10000, 10001]
LONG = [16385, 32767, 32768, 32769, 50001, 65535, 65536, 65537, 70000]
SIZES = [250, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32768, 65535, 65536, 65537, 131073, 2**20 + 1]
DEPTHS = [7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 255, 256, 257, 300, 400]


def schemas(batch):
    from c_api import make_schema
    pair = lambda: Complex('Pair', Group('seq', [Elem('a', B('string')), Elem('b', B('int'), 0, 1)]), [Attr('id', B('int'), 'required')])
    out = []

    def add(what, items, **kw):
        s = make_schema(items, **kw)
        s.mod = batch.add(s.texts)
        s.what = what
        out.append(s)
    p = pair()
    add('lists', [p, GlobalElem('Root', Complex(None, Group('seq', [Elem('n', B('int'), 0, None), Elem('p', p, 1, None),
                                                                     Elem('s', B('string'), 0, None), Elem('last', B('boolean'))])))],
        tns='urn:giant', qualified=True)
    add('repeated choice', [GlobalElem('Root', Complex(None, Group('seq', [
        Group('choice', [Elem('a', B('int')), Elem('b', B('string')), Elem('c', Complex(None, SimpleExt(B('decimal')), [Attr('k', B('string'))]))],
              1, None), Elem('end', B('string'), 0, 1)])))])
    add('repeated sequence', [GlobalElem('Root', Complex(None, Group('choice', [
        Group('seq', [Elem('a', B('int')), Elem('b', B('string'), 0, 1), Elem('c', B('boolean'), 0, None)], 1, None),
        Elem('end', B('string'))])))], tns='urn:giant', qualified=False)
    add('repeated type', [GlobalElem('Root', Complex(None, Group(
        'seq', [Elem('a', B('int')), Elem('b', B('string'), 0, 1), Elem('c', B('boolean'), 0, None)], 1, None)))])
    add('choice of lists', [GlobalElem('Root', Complex(None, Group('choice', [Elem('a', B('float'), 1, None), Elem('b', B('string'), 1, None)])))])
    t = Complex('Tree', None, [Attr('k', B('string'))])
    t.content = Group('seq', [Elem('v', B('string'), 0, 1), Elem('t', t, 0, None)])
    add('tree', [t, GlobalElem('Root', t)], tns='urn:giant', qualified=True)
    t = Complex('Node', None)
    t.content = Group('choice', [Elem('leaf', B('int')), Elem('node', t, 1, None)])
    add('tree of choices', [t, GlobalElem('Root', t)])
    p = pair()
    add('texts', [p, GlobalElem('Root', Complex(None, Group('seq', [
        Elem('s', B('string')), Elem('c', Complex(None, SimpleExt(B('string')), [Attr('k', B('string'), 'required')])),
        Elem('p', p)])))])
    return out


class Giant(inst.Gen):
    """count(particle) is planned: {element or group: number}"""
    def __init__(self, r, plan, deep=0, size=0):
        super().__init__(r, depth=10**6, maxrep=2)
        self.budget = 10**9
        self.chars = 20000
        self.plan, self.deep, self.size = plan, deep, size
        self.level = 0

    def count(self, p, depth):
        if isinstance(p, Elem) and isinstance(p.etype, Complex) and p.etype.name in ('Tree', 'Node'):
            # one branch goes down all the way
            self.level = max(self.level, depth)
            return 0 if depth >= self.deep else 1
        n = self.plan.get(id(p))
        return n if n is not None else super().count(p, depth)

    def pick(self, opts, depth):
        if self.deep:
            nested = [i for i in opts if isinstance(i, Elem) and isinstance(i.etype, Complex)]
            opts = nested if depth < self.deep else [i for i in opts if i not in nested]
        elif any(i.vec and self.plan.get(id(i), 0) > 3 for i in opts):
            opts = [i for i in opts if self.plan.get(id(i), 0) > 3]
        return self.r.choice(opts)

    def text_of(self, t, attr=False):
        if self.size and isinstance(t, Builtin) and t.kind == 'str':
            n = self.size
            unit = self.r.choice(['x', 'é', '日', '\U0001f600', '<', '&', 'a b ', ']]>'])
            lead = 'abcd'[:self.r.randint(0, 3)]
            l = (lead + unit * (n // len(unit.encode()) + 1))
            l = l[:max(1, n * len(l) // len(l.encode()))] + self.r.choice(['', 'z', '!'])
            return l, 'str', ('lit', 'str', l)
        return super().text_of(t, attr)


def big(p):
    return p.max is None


def particles(g):
    for i in g.items:
        yield i
        if isinstance(i, Group):
            yield from particles(i)


def make(c, rnd, ss, lengths=LENGTHS, long=LONG, sizes=SIZES, finish=None):
    cases = []

    def add(s, g):
        x, v = g.root(s.roots[0])
        if finish:
            cases.append(finish(s, x, g.r))
            return
        d = docs.Noisy(g.r, 0).doc(x) if len(cases) % 3 else docs.Noisy(g.r, .02).doc(x)
        cases.append(pipe.Case(s, x, v, d, s.mod + ':Root', s.what))
    for s in ss:
        r = c.rng('giant', rnd, s.what)
        top = s.roots[0].type.content
        if s.what.startswith('tree'):
            for n in r.sample(DEPTHS[:-1], c.pick(4, 12)) + DEPTHS[-1:]:
                add(s, Giant(r, {}, deep=n))
                c.counts['deepest element'] = max(c.counts.get('deepest element', 0), n)
        elif s.what == 'texts':
            for n in r.sample(sizes[:-1], c.pick(8, 18)) + sizes[-1:]:
                add(s, Giant(r, {}, size=n))
                c.counts['longest text'] = max(c.counts.get('longest text', 0), n)
        else:
            ps = [p for p in [top, *particles(top)] if p.max is None]
            outer = [p for p in ps if isinstance(p, Group)] or ps
            for n in r.sample(lengths, c.pick(4, 10)) + ([long[-1]] + r.sample(long[:-1], c.pick(0, 2)) if long else []):
                one = r.choice(outer)
                plan = {id(p): r.choice([p.min, 1, 2, 3]) for p in ps if p is not one}
                plan[id(one)] = n
                add(s, Giant(r, plan))
                c.counts['longest list'] = max(c.counts.get('longest list', 0), n)
            if any(isinstance(p, Elem) for p in ps) and outer is not ps:
                inner = [p for p in ps if isinstance(p, Elem)][0]
                for n in r.sample(lengths, c.pick(1, 4)):
                    add(s, Giant(r, {id(inner): n, id(outer[0]): 3}))
    return cases


def roomy(fn):
    """Runs fn with a stack for documents nested some hundred levels deep."""
    def run(*a, **kw):
        res = []

        def body():
            try:
                res.append((True, fn(*a, **kw)))
            except BaseException as e:
                res.append((False, e))
        keep = sys.getrecursionlimit()
        sys.setrecursionlimit(200000)
        threading.stack_size(512 * 2**20)
        try:
            t = threading.Thread(target=body)
            t.start()
        finally:
            threading.stack_size(0)
        t.join()
        sys.setrecursionlimit(keep)
        ok, v = res[0]
        if not ok:
            raise v
        return v
    return run


@roomy
def check(c, rnd, batch, ss, oracles):
    cases = make(c, rnd, ss)
    pipe.run(c, batch, cases)
    pipe.judge(c, cases, oracles)
    c.count('giant documents', len(cases))
    c.counts['largest document (bytes)'] = max([c.counts.get('largest document (bytes)', 0)] + [len(k.doc) for k in cases])


@roomy
def faults(c, rnd, batch, ss, oracle):
    """One fault, most often far behind or far down."""
    import mutate

    def finish(s, x, r):
        cand = mutate.candidates(x, r)
        kinds = sorted({q[0] for q in cand if not q[0].startswith('root')})
        kind = r.choice(kinds)
        of = [q for q in cand if q[0] == kind]
        kind, do, exp = r.choice(of[len(of) * 7 // 10:])
        do()
        return pipe.Case(s, x, exp, docs.Noisy(r, 0, extras=False).doc(x), s.mod + ':Root', kind)
    cases = []
    for k in range(c.pick(4, 8)):
        cases += make(c, (rnd, k), ss, [258, 300, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 1100], (), [257, 1025, 4097, 8193] * 5, finish)
    pipe.run(c, batch, cases)
    for k in cases:
        if k.res is not None:
            c.count('fault: ' + k.kind)
    pipe.judge(c, cases, [oracle])
    c.count('giant documents', len(cases))
