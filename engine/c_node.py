"""C22: finding one's way in a schema document (xsd::internal::xsd::node), compared call by call with the tree that the document was
written from."""
import docs
import harness
import pipe
from c_direct import El

NAMES = ['schema', 'element', 'complexType', 'a', 'A', 'ab', 'é', 'x-y', 'xs']
SPACES = [None, 'http://www.w3.org/2001/XMLSchema', 'urn:1', 'urn:2', 'URN:1', 'urn:1/']
ATTRS = ['name', 'Name', 'type', 'k', 'kk', 'é', 'a.b']
VALUES = ['', 'v', 'V', '1', 'a "b" <c> &', 'é日', ' x ', 'xs:string', 'v ']


class Doc:
    """A random document, together with the byte ranges and the scopes of everything in it."""
    def __init__(self, r):
        self.r, self.out, self.n, self.els = r, [], 0, []

    def put(self, s):
        self.out.append(s)
        self.n += len(s.encode())

    def doc(self):
        r = self.r
        if r.random() < .3:
            self.put('<?xml version="1.0"?>\n')
        if r.random() < .2:
            self.put('<!-- é -->')
        self.el(0, {}, None)
        if r.random() < .2:
            self.put('\n<!-- tail -->')
        return ''.join(self.out)

    def el(self, depth, scope, default):
        r = self.r
        decl = []
        scope = dict(scope)
        pre = ''
        k = r.random()
        if k < .3:
            ns = r.choice(SPACES[1:])
            old = [q for q, u in scope.items() if u == ns]
            if old and r.random() < .7:
                p = r.choice(old)
            else:
                p = r.choice(['p', 'q', 'ns1', 'xs', 'é'])
                decl.append(('xmlns:' + p, ns))
                scope[p] = ns
            pre = p + ':'
        elif k < .45:
            ns = r.choice(SPACES)
            decl.append(('xmlns', ns or ''))
            default = ns
        else:
            ns = default
        if r.random() < .1:
            q = r.choice(['unused', 'u2'])
            if pre != q + ':':
                decl.append(('xmlns:' + q, r.choice(SPACES[1:])))
                scope[q] = decl[-1][1]
        e = El(r.choice(NAMES[:3] if r.random() < .7 else NAMES), ns)
        e.scope, e.default, e.alist, e.parts = scope, default, [], []
        e.start = self.n
        self.els.append(e)
        attrs = []
        for _ in range(r.choice([0, 0, 1, 2, 4, 6])):
            an = r.choice(ATTRS)
            if an not in e.attrs:
                e.attrs[an] = r.choice(VALUES)
                attrs.append((an, e.attrs[an], True))
        if r.random() < .2:
            # an attribute of a namespace is another attribute
            decl.append(('xmlns:z', 'urn:z'))
            scope['z'] = 'urn:z'
            attrs.append(('z:' + r.choice(['name', 'type', 'only']), 'v', False))
        if r.random() < .05:
            attrs.append(('xml:lang', 'v', False))
        al = [(a, b, False) for a, b in decl] + attrs
        r.shuffle(al)
        self.put('<' + pre + e.name)
        for a, v, mine in al:
            self.put(r.choice([' ', ' ', '\n  ', '\t']))
            s = self.n
            qu = r.choice('"\'')
            v2 = docs.esc_attr(v).replace("'", '&apos;')
            self.put(a + r.choice(['=', '=', ' = ']) + qu + v2 + qu)
            if mine:
                e.alist.append((a, v, s, self.n))
        n = 0 if depth > 3 or len(self.els) > 40 else r.choice([0, 0, 1, 2, 4]) if depth else r.choice([1, 4, 8, 20])
        if n == 0 and r.random() < .3:
            self.put(r.choice(['/>', ' />']))
            e.end = self.n
            return e
        self.put('>')
        for i in range(n + 1):
            for _ in range(r.choice([0, 0, 1, 2])):
                k = r.random()
                if k < .6:
                    t = r.choice([' ', '\n  ', 'text', 'a & b', 'é', '<', 'long ' * 9, ']'])
                    self.put('<![CDATA[' + t + ']]>' if k < .1 else ''.join('&#%d;' % ord(c) for c in t) if k < .2 else docs.esc_text(t))
                    e.parts.append(t)
                else:
                    self.put(r.choice(['<!-- c -->', '<!---->', '<!-- <a/> -->', '<?pi?>', '<?a b?>']))
                    e.parts.append(None)
            if i < n:
                e.kids.append(self.el(depth + 1, scope, default))
                e.parts.append(None)
        self.put('</%s%s>' % (pre, e.name))
        e.end = self.n
        return e


def o(v):
    return '-' if v is None else '=' + v


def at(e):
    return 'N %d..%d' % (e.start, e.end)


def err(e, what, *names):
    """an error at e; its message has to contain the names"""
    return ('E %d..%d %s' % (e.start, e.end, what), [n for n in names if n is not None])


def wanted(r, e):
    """the name of a child, or one that is close to it"""
    if e.kids and r.random() < .7:
        t = r.choice(e.kids)
        n, ns = t.name, t.ns
        k = r.random()
        if k < .12:
            ns = r.choice(SPACES)
        elif k < .2:
            n = r.choice([n.swapcase(), n[:1], n + 'x'])
        return n, ns
    return r.choice(NAMES), r.choice(SPACES)


def op(r, i, e):
    """(line, [what each answer has to be; None: not judged])"""
    k = r.choice(['self', 'text', 'child', 'child', 'prefix', 'uri', 'attrs', 'attrs', 'filter', 'filter', 'filter'])
    p = [str(i), k]
    want = []
    if k == 'self':
        want = [at(e), e.name, o(e.ns), o(e.default)]
    elif k == 'text':
        if not e.parts:
            want = ['-', err(e, 'TextExpected ' + e.name, e.name)]
        elif None not in e.parts:
            t = ''.join(e.parts)
            want = ['=' + t, '=' + t]
        else:
            want = [None, None]
    elif k == 'child':
        n, ns = wanted(r, e)
        p += [n, o(ns)]
        hit = [c for c in e.kids if c.name == n and c.ns == ns]
        want = [at(hit[0]), at(hit[0])] if hit else ['-', err(e, 'MissingElement %s %s' % (n, o(ns)), n, ns)]
    elif k == 'prefix':
        ns = r.choice(SPACES[1:])
        p.append(ns)
        ps = [q for q, u in e.scope.items() if u == ns]
        if not ps:
            want = [err(e, 'MissingNamespace ' + ns, ns)]
        elif ns == e.default:
            # both the default and bound to a prefix
            want = [None]
        else:
            want = [['=' + q for q in ps]]
    elif k == 'uri':
        q = r.choice(list(e.scope) + ['p', 'q', 'nope'])
        p.append(q)
        want = ['=' + e.scope[q]] if q in e.scope else [err(e, 'MissingNamespace ' + q, q)]
    elif k == 'attrs':
        seen = set()
        for _ in range(r.randint(1, 5)):
            n = r.choice(e.alist)[0] if e.alist and r.random() < .75 else r.choice(ATTRS + ['only', 'lang', 'z:name'])
            hit = [a for a in e.alist if a[0] == n]
            strict = r.random() < .5
            p.append(('!' if strict else '') + n)
            if hit:
                want.append('=%s %d..%d' % hit[0][1:])
            else:
                want.append(err(e, 'MissingAttribute %s %s' % (n, e.name), n, e.name) if strict else '-')
            seen.add(n)
            left = [a for a in e.alist if a[0] not in seen]
            if left:
                want.append(('E %d..%d UnsupportedAttribute %s %s' % (left[0][2], left[0][3], left[0][0], e.name), [left[0][0], e.name]))
            else:
                want.append('ok')
    else:
        steps = ''.join(r.sample('ena', r.randint(0, 3)))
        n, ns = wanted(r, e)
        if ns is None:
            ns = 'urn:1'
        cand = [a for c in e.kids for a in c.alist]
        a = r.choice(cand)[:2] if cand and r.random() < .8 else (r.choice(ATTRS), r.choice(VALUES))
        p += [steps, n, ns, a[0], a[1]]
        hit = [c for c in e.kids if ('e' not in steps or c.name == n) and ('n' not in steps or c.ns == ns)
               and ('a' not in steps or c.attrs.get(a[0]) == a[1])]
        want = [' '.join(at(c) for c in hit)]
        if hit:
            want.append(at(hit[0]))
        else:
            parts = [n if 'e' in steps else None, ns if 'n' in steps else None] + (list(a) if 'a' in steps else [None, None])
            want.append(err(e, 'ElementNotFound ' + ' '.join(o(q) for q in parts), *[q for q in parts if q is None or '"' not in q]))
        for _ in range(r.choice([0, 1, 2, 4, len(hit)])):
            if hit and r.random() < .8:
                c = r.choice(hit)
                n, ns = c.name, c.ns
            else:
                n, ns = wanted(r, e)
            c = [q for q in hit if q.name == n and q.ns == ns]
            strict = r.random() < .5
            p += [('!' if strict else '') + n, o(ns)]
            if c:
                hit.remove(c[0])
                want.append(at(c[0]))
            else:
                want.append(err(e, 'MissingElement %s %s' % (n, o(ns)), n, ns) if strict else '-')
        want.append(('E %d..%d UnsupportedElement %s %s' % (hit[0].start, hit[0].end, hit[0].name, e.name), [hit[0].name, e.name])
                    if hit else 'ok')
    return '\x01'.join(p), want


def differs(want, got):
    if want is None:
        return None
    if isinstance(want, list):
        return None if got in want else 'expected one of %s, got %s' % (want, got)
    if isinstance(want, tuple):
        head, _, msg = got.partition('\x01')
        if head != want[0]:
            return 'expected %s, got %s' % (want[0], got)
        miss = [n for n in want[1] if n not in msg]
        return 'the message does not name %s: %s' % (miss, msg) if miss else None
    return None if got == want else 'expected %s, got %s' % (want, got)


def c22(c):
    d = harness.Driver(src='nodes').build()
    for rnd in pipe.rounds(c, 1, 500):
        cases = []
        for i in range(c.pick(6000, 20000)):
            r = c.rng('doc', rnd, i)
            g = Doc(r)
            text = g.doc()
            ops = []
            for _ in range(r.choice([5, 15, 40])):
                n = r.choice([0, r.randrange(len(g.els)), r.randrange(len(g.els))])
                ops.append(op(r, n, g.els[n]))
            cases.append((text, ops, '\x02'.join(q[0] for q in ops) + '\x03' + text))
        for (text, ops, inp), q in zip(cases, d.run([('nav', k[2]) for k in cases])):
            if q is None:
                continue
            bad = pipe.crashed(q) or q.get('xmlerr')
            if bad:
                c.seen(text)
                c.violate('%s\ndocument: %s' % (bad, text[:800]), dict(op='nav', src='nodes', input=inp, result=q))
                continue
            for (line, want), got in zip(ops, q['log']):
                f = line.split('\x01')
                c.seen(text, line)
                c.count('calls: ' + f[1])
                bad = None
                if len(want) != len(got):
                    bad = 'expected %s, got %s' % (want, got)
                for w, a in zip(want, got):
                    c.count('answers: ' + ('not judged' if w is None else 'error' if isinstance(w, tuple) else 'none' if w == '-' else 'found'))
                    bad = bad or differs(w, a)
                if bad:
                    c.violate('%s of element %s: %s\ndocument: %s' % (' '.join(f[1:]), f[0], bad, text[:800]),
                              dict(op='nav', src='nodes', input=inp, result=q))
            c.sample(dict(document=text[:400], calls=[q[0].replace('\x01', ' ') for q in ops[:5]], answers=q['log'][:5]), 2)
