"""C06: the decoding cursor; C07: the writer context.  Both are driven directly and
compared, operation by operation, with a model that knows nothing of the implementation."""
import docs
import harness
import pipe

NAMES = ['a', 'b', 'c', 'A', 'ab', 'é', 'x-y', 'item']
SPACES = [None, 'urn:1', 'urn:2', 'http://x/y?z']


# ------------------------------------------------------------ C06

class El:
    def __init__(self, name, ns):
        self.name, self.ns, self.attrs, self.kids, self.text, self.first = name, ns, {}, [], '', None
        self.start = self.end = 0


class DocGen:
    """A random document, built together with its byte ranges."""
    def __init__(self, r, wide=0):
        self.r, self.out, self.n, self.els = r, [], 0, 0
        self.wide = wide        # children of the root, attributes, parts of texts

    def put(self, s):
        self.out.append(s)
        self.n += len(s.encode())

    def doc(self):
        r = self.r
        if r.random() < .2:
            self.put('<?xml version="1.0"?>\n')
        if r.random() < .2:
            self.put('<!-- head é -->')
        e = self.el(0, {}, None)
        if r.random() < .2:
            self.put('\n<!-- tail -->')
        return e, ''.join(self.out)

    def text(self, s):
        r = self.r
        k = r.random()
        if k < .2 and ']]>' not in s:
            self.put('<![CDATA[' + s + ']]>')
        elif k < .35:
            self.put(''.join('&#%d;' % ord(c) for c in s))
        else:
            self.put(docs.esc_text(s))

    def el(self, depth, scope, default):
        r = self.r
        name = r.choice(NAMES[:3] if r.random() < .7 else NAMES)
        if self.wide and depth and r.random() < .1:
            name = 'n%d' % self.els
        decl = []
        scope = dict(scope)
        pre = ''
        k = r.random()
        if k < .25:
            ns = r.choice(SPACES[1:])
            if ns in scope.values() and r.random() < .6:
                p = [q for q, u in scope.items() if u == ns][0]
            else:
                p = r.choice(['p', 'q', 'ns1'])
                decl.append(('xmlns:' + p, ns))
                scope[p] = ns
            pre = p + ':'
        elif k < .45:
            ns = r.choice(SPACES)
            decl.append(('xmlns', ns or ''))
            default = ns
        else:
            ns = default
        e = El(name, ns)
        e.start = self.n
        attrs = []
        for _ in range(r.choice([0, 0, 1, 2, 4])):
            an = r.choice(['k', 'id', 'K', 'kk', 'é'])
            if an not in e.attrs:
                v = r.choice(['', 'v', '1', 'a "b" <c> &', 'é日', ' x ', 'x' * 70])
                e.attrs[an] = v
                attrs.append((an, v))
        if self.wide and not depth:
            for i in range(r.choice([20, 60, 300])):
                e.attrs['at%d' % i] = str(i)
                attrs.append(('at%d' % i, str(i)))
        if r.random() < .15:
            # a namespaced attribute is a different attribute
            decl.append(('xmlns:z', 'urn:z'))
            attrs.append(('z:' + r.choice(['k', 'id', 'only']), 'namespaced'))
        if r.random() < .05:
            attrs.append(('xml:' + r.choice(['lang', 'k', 'id', 'only']), 'en'))
        al = decl + attrs
        r.shuffle(al)
        self.put('<' + pre + name + ''.join(' %s="%s"' % (k, docs.esc_attr(v)) for k, v in al))
        self.els += 1
        n = self.wide if self.wide and not depth else 0 if depth > (0 if self.wide else 4) or self.els > 40 else r.choice([0, 0, 1, 2, 3, 5]) if depth else r.choice([1, 3, 6, 12, 30])
        body = r.random()
        if n == 0 and body < .3:
            self.put(r.choice(['/>', ' />']))
            e.end = self.n
            return e
        self.put('>')
        for i in range(n + 1):
            for _ in range(r.choice([0, 0, 1, 2, 3]) if not self.wide or r.random() < .98 else r.choice([40, 300])):
                k = r.random()
                if k < .5:
                    t = r.choice([' ', '\n  ', 'text', 'a & b', 'é', '<', '\t', 'long ' * 9, ']'])
                    self.text(t)
                    if e.first is None:
                        e.text += t
                elif k < .8:
                    self.put(r.choice(['<!-- c -->', '<!---->', '<!-- <a/> -->']))
                else:
                    self.put(r.choice(['<?pi?>', '<?a b?>']))
            if i < n:
                c = self.el(depth + 1, scope, default)
                e.first = e.first or c
                e.kids.append(c)
        self.put('</%s%s>' % (pre, name))
        e.end = self.n
        return e


class Cursor:
    def __init__(self, e):
        self.e, self.rest = e, list(e.kids)


def dbgstr(s):
    return None


def script(r, root, n):
    """[(line, expected)]: expected is a predicate description"""
    nodes = []
    lines = []

    def name_for(cur):
        k = r.random()
        if cur is not None and cur.rest and k < .7:
            t = cur.rest[0] if r.random() < .6 else r.choice(cur.rest)
            nm, ns = t.name, t.ns
            if k < .06:
                ns = r.choice(SPACES)
            elif k < .1:
                nm = nm.swapcase()
            return nm, ns
        return r.choice(NAMES + ['']), r.choice(SPACES)

    def found(c, e):
        nodes.append(Cursor(e))
        return ('N', e.start, e.end)

    def missing(kind, **f):
        return ('E', kind, f)
    for i in range(n):
        if not nodes or r.random() < .03:
            h = -1
            op = r.choice(['child', 'try_child'])
            nm, ns = (root.name, root.ns) if r.random() < .8 or not nodes and i > 3 else (r.choice(NAMES), r.choice(SPACES))
            if (nm, ns) == (root.name, root.ns):
                exp = found(None, root)
            else:
                exp = ('none',) if op == 'child' else missing('MissingElement', name=nm, namespace=ns)
        else:
            h = len(nodes) - 1 if r.random() < .3 else r.randrange(len(nodes))
            if len(root.kids) > 60 and r.random() < .85:
                h = 0
            cur = nodes[h]
            op = r.choice(['peek', 'next', 'try_next', 'child', 'try_child', 'peek', 'next', 'attr', 'try_attr', 'text',
                           'range'])
            nm, ns = name_for(cur)
            if op in ('attr', 'try_attr'):
                ns = None
                nm = r.choice(list(cur.e.attrs) * 2 + ['k', 'id', 'only', 'lang', 'xmlns', 'z:k', ''])
                if nm in cur.e.attrs:
                    exp = ('=', cur.e.attrs[nm])
                else:
                    exp = ('none',) if op == 'attr' else missing('MissingAttribute', name=nm)
            elif op == 'text':
                nm, ns = '', None
                if cur.e.first is not None and cur.e.text == '':
                    exp = missing('TextExpected', name=cur.e.name)
                else:
                    exp = ('=', cur.e.text)
            elif op == 'range':
                nm, ns = '', None
                exp = ('R', '%d..%d' % (cur.e.start, cur.e.end))
            elif op == 'peek':
                exp = ('R', 'true' if cur.rest and (cur.rest[0].name, cur.rest[0].ns) == (nm, ns) else 'false')
            else:
                hit = None
                if op in ('next', 'try_next'):
                    if cur.rest and (cur.rest[0].name, cur.rest[0].ns) == (nm, ns):
                        hit = cur.rest[0]
                else:
                    hit = next((k for k in cur.rest if (k.name, k.ns) == (nm, ns)), None)
                if hit is not None:
                    cur.rest = [k for k in cur.rest if k is not hit]
                    exp = found(cur, hit)
                else:
                    exp = ('none',) if not op.startswith('try') else missing('MissingElement', name=nm, namespace=ns)
        lines.append(('%d\x01%s\x01%s\x01%s' % (h, op, nm, '-' if ns is None else ns), exp))
    return lines


def log_matches(exp, got):
    import dbg
    if exp[0] == 'N':
        return got == 'N %d %d' % exp[1:]
    if exp[0] == 'none':
        return got == 'none'
    if exp[0] == '=':
        return got == '= ' + exp[1]
    if exp[0] == 'R':
        return got == exp[1]
    if not got.startswith('E '):
        return False
    try:
        p = dbg.parse(got[2:])
    except dbg.DbgError:
        return False
    if p[0] != 'struct' or p[1] != exp[1]:
        return False
    f = dict(p[2])
    for k, v in exp[2].items():
        want = ('str', v)
        if k == 'namespace':
            want = ('id', 'None') if v is None else ('call', 'Some', [('str', v)])
        if f.get(k) != want:
            return False
    return True


def c06(c):
    d = harness.Driver().build()
    for rnd in pipe.rounds(c, 1, 300):
        cases, exps = [], []
        for i in range(c.pick(4000, 12000)):
            r = c.rng('cursor', rnd, i)
            wide = r.choice([65, 130, 257, 300, 600, 1100]) if i % 40 == 39 else 0
            root, text = DocGen(r, wide).doc()
            lines = script(r, root, r.choice([5, 20, 60, 150]) if not wide else r.choice([300, 700, 1500]))
            c.counts['most children'] = max(c.counts.get('most children', 0), len(root.kids))
            cases.append(('cursor', '\n'.join(l for l, _ in lines) + '\n\0\n' + text))
            exps.append((lines, text))
        for (op, inp), (lines, text), q in zip(cases, exps, d.run(cases)):
            if q is None:
                continue
            bad = pipe.crashed(q)
            if not bad and 'xmlerr' in q:
                bad = 'well-formed document rejected: ' + q['xmlerr']
            if not bad:
                for n, ((l, e), g) in enumerate(zip(lines, q['log'])):
                    c.count('op ' + l.split('\x01')[1])
                    if not log_matches(e, g):
                        bad = 'operation %d (%s): expected %s, got %s' % (n, l.replace('\x01', ' '), e, g)
                        break
            c.seen(inp if len(lines) > 5 else None)
            if bad:
                c.violate('%s\ndocument: %s' % (bad, text[:600]), dict(op=op, input=inp, result=q))
            elif len(lines) == 20:
                c.sample(dict(document=text[:400], operations=[l.replace('\x01', ' ') + ' -> ' + g
                                                               for (l, _), g in zip(lines[:10], q['log'])]), 2)


# ------------------------------------------------------------ C07

BIG = ['attributes', 'prefixes', 'wraps', 'values', 'children', 20, 65, 130, 300]


class WNode:
    def __init__(self):
        self.name = self.ns = None
        self.attrs, self.kids = {}, []


def wgen(r, lines, depth, scope, default, big=None):
    """Appends the script of one element; returns what has to come out."""
    e = WNode()
    scope = dict(scope)
    local = r.choice(['a', 'b', 'root', 'x-y', 'é', 'Item'])
    ops = []
    nsdecl = {}
    for _ in range(r.choice([0, 0, 0, 1, 2])):
        p = r.choice(['p', 'q', 'ns1', 'ns2'])
        if p not in nsdecl:
            # (xml-rs does not restore a prefix that an element in between has bound to something else)
            nsdecl[p] = {'p': 'urn:1', 'q': 'urn:2', 'ns1': 'http://x/?a=1&b=<"\'>', 'ns2': 'urn:1'}[p]
            ops.append('ns\x01%s\x01%s' % (p, nsdecl[p]))
    if big == 'prefixes':
        for i in range(r.choice([17, 40, 140])):
            nsdecl['pre%d' % i] = 'urn:pre:%d' % i
            ops.append('ns\x01pre%d\x01urn:pre:%d' % (i, i))
    if r.random() < .2:
        u = default or r.choice(['urn:d1', 'urn:d2', 'urn:d3&<"\'>é'])
        ops.append('default\x01' + u)
        default = u
    scope.update(nsdecl)
    if scope and r.random() < .4:
        p = r.choice(sorted(scope))
        name, e.ns = p + ':' + local, scope[p]
    else:
        name, e.ns = local, default
    e.name = local
    for _ in range(r.choice([0, 0, 1, 2, 5, 12])):
        an = r.choice(['k', 'id', 'x', 'y', 'z', 'é', 'a-b', 'K', 'long-name'])
        if scope and r.random() < .15:
            p = r.choice(sorted(scope))
            key = (scope[p], an)
            an = p + ':' + an
        else:
            key = (None, an)
        if key in e.attrs:
            continue
        v = r.choice(['', 'v', 'a b', '<&>"\'', 'é日', 'x' * 90, '\n', ' lead', ']]>', '&amp;', '1'])
        e.attrs[key] = v
        ops.append('attr\x01%s\x01%s' % (an, v))
    if big == 'attributes':
        for i in range(r.choice([17, 40, 140, 300])):
            e.attrs[None, 'at%d' % i] = str(i)
            ops.append('attr\x01at%d\x01%d' % (i, i))
    elif big == 'values':
        v = r.choice(['x', 'é', '日', '<', '"']) * r.choice([255, 257, 1023, 1025, 4096, 4097, 8193, 65537])
        e.attrs[None, 'big'] = 'a' + v
        ops.append('attr\x01big\x01a' + v)
    r.shuffle(ops)
    lines.append('new\x01' + name)
    # spread the settings over the context and (nested) virtual contexts of the same element
    starts = 0

    def level(n, ops):
        nonlocal starts
        cut = r.randint(0, len(ops)) if n else len(ops)
        lines.extend(ops[:cut])
        if n:
            lines.append('wrap')
            level(n - 1, ops[cut:])
            if r.random() < .3:
                lines.append('end')     # the end of a virtual context writes nothing
            lines.append('pop')
        elif r.random() < .6:
            lines.append('start')
            starts += 1
    level(r.choice([0, 0, 1, 1, 2, 3]) if big != 'wraps' else r.choice([7, 16, 17, 33, 60]), ops)
    if not starts or r.random() < .4:
        lines.append('start')           # only the first start counts
        starts += 1
    kids = 0 if depth > 3 else r.choice([0, 0, 1, 2, 4])
    deeper = None
    if big == 'children' and depth == 0:
        kids = r.choice([130, 257, 300, 600])
    elif isinstance(big, int):
        kids, deeper = (1, big - 1) if big else (0, None)
    for _ in range(kids):
        if r.random() < .3 and deeper is None:
            t = r.choice(['text', '<&>', 'é', ' ', 'a\nb'])
            lines.append('text\x01' + t)
            e.kids.append(t)
        else:
            e.kids.append(wgen(r, lines, depth + 1, scope, default, big if isinstance(big, str) and big != 'children' and depth < 1 else deeper))
        if r.random() < .15:
            lines.extend(['wrap', 'end', 'pop'])
        if r.random() < .15:
            lines.extend(['wrap', 'start', 'pop'])
    lines.extend(['end', 'pop'])
    return e


def wdiff(e, n, path=''):
    path += '/' + e.name
    if (n.name, n.ns) != (e.name, e.ns):
        return '%s: expected {%s}%s, got {%s}%s' % (path, e.ns, e.name, n.ns, n.name)
    got = {k: v for k, v in n.attrs.items()}
    if got != e.attrs:
        return '%s: expected attributes %s, got %s' % (path, e.attrs, got)
    want = [k for k in e.kids if not isinstance(k, str)]
    if len(want) != len(n.children):
        return '%s: expected %d children, got %d' % (path, len(want), len(n.children))
    if ''.join(k for k in e.kids if isinstance(k, str)) != n.text:
        return '%s: expected text %r, got %r' % (path, e.kids, n.text)
    for a, b in zip(want, n.children):
        d = wdiff(a, b, path)
        if d:
            return d
    return None


def c07(c):
    d = harness.Driver().build()
    for rnd in pipe.rounds(c, 1, 300):
        cases, exps = [], []
        for i in range(c.pick(4000, 12000)):
            r = c.rng('writer', rnd, i)
            lines = []
            big = r.choice(BIG) if i % 40 == 39 else None
            e = wgen(r, lines, 0, {}, None, big)
            if big:
                c.count('giant: %s' % (big if isinstance(big, str) else 'depth'))
            cases.append(('writer', '\x02'.join(lines)))
            exps.append((e, lines))
        res = d.run(cases)
        fault = []
        for (op, inp), (e, lines), q in zip(cases, exps, res):
            if q is None:
                continue
            bad = pipe.crashed(q)
            if not bad and q['res'] != 'ok':
                bad = 'writing fails: ' + q['res']
            if not bad:
                try:
                    bad = wdiff(e, docs.parse_xml(q['xml']))
                except docs.XmlError as err:
                    bad = 'output is not well-formed: %s' % err
            c.seen(inp if len(lines) > 6 else None)
            for l in lines:
                c.count('op ' + l.split('\x01')[0])
            if bad:
                c.violate('%s\noutput: %s\noperations: %s' % (bad, q.get('xml', '')[:500], lines[:40]),
                          dict(op=op, input=inp, result=q))
            else:
                c.sample(dict(operations=lines[:20], output=q['xml'][:300]), 2)
                n = len(q['xml'].encode())
                r = c.rng('fault', rnd, len(fault))
                if len(fault) < c.pick(1500, 6000):
                    at = r.randrange(0, n)
                    fault.append((at, q['xml'], ('writer', 'fail\x01%d\x02' % at + inp)))
        for (at, full, (op, inp)), q in zip(fault, d.run([f[2] for f in fault])):
            if q is None:
                continue
            c.seen(inp)
            c.count('injected write errors')
            bad = pipe.crashed(q)
            if not bad and not q['res'].startswith('E '):
                bad = 'a write error after %d bytes is not reported' % at
            elif not bad and not full.encode().startswith(q['xml'].encode()):
                bad = 'output before a write error differs from the output without one'
            if bad:
                c.violate(bad + '\noutput: ' + q.get('xml', '')[:300], dict(op=op, input=inp, result=q))
