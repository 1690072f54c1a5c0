"""C05: decoding is total, deterministic and bounded.  C10: so is the schema front end."""
import os
import glob
import time
import c_front
import docs
import fuzz
import gen
import harness
import model
import mutate
import pipe
from model import *

XS = '<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema">%s</xs:schema>'


def directed_schemas():
    """Shapes in which resource use could depend on something else than the document."""
    e = '<xs:element name="Root"><xs:complexType>%s</xs:complexType></xs:element>'
    res = {
        'occurs': XS % (e % '<xs:sequence><xs:element name="a" type="xs:string" minOccurs="0" maxOccurs="100000000"/>'
                            '<xs:element name="b" type="xs:int" maxOccurs="2147483647"/></xs:sequence>'),
        'choice': XS % (e % '<xs:sequence><xs:choice minOccurs="0" maxOccurs="unbounded"><xs:element name="a" type="xs:string"/>'
                            '<xs:element name="b" type="xs:int"/><xs:sequence><xs:element name="c" type="xs:string"/>'
                            '<xs:element name="d" type="xs:string" minOccurs="0"/></xs:sequence></xs:choice></xs:sequence>'),
        'group': XS % (e % '<xs:sequence minOccurs="0" maxOccurs="unbounded"><xs:element name="a" type="xs:string"/>'
                           '<xs:element name="b" type="xs:string" minOccurs="0"/></xs:sequence>'),
        'all': XS % (e % ('<xs:all>%s</xs:all>' % ''.join('<xs:element name="a%d" type="xs:string" minOccurs="0"/>' % i
                                                          for i in range(20)))),
        'text': XS % '<xs:element name="Root" type="xs:string"/>',
        'attr': XS % (e % '<xs:attribute name="k" type="xs:string"/><xs:attribute name="n" type="xs:decimal"/>'),
        'rec': XS % ('<xs:complexType name="N"><xs:sequence><xs:element name="n" type="N" minOccurs="0" maxOccurs="unbounded"/>'
                     '</xs:sequence><xs:attribute name="k" type="xs:string"/></xs:complexType>'
                     '<xs:element name="Root" type="N"/>'),
    }
    return res


def directed_docs(n):
    """name -> {schema: document of size n}"""
    return [
        ('occurs', '<Root>' + '<a>x</a>' * n + '<b>1</b></Root>'),
        ('occurs', '<Root><a/><b>1</b><b>2</b></Root>'),
        ('occurs', '<Root>' + '<z/>' * n + '</Root>'),
        ('occurs', '<Root><b>1</b>' + ('\n<!-- c -->' * n) + '</Root>'),
        ('choice', '<Root>' + '<a>x</a><b>1</b><c>y</c>' * (n // 3) + '</Root>'),
        ('choice', '<Root>' + '<c>x</c><d>y</d>' * (n // 2) + '<e/></Root>'),
        ('group', '<Root>' + '<a>1</a><b>2</b>' * (n // 2) + '</Root>'),
        ('group', '<Root>' + '<a>1</a>' * n + '<z/></Root>'),
        ('all', '<Root>' + '<a19>x</a19><a0>y</a0>' + '</Root>'),
        ('all', '<Root>' + '<z>x</z>' * n + '<a3>y</a3></Root>'),
        ('all', '<Root>' + '<a5>x</a5>' * n + '</Root>'),
        ('text', '<Root>' + 'lorem &amp; ' * n + '</Root>'),
        ('text', '<Root>' + '<![CDATA[x]]><!-- c -->y' * n + '</Root>'),
        ('text', '<Root>' + '&#65;' * n + '</Root>'),
        ('text', '<Root>' + 'y<?p?>' * n + '</Root>'),
        ('text', '<Root>' + '<!-- c -->' * n + '</Root>'),
        ('occurs', '<Root><b>' + '1<?p?>' * n + '</b></Root>'),
        ('attr', '<Root k="' + 'x&lt;' * n + '" n="1"/>'),
        ('attr', '<Root ' + ' '.join('a%d="v"' % i for i in range(min(n, 3000))) + ' k="1"/>'),
        ('attr', '<Root ' + ' '.join('xmlns:a%d="urn:%d"' % (i, i) for i in range(min(n, 1000))) + ' k="1"/>'),
        ('attr', '<Root n="' + '1' * n + '"/>'),
        ('attr', '<Root n="0.' + '0' * n + '1"/>'),
        ('rec', '<Root>' + '<n k="1"/>' * n + '</Root>'),
        ('rec', '<Root>' + '<n><n/><n/></n>' * (n // 3) + '</Root>'),
    ]


# bytes of heap per byte of input: a node of the XML tree and a field per element of a few bytes, with ample room
FACTOR, BASE = 400, 400_000


def o_total(case):
    q = case.res
    d = pipe.crashed(q)
    if d:
        return d
    if 'err' in q:
        if q['again'] != q['err']:
            return 'a second decoding ends differently: %s / %s' % (q['err'][:200], q['again'][:200])
        if not q['msg']:
            return 'an error without a message: ' + q['err'][:200]
    else:
        if q['again'] != '=':
            return 'a second decoding gives a different value: %s / %s' % (q['dbg'][:300], q['again'][:300])
        if 'clone' in q:
            return 'a clone differs from the value: ' + q['dbg'][:300]
        if 'enc_again' in q:
            return 'a second encoding gives a different document: ' + q['dbg'][:300]
    lim = BASE + case.extra * len(case.doc.encode())
    if q['peak'] > lim:
        return 'decoding %d bytes took %d bytes of heap (limit %d)' % (len(case.doc.encode()), q['peak'], lim)
    return None


class S:
    pass


def c05(c, instrumented=None):
    harness.STACK = 8 * 2**20
    c.distinct_features = set()
    maxratio = 0
    for rnd in pipe.rounds(c, 1):
        b = harness.Batch('c05')
        ss = pipe.schemas(c, rnd, c.pick(150, 200), None, b)
        ds = {}
        for k, t in directed_schemas().items():
            s = S()
            s.texts = {'main.xsd': t}
            s.mod = b.add(s.texts)
            ds[k] = s
        pipe.build(c, b)
        cases = []
        for i, s in enumerate(ss):
            r = c.rng('docs', rnd, i)
            pool = []
            for k in range(6):
                x, _ = pipe.instance(s, r, huge=.05)
                pool.append(docs.Noisy(r, r.choice([0, .3])).doc(x))
            # structs can be large compared to the element that makes them: four entries of a Vec per element
            fac = 6000
            for k in range(c.pick(60, 100)):
                if k % 20 == 19:
                    d = r.choice([fuzz.BOMB, '<Root>' + '<a>' * 400 + '</a>' * 400 + '</Root>', '<Root/>', '<Root></Root>',
                                  '<Root xmlns="urn:a"/>', mutate.malform(r, pool[0]) or ''])
                elif k % 3 == 0:
                    x, _ = pipe.instance(s, r)
                    mutate.poison(x, r)
                    d = docs.Noisy(r, r.choice([0, .2])).doc(x)
                else:
                    d = fuzz.mutate(r, r.choice(pool), r.choice(pool))
                cases.append(pipe.Case(s, None, None, d, s.mod + ':Root', 'fuzz', fac))
        for n in (0, 1, 7, 300, 4000):
            for k, d in directed_docs(n):
                cases.append(pipe.Case(ds[k], None, None, d, ds[k].mod + ':Root', 'directed', FACTOR))
        r = c.rng('directed', rnd)
        base = directed_docs(20)
        for _ in range(c.pick(600, 2000)):
            k, d = r.choice(base)
            cases.append(pipe.Case(ds[k], None, None, fuzz.mutate(r, d, r.choice(base)[1]), ds[k].mod + ':Root', 'fuzz', FACTOR))
        pipe.run(c, b, cases)
        for k in cases:
            q = k.res
            if q:
                c.count('outcome: ' + ('decoded' if 'dbg' in q else q['err'].split(' ')[0].split('(')[0] if 'err' in q else
                                       'abnormal'))
                if k.kind == 'directed' and 'peak' in q and len(k.doc) > 4000:
                    maxratio = max(maxratio, q['peak'] / len(k.doc.encode()))
        pipe.judge(c, cases, [o_total])
        # the deepest documents: within the bound the property states
        deep = []
        for depth in (10, 100, 500):
            d = '<Root>' + '<n>' * depth + '</n>' * depth + '</Root>'
            deep.append(pipe.Case(ds['rec'], None, None, d, ds['rec'].mod + ':Root', 'deep', FACTOR))
        pipe.run(c, b, deep)
        pipe.judge(c, deep, [o_total])
        # everything that is allocated is given back
        import c_indep
        per = {}
        r = c.rng('leaks', rnd)
        for k in r.sample(cases, min(len(cases), 3000)):
            if len(k.doc) < 3000 and k.res and 'peak' in k.res:
                per.setdefault(b.ws.bin(b.home[k.schema.mod], None), []).append(
                    (k.key, k.doc, k, 'ok' if 'dbg' in k.res else k.res.get('err', '').split(' ')[0]))
        c_indep.hammer(c, 'repeated decoding', [(x, c_indep.few(r, ks, 12)) for x, ks in sorted(per.items())], c.pick(400, 2000),
                       lambda k, q: k[2].replay(report=q))
        if rnd == 0:
            known_deep(c, b, ds)
            scaling(c, b, ds)
            if c.thorough:
                addresses(c)
    c.counts['largest heap per input byte (documents over 4 kB)'] = round(maxratio, 1)
    pipe.finish(c)


TRIPLE = 'x86_64-unknown-linux-gnu'
ASAN = dict(extra=['+nightly', '-Zbuild-std', '--target', TRIPLE], env=dict(RUSTFLAGS='-Zsanitizer=address'))
ASAN_RUN = dict(ASAN_OPTIONS='detect_leaks=0:halt_on_error=1:abort_on_error=0')


def addresses(c):
    """The same under AddressSanitizer (nightly, together with an instrumented standard library)."""
    b = harness.Batch('c05-asan')
    ss = pipe.schemas(c, 'asan', 60, None, b)
    b.ws.target = os.path.join(harness.BUILD, 'target-asan')
    b.build(**ASAN)
    cases = []
    for i, s in enumerate(ss):
        r = c.rng('asan', i)
        pool = [docs.Noisy(r, .3).doc(pipe.instance(s, r, huge=.05)[0]) for _ in range(5)]
        for k in range(60):
            d = r.choice(pool) if k % 4 == 0 else fuzz.mutate(r, r.choice(pool), r.choice(pool))
            cases.append(pipe.Case(s, None, None, d, s.mod + ':Root', 'asan', 1 << 20))
    for k, q in zip(cases, b.run([(k.key, k.doc) for k in cases], env=ASAN_RUN)):
        if q is None:
            continue
        c.seen('asan', k.schema.mod, k.doc)
        c.count('decoded and encoded under AddressSanitizer')
        bad = pipe.crashed(q)
        if bad:
            c.violate('AddressSanitizer: %s\ndocument: %s' % (bad, k.doc[:800]), k.replay())


def known_deep(c, b, ds):
    d = '<Root>' + '<n>' * 20000 + '</n>' * 20000 + '</Root>'
    k = pipe.Case(ds['rec'], None, None, d, ds['rec'].mod + ':Root', 'deep', FACTOR)
    pipe.run(c, b, [k])
    if k.res and pipe.crashed(k.res):
        c.violate('20000 nested elements: ' + pipe.crashed(k.res)[:300], k.replay(), case='nesting-20000')


def cpu(b, key, doc):
    """CPU seconds of one case, measured around a process of its own."""
    import resource
    t0 = resource.getrusage(resource.RUSAGE_CHILDREN)
    q = b.run([(key, doc)], jobs=1)[0]
    t1 = resource.getrusage(resource.RUSAGE_CHILDREN)
    return t1.ru_utime + t1.ru_stime - t0.ru_utime - t0.ru_stime, q


def scaling(c, b, ds):
    """CPU time must not grow with the square of the document."""
    small, large = dict(), dict()
    for n, out in ((50000, small), (400000, large)):
        for i, (k, d) in enumerate(directed_docs(n)):
            if len(d) < n or k == 'rec':
                continue
            t, q = cpu(b, ds[k].mod + ':Root', d)
            c.seen('scaling', i, n)
            if q and pipe.crashed(q):
                c.violate(pipe.crashed(q)[:300], dict(files=ds[k].texts, type='Root', doc=d[:2000]))
            out[i] = (t, k, d)
    for i in large:
        t, k, d = large[i]
        s = small[i][0]
        # linear: 8 times; quadratic: 64 times
        if t > 3 and t > 30 * max(s, .02):
            t = min(t, cpu(b, ds[k].mod + ':Root', d)[0])
            s = max(s, cpu(b, ds[k].mod + ':Root', small[i][2])[0])
            if t > 3 and t > 30 * max(s, .02):
                c.violate('CPU time grows out of proportion: %.2f s for %d bytes, %.2f s for %d bytes: %s…' % (
                    s, len(small[i][2]), t, len(d), d[:100]), dict(files=ds[k].texts, type='Root', doc=d[:2000]))
    c.counts['slowest of the largest documents (CPU s)'] = round(max(t for t, _, _ in large.values()), 2)


# ------------------------------------------------------------ C10

def corpus():
    out = []
    for p in sorted(glob.glob(os.path.join(harness.REPO, '**/*.xsd'), recursive=True)):
        if '/target/' in p:
            continue
        try:
            with open(p) as f:
                out.append(f.read())
        except OSError:
            pass
    return out


XDICT = ['xs:element', 'xs:complexType', 'xs:simpleType', 'xs:sequence', 'xs:choice', 'xs:all', 'xs:attribute', 'xs:restriction',
         'xs:extension', 'xs:simpleContent', 'xs:complexContent', 'xs:enumeration', 'xs:annotation', 'xs:documentation', 'xs:any',
         'xs:group', 'xs:import', 'xs:include', 'xs:pattern', 'xs:minLength', 'xs:schema', 'xs:list', 'xs:union', 'xs:key']
XATTR = ['name', 'type', 'base', 'ref', 'minOccurs', 'maxOccurs', 'use', 'fixed', 'default', 'value', 'form', 'mixed',
         'schemaLocation', 'namespace', 'targetNamespace', 'elementFormDefault', 'nillable', 'abstract', 'xmlns', 'xmlns:t']
XVAL = ['', 'a', 'A', 'xs:string', 'xs:int', 'xs:nope', 'xs:', ':', ':a', 'a:', 'a:b:c', 'unbounded', '0', '1', '-1', '2',
        '4294967296', '99999999999999999999', '1.5', 'required', 'optional', 'prohibited', 'true', 'false', '1', 'qualified', 'unqualified',
        'self', 'type', 'Root', '日本', 'é', 'ß', 'a b', '-', '_', '1a', '\u0301', 'ﬁ', 'ǆ', 'İ', 'A-', '--', 'x' * 300, '${}', '..', '/',
        'main.xsd', '.', 'nonexistent.xsd', 'http://x/y.xsd', 't:a', 't:Root', 'string', '\U0001f600']


def xmut(r, s, other):
    """schema mutations that keep the XML well-formed most of the time"""
    k = r.random()
    if k < .15:
        return fuzz.mutate(r, s, other)
    t = fuzz.TOK.findall(s)
    for _ in range(r.choice([1, 1, 1, 2, 3, 6])):
        idx = [i for i, x in enumerate(t) if x.startswith('<') and len(x) > 3 and x[1] not in '!?/']
        if not idx:
            break
        i = r.choice(idx)
        k = r.randrange(8)
        if k == 0:
            # another value for an attribute
            m = list(fuzz.re.finditer(r'([\w:]+)=("[^"]*"|\'[^\']*\')', t[i]))
            if m:
                a = r.choice(m)
                t[i] = t[i][:a.start(2)] + '"%s"' % r.choice(XVAL) + t[i][a.end(2):]
        elif k == 1:
            m = list(fuzz.re.finditer(r'\s[\w:]+=("[^"]*"|\'[^\']*\')', t[i]))
            if m:
                a = r.choice(m)
                t[i] = t[i][:a.start()] + t[i][a.end():]
        elif k == 2:
            n = r.choice(XATTR)
            if ' %s=' % n not in t[i]:
                t[i] = fuzz.re.sub(r'^(<[\w:.-]+)', lambda m: m.group(1) + ' %s="%s"' % (n, r.choice(XVAL)), t[i])
        elif k == 3:
            # another element name (self-closing ones are easy to keep well-formed)
            if t[i].endswith('/>'):
                t[i] = fuzz.re.sub(r'^<[\w:.-]+', '<' + r.choice(XDICT), t[i])
        elif k == 4:
            t.insert(i, '<%s %s="%s" %s="%s"/>' % (r.choice(XDICT), r.choice(XATTR[:6]), r.choice(XVAL),
                                                  r.choice(XATTR[6:]), r.choice(XVAL)))
        elif k == 5 and t[i].endswith('/>'):
            del t[i]
        elif k == 6 and t[i].endswith('/>'):
            j = r.choice(idx)
            t.insert(j, t[i])
        elif k == 7:
            t[i] = t[i].replace(r.choice(['xs:', 'xsd:', '"', 'name']), r.choice(['', 'q:', 'xs:', "'"]), 1)
    s = ''.join(t)
    if r.random() < .25:
        s = fuzz.subtree(r, s)
    return s.encode('utf-8', 'ignore').decode('utf-8', 'ignore')[:200000]


def o_front(q, text):
    d = pipe.crashed(q)
    if d:
        return d
    if q.get('mem', 0) > 16_000_000 + 12000 * len(text):
        return 'parsing %d bytes of schema took %d bytes of heap' % (len(text), q['mem'])
    if 'err' in q and not q.get('msg'):
        return 'an error without a message'
    if 'notrust' in q:
        return 'the generated code is not Rust: %s' % q['notrust'][:300]
    return None


def c10(c):
    harness.STACK = 8 * 2**20
    d = harness.Driver().build()
    scratch = os.path.join(harness.BUILD, 'c10')
    os.makedirs(scratch, exist_ok=True)
    files = corpus()
    for rnd in pipe.rounds(c, 1):
        cases = []
        r = c.rng('schemas', rnd)
        pool = list(files)
        for i in range(60):
            s = gen.make(r, gen.Opts(**pipe.PROFILES[i % len(pipe.PROFILES)]))
            pool += list(model.render_xsd(s, r).values())
        # names that differ inside a character
        for i in range(40):
            s = gen.make(r, gen.Opts(names='bytes', **[dict(group=.5, choice_top=.7), dict(group=.3, ext=.5, named_types=6)][i % 2]))
            for n, t in model.render_xsd(s).items():
                cases.append(('parse', os.path.join(scratch, 'm.xsd') + '\n' + t, t))
                pool.append(t)
        for i in range(c.pick(12000, 40000)):
            r = c.rng('mut', rnd, i)
            t = xmut(r, r.choice(pool), r.choice(pool))
            if i % 13 == 0:
                cases.append(('node', scratch + '\n' + '<wsdl>' + t + '</wsdl>' if not t.startswith('<?') else scratch + '\n' + t, t))
            else:
                cases.append(('parse', os.path.join(scratch, 'm.xsd') + '\n' + t, t))
        # characters of several bytes at every place of every kind of value
        for i in range(c.pick(5000, 20000)):
            r = c.rng('value', rnd, i)
            t = r.choice(pool)
            places = {}
            for m in fuzz.re.finditer(r'\s([\w:]+)=("[^"<]*"|\'[^\'<]*\')', t):
                places.setdefault(m.group(1).partition(':')[0], []).append(m)
            if not places:
                continue
            m = r.choice(places[r.choice(sorted(places))])
            old, ch, k = m.group(2)[1:-1], r.choice('\u00e9\u00df\u4e2d\u0301\U0001f600\u00a0'), r.randrange(18)
            new = r.choice([old[:k] + ch + old[k:], 'unbounded'[:k] + ch, '1' * k + ch * 3, '-' + '9' * k + ch, ch * k, 'xs:' + 'a' * k + ch, ch * k + ':x',
                            'a' * k + ch + 'b' * k, '1.' + '0' * k + ch])
            t = t[:m.start(2) + 1] + new + t[m.end(2) - 1:]
            c.count('values with characters of several bytes')
            cases.append(('parse', os.path.join(scratch, 'm.xsd') + '\n' + t, t))
        # documents that a file system can offer: empty, not UTF-8, directories, cycles
        w = os.path.join(scratch, 'fs')
        os.makedirs(os.path.join(w, 'dir.xsd'), exist_ok=True)
        for n, data in (('empty.xsd', b''), ('bin.xsd', b'\xff\xfe\x00\x01'), ('utf16.xsd', '<a/>'.encode('utf-16')),
                        ('self.xsd', (XS % '<xs:include schemaLocation="self.xsd"/>').encode()),
                        ('a.xsd', (XS % '<xs:include schemaLocation="b.xsd"/><xs:element name="a" type="B"/>').encode()),
                        ('b.xsd', (XS % '<xs:include schemaLocation="./a.xsd"/><xs:simpleType name="B"><xs:restriction '
                                        'base="xs:int"/></xs:simpleType>').encode()),
                        ('up.xsd', (XS % '<xs:include schemaLocation="../fs/up.xsd"/>').encode()),
                        ('alias.xsd', (XS % '<xs:element name="a" type="b"/><xs:element name="b" type="a"/>').encode()),
                        ('alias3.xsd', (XS % '<xs:element name="a" type="b"/><xs:element name="b" type="c"/>'
                                             '<xs:element name="c" type="a"/><xs:element name="d" type="a"/>').encode()),
                        ('same.xsd', (XS % '<xs:element name="a" type="a"/>').encode()),
                        ('bom.xsd', b'\xef\xbb\xbf' + (XS % '<xs:element name="a" type="xs:int"/>').encode())):
            with open(os.path.join(w, n), 'wb') as f:
                f.write(data)
            cases.append(('file', os.path.join(w, n), n))
        # circles of aliases in another namespace than the one of the file that is asked for
        for k in (1, 2, 3, 5):
            for kind, link in (('import', 'import namespace="urn:o"'), ('include', 'include')):
                ns = ' targetNamespace="urn:o" xmlns="urn:o"' if kind == 'import' else ''
                circle = ''.join('<xs:element name="c%d" type="c%d"/>' % (j, (j + 1) % k) for j in range(k))
                t = {'main.xsd': XS % ('<xs:%s schemaLocation="o.xsd"/><xs:element name="z" type="xs:int"/>' % link),
                     'o.xsd': (XS % circle).replace('<xs:schema', '<xs:schema' + ns, 1)}
                cases.append(('file', os.path.join(c_front.write_files('c10/a%d%s' % (k, kind), t), 'main.xsd'), t['o.xsd']))
                c.count('circles of aliases in other files')
        for n in ('dir.xsd', 'missing.xsd', '', 'x' * 5000, 'a/../a.xsd'):
            cases.append(('file', os.path.join(w, n), n))
        # many and deep
        for n in (500, 3000):
            t = XS % ''.join('<xs:element name="e%d" type="xs:int"/>' % i for i in range(n))
            cases.append(('parse', 'm.xsd\n' + t, t))
        t = 'xs:string'
        body = '<xs:sequence><xs:element name="a" type="xs:int"/></xs:sequence>'
        for i in range(60):
            body = '<xs:sequence><xs:element name="n%d"><xs:complexType>%s</xs:complexType></xs:element></xs:sequence>' % (i, body)
        t = XS % ('<xs:complexType name="T">%s</xs:complexType>' % body)
        cases.append(('parse', 'm.xsd\n' + t, t))
        t = XS % ('<xs:element name="r" type="t0"/>' + ''.join('<xs:element name="t%d" type="t%d"/>' % (i, i + 1) for i in range(2000))
                  + '<xs:simpleType name="t2000"><xs:restriction base="xs:int"/></xs:simpleType>')
        cases.append(('parse', 'm.xsd\n' + t, t))
        # the items of each element, where very many paths lead from type to type
        for k, (what, t) in enumerate(c_front.meshes()):
            c.count('schemas with very many paths between types')
            cases.append(('elements', os.path.join(c_front.write_files('c10/m%d' % k, {'main.xsd': t}), 'main.xsd'), t))
        for (op, inp, text), q in zip(cases, d.run([k[:2] for k in cases])):
            if q is None:
                continue
            out = 'accepted' if 'items' in q else q.get('err', 'not Rust' if 'notrust' in q else 'abnormal')
            if q.get('err') == 'Xsd':
                out += ' ' + fuzz.re.split(r'[ ({]', q['detail'])[0]
                m = fuzz.re.match(r'Node\((\w+)', q['detail'])
                out += ' ' + m.group(1) if m else ''
            c.count('outcome: ' + out)
            c.seen(text if len(text) > 40 and 'Xml' not in out else None)
            bad = o_front(q, text)
            if bad:
                c.violate('%s\nschema: %s' % (bad, text[:1500]), dict(op=op, input=inp, result=q))
            elif 'items' in q or 'err' in q and 'Xml' not in out:
                c.sample(dict(schema=text[:500], outcome=out), 2)
