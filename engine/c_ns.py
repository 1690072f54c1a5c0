"""C12: namespaces and forms of elements and attributes."""
import copy
import dbg
import docs
import harness
import mutate
import pipe
import c_reject
from inst import X
from model import Elem

NS = [dict(ns=k, multifile=m, group=g, names=n, choice_top=.25, attrs=.5)
      for k in ('qual', 'unq', 'none', 'qual-nons') for m, g, n in ((.9, .25, 'plain'), (.5, .4, 'cased'))]
NS += [dict(ns='qual', near_ns=1, multifile=1, named_types=5), dict(ns='unq', near_ns=1, multifile=1, named_types=5)] * 2
NS += [dict(ns='qual', many_ns=1.0, depth=1, width=2), dict(ns='qual', builtin_names=.7, named_types=5, multifile=.5),
       dict(ns='unq', builtin_names=.6, named_types=5, multifile=.3), dict(ns='none', builtin_names=.6, named_types=5, multifile=.0)]

FAULTS = ('change namespace', 'change namespace of variant', 'root namespace')


def strangers(x, r):
    """[(label, mutated copy)]: optional things moved to another namespace."""
    out = []
    nodes = mutate.walk(x)
    opt = [e for e, p in nodes if p is not None and isinstance(e.info, Elem) and (e.info.min == 0 or e.info.vec)]
    if opt:
        e = r.choice(opt)
        old = e.ns
        e.ns = r.choice(['urn:other', None if old is not None else 'urn:other2'] + ([old + '#', old.upper() + '/'] if old else []))
        d = docs.Noisy(r, r.choice([0, .3])).doc(x)
        e.ns = old
        out.append(('optional element in another namespace', d))
    return out


def c12(c):
    c.distinct_features = set()
    for rnd in pipe.rounds(c, 1):
        b = harness.Batch('c12')
        ss = pipe.schemas(c, rnd, c.pick(200, 240), NS, b)
        known = scenarios(b) if rnd == 0 else []
        pipe.build(c, b)
        good, bad, pairs = [], [], []
        for i, s in enumerate(ss):
            r = c.rng('docs', rnd, i)
            key = s.mod + ':Root'
            for k in range(16):
                x, v = pipe.instance(s, r, huge=.02)
                first = pipe.Case(s, x, v, docs.Noisy(r, r.choice([.3, .8, 1])).doc(x), key)
                good.append(first)
                # the same document with other prefixes and default namespaces is the same document
                good.append(pipe.Case(s, x, v, docs.Noisy(r, 1).doc(x), key))
                for label, d in strangers(x, r):
                    pairs.append((label, first, pipe.Case(s, x, v, d, key, label), 'differs'))
                atts = [(e, a) for e, _ in mutate.walk(x) for a in e.attrs]
                if atts:
                    e, a = r.choice(atts)
                    old = list(e.attrs)
                    ns = r.choice(['urn:other', s.main.tns or 'urn:other', e.ns or 'urn:other'])
                    k2 = [n for n, q in enumerate(e.attrs) if q is a][0]
                    e.attrs = [q for q in old if q is not a]
                    without = docs.Noisy(r, 0).doc(x)
                    # the attribute in a namespace is not the attribute of the schema
                    e.attrs = old[:k2] + [['zzq:' + a[0], a[1], a[2], a[3]]] + old[k2 + 1:] + [['xmlns:zzq', ns, 'str', None]]
                    moved = docs.Noisy(r, 0).doc(x)
                    # ... and does not get into the way of it
                    e.attrs = [['zzq:' + a[0], 'other value', 'str', None], ['xmlns:zzq', ns, 'str', None]] + old
                    both = docs.Noisy(r, r.choice([0, .5])).doc(x)
                    # xml: is bound without a declaration
                    e.attrs = old[:k2] + [['xml:' + a[0], a[1], a[2], a[3]]] + old[k2 + 1:]
                    xml = docs.Noisy(r, 0).doc(x)
                    e.attrs = old
                    pairs.append(('attribute in the namespace of XML', pipe.Case(s, x, v, without, key),
                                  pipe.Case(s, x, v, xml, key, 'attribute in the namespace of XML'), 'same'))
                    pairs.append(('attribute in a namespace', pipe.Case(s, x, v, without, key),
                                  pipe.Case(s, x, v, moved, key, 'attribute in a namespace'), 'same'))
                    good.append(pipe.Case(s, x, v, both, key, 'attribute of the same name in a namespace'))
                cand = [q for q in mutate.candidates(x, r) if q[0] in FAULTS]
                kind = r.choice(sorted({q[0] for q in cand}))
                kind, do, exp = r.choice([q for q in cand if q[0] == kind])
                x2 = x
                do()
                bad.append(pipe.Case(s, x2, exp, docs.Noisy(r, r.choice([0, .3]), extras=False).doc(x2), key, kind))
        # the faults change the instances, so the good ones are judged against snapshots: see Case.x below
        cases = good + bad + [k for p in pairs for k in p[1:3] if k not in good]
        pipe.run(c, b, cases)
        pipe.judge(c, good, [pipe.o_decode, pipe.o_roundtrip])
        c.count('documents with foreign prefixes and defaults', len(good))
        for k in bad:
            c.count('fault: ' + k.kind)
        pipe.judge(c, bad, [c_reject.expected_error])
        for label, a, k, how in pairs:
            if a.res is None or k.res is None:
                continue
            c.seen(label, k.schema.mod, k.doc)
            c.count('fault: ' + label)
            d = pipe.crashed(a.res) or pipe.crashed(k.res)
            if not d:
                x1, x2 = (q.get('dbg') or q.get('err') for q in (a.res, k.res))
                if how == 'same' and x1 != x2:
                    d = 'not treated like an absent one: %s / %s' % (x1[:500], x2[:500])
                elif how == 'differs' and 'dbg' in k.res and x1 == x2:
                    d = 'taken for the element of the schema: %s' % x2[:500]
            if d:
                c.violate('%s: %s\ndocument: %s' % (label, d, k.doc[:800]), k.replay())
        encoded(c, rnd, b, ss)
        for key, case, files, doc, ok in known:
            q = b.run([(key, doc)])[0]
            c.seen(case, doc)
            if isinstance(ok, str):
                c.count('fault: almost the namespace')
                if pipe.crashed(q) or not q.get('err', '').startswith('MissingElement { name: "%s"' % ok):
                    c.violate('%s: %s in another namespace is taken for the element of the schema: %s\ndocument: %s' % (case, ok, q, doc),
                              dict(files=files, type='Root', doc=doc, result=q), case=case)
                continue
            bad = pipe.crashed(q) or ('a valid document is rejected: %s' % q['err'] if 'err' in q else None) or ok(q)
            if bad:
                c.violate('%s: %s\ndocument: %s' % (case, bad, doc), dict(files=files, type='Root', doc=doc, result=q), case=case)
    pipe.finish(c)


def encoded(c, rnd, b, ss):
    """What the encoder writes has the intended namespaces: fresh instances, because the ones above have been spoilt."""
    cases = []
    for i, s in enumerate(ss):
        r = c.rng('enc', rnd, i)
        for _ in range(8):
            x, v = pipe.instance(s, r, huge=.02)
            cases.append(pipe.Case(s, x, v, docs.Noisy(r, .5).doc(x), s.mod + ':Root'))
    pipe.run(c, b, cases)
    pipe.judge(c, cases, [pipe.o_encode])
    c.count('documents encoded and compared', len(cases))


XS = 'xmlns:xs="http://www.w3.org/2001/XMLSchema"'
LOCAL = '<xs:complexType name="T"><xs:sequence><xs:element name="inner" type="xs:string"/></xs:sequence></xs:complexType>'


def scenarios(b):
    """Shapes that the random schemas leave out, because rkusa/xsd gets them wrong (known findings)."""
    out = []

    def add(case, files, doc, ok):
        m = b.add(files)
        out.append((m + ':Root', case, files, doc, ok))

    def reads(text, ns):
        def ok(q):
            if text not in q['dbg']:
                return 'decoded as %s' % q['dbg']
            if 'enc_err' in q:
                return 'encoding fails: %s' % q['enc_err']
            n = docs.parse_xml(q['xml'])
            i = [e for e in flat(n) if e.name == 'inner']
            if len(i) != 1 or i[0].ns != ns:
                return 'encoded as %s' % q['xml']
            return None
        return ok

    def flat(n):
        return [n] + [k for ch in n.children for k in flat(ch)]
    add('import-unqualified-into-qualified', {
        'main.xsd': '<xs:schema %s xmlns:b="urn:b" targetNamespace="urn:a" elementFormDefault="qualified"><xs:import namespace="urn:b" '
                    'schemaLocation="b.xsd"/><xs:element name="Root"><xs:complexType><xs:sequence><xs:element name="outer" type="b:T"/>'
                    '</xs:sequence></xs:complexType></xs:element></xs:schema>' % XS,
        'b.xsd': '<xs:schema %s targetNamespace="urn:b">%s</xs:schema>' % (XS, LOCAL)},
        '<Root xmlns="urn:a"><outer><inner xmlns="">hello</inner></outer></Root>', reads('"hello"', None))
    add('include-unqualified-into-qualified', {
        'main.xsd': '<xs:schema %s xmlns:a="urn:a" targetNamespace="urn:a" elementFormDefault="qualified"><xs:include '
                    'schemaLocation="b.xsd"/><xs:element name="Root"><xs:complexType><xs:sequence><xs:element name="outer" type="a:T"/>'
                    '</xs:sequence></xs:complexType></xs:element></xs:schema>' % XS,
        'b.xsd': '<xs:schema %s targetNamespace="urn:a">%s</xs:schema>' % (XS, LOCAL)},
        '<Root xmlns="urn:a"><outer><inner xmlns="">hello</inner></outer></Root>', reads('"hello"', None))
    add('chameleon-include', {
        'main.xsd': '<xs:schema %s xmlns:a="urn:a" targetNamespace="urn:a" elementFormDefault="qualified"><xs:include '
                    'schemaLocation="b.xsd"/><xs:element name="Root" type="a:T"/></xs:schema>' % XS,
        'b.xsd': '<xs:schema %s elementFormDefault="qualified">%s</xs:schema>' % (XS, LOCAL)},
        '<Root xmlns="urn:a"><inner>hello</inner></Root>', reads('"hello"', 'urn:a'))
    # namespaces are compared as strings: two that are almost the same are two
    for k, (one, two) in enumerate(NEAR):
        q = [a.replace('&', '&amp;') for a in (one, two)]
        files = {
            'main.xsd': '<xs:schema %s xmlns:a="%s" xmlns:b="%s" targetNamespace="%s" elementFormDefault="qualified"><xs:import namespace="%s" '
                        'schemaLocation="b.xsd"/>%s<xs:element name="Root"><xs:complexType><xs:sequence><xs:element name="p" type="a:T"/>'
                        '<xs:element name="q" type="b:V"/><xs:element ref="b:R"/></xs:sequence></xs:complexType></xs:element></xs:schema>'
                        % (XS, q[0], q[1], q[0], q[1], LOCAL),
            'b.xsd': '<xs:schema %s xmlns:b="%s" targetNamespace="%s" elementFormDefault="qualified">%s<xs:element name="R" type="b:U"/>%s</xs:schema>'
                     % (XS, q[1], q[1], LOCAL.replace('"T"', '"V"').replace('inner', 'other'), LOCAL.replace('"T"', '"U"').replace('inner', 'third'))}
        doc = '<Root xmlns="%s" xmlns:z="%s"><p><inner>v1</inner></p><q><z:other>v2</z:other></q><z:R><z:third>v3</z:third></z:R></Root>' % tuple(q)

        def ok(res, one=one, two=two):
            bad = [v for v in ('"v1"', '"v2"', '"v3"') if v not in res['dbg']]
            if bad:
                return '%s missing: decoded as %s' % (bad, res['dbg'])
            if 'enc_err' in res:
                return 'encoding fails: %s' % res['enc_err']
            got = {e.name: e.ns for e in flat(docs.parse_xml(res['xml']))}
            want = dict(Root=one, p=one, inner=one, q=one, other=two, R=two, third=two)
            return None if got == want else 'encoded as %s' % res['xml']
        add('near-namespaces-%d' % k, files, doc, ok)
        for name, ns in (('Root', two), ('p', two), ('inner', two), ('q', two), ('other', one), ('R', one), ('third', one)):
            n = dict(Root=one, p=one, inner=one, q=one, other=two, R=two, third=two)
            n[name] = ns
            n = {a: v.replace('&', '&amp;') for a, v in n.items()}
            el = lambda a, c: '<%s xmlns="%s">%s</%s>' % (a, n[a], c, a)
            d = el('Root', el('p', el('inner', 'v1')) + el('q', el('other', 'v2')) + el('R', el('third', 'v3')))
            out.append((out[-1][0], 'near-namespaces-%d' % k, files, d, name))
    return out


NEAR = [('urn:a', 'urn:A'), ('urn:a', 'URN:A'), ('http://example.com/ns', 'http://example.com/ns/'), ('http://example.com/ns', 'https://example.com/ns'),
        ('http://example.com/ns', 'http://Example.com/ns'), ('http://example.com/a', 'http://example.com/%61'), ('urn:a', 'urn:a#'), ('urn:a b', 'urn:a%20b'),
        ('urn:é', 'urn:e\u0301'), ('http://example.com/x?a=1&b=2', 'http://example.com/x?b=2&a=1'), ('urn:x:1', 'urn:x:10'), ('urn:x', 'x'),
        ('http://www.w3.org/2001/XMLSchemaX', 'http://www.w3.org/2001/xmlschema'), ('/a/./b', '/a/b'), ('urn:a', 'urn:a\u200b')]
