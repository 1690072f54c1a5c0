"""C01 round trip, C02 decoding, C03 encoding, C12 namespaces, C14 content models."""
import pipe
import docs
import giant
import harness
import inst


def workload(c, prop, n, per, profiles=None, noise=(0, .3, .8), oracles=(), quick_rounds=1, gen_kw=None, budget=600):
    c.distinct_features = set()
    for rnd in pipe.rounds(c, quick_rounds, budget):
        b = harness.Batch(prop.lower())
        ss = pipe.schemas(c, rnd, n, profiles, b)
        gs = giant.schemas(b)
        pipe.build(c, b)
        cases = []
        for i, s in enumerate(ss):
            r = c.rng('docs', rnd, i)
            for k in range(per):
                kw = dict(huge=.1)
                if k % 10 == 9:
                    kw = dict(huge=.5, depth=4)
                kw.update(gen_kw or {})
                x, v = pipe.instance(s, r, **kw)
                d = docs.Noisy(r, r.choice(noise)).doc(x)
                cases.append(pipe.Case(s, x, v, d, s.mod + ':Root'))
            if i % 8 == 0:
                # long lists, long texts
                g = inst.Gen(r, huge=.9, depth=4)
                g.budget = 3000
                g.big_text = 2
                x, v = g.root(s.roots[0])
                cases.append(pipe.Case(s, x, v, docs.Noisy(r, .2).doc(x), s.mod + ':Root'))
        pipe.run(c, b, cases)
        pipe.judge(c, cases, oracles)
        giant.check(c, rnd, b, gs, oracles)
        c.count('documents decoded', sum(1 for k in cases if k.res and 'dbg' in k.res))
        c.count('documents encoded', sum(1 for k in cases if k.res and 'xml' in k.res))
        c.count('largest document (bytes)', 0)
        c.counts['largest document (bytes)'] = max([c.counts['largest document (bytes)']] + [len(k.doc) for k in cases])
    pipe.finish(c)


def c01(c):
    workload(c, 'C01', 220, 40, oracles=[pipe.o_roundtrip])
    known(c, 'C01')


def c02(c):
    workload(c, 'C02', 220, 40, oracles=[pipe.o_decode], noise=(0, .3, .8, 1.0))
    known(c, 'C02')


def c03(c):
    workload(c, 'C03', 220, 40, oracles=[pipe.o_encode], noise=(0, .2))



def c14(c):
    prof = [dict(group=.5, choice_top=.35, all_top=.15, attrs=.15, enums=.1, ext=.1, names='plain'),
            dict(group=.6, choice_top=.3, all_top=.0, attrs=.1, ext=.0, depth=4, names='cased'),
            dict(group=.3, choice_top=.1, all_top=.7, attrs=.1, ext=.1),
            dict(group=.4, choice_top=.1, all_top=.0, attrs=.1, ext=.7, named_types=5),
            dict(group=.4, rec=.6, choice_top=.4, attrs=.1),
            dict(group=.5, width=7, big=.2, attrs=.1),
            dict(group=.2, echo=.9, choice_top=.05, all_top=0, ext=.1, attrs=.1, width=3),
            dict(group=.1, choice_top=.4, all_top=.1, attrs=.1, ext=.1, huge=True)]
    workload(c, 'C14', 240, 40, prof, oracles=[pipe.o_decode, pipe.o_encode, pipe.o_roundtrip], noise=(0, .3))


# ------------------------------------------------------------ shapes the random workload leaves out (some are known findings)

XS = 'xmlns:xs="http://www.w3.org/2001/XMLSchema"'
TEXT = ('<xs:schema %s><xs:element name="Root"><xs:complexType><xs:sequence><xs:element name="e" type="xs:string"/></xs:sequence>'
        '<xs:attribute name="a" type="xs:string" use="required"/></xs:complexType></xs:element></xs:schema>' % XS)
KNOWN = {
    'C01': [('carriage-return-in-text', TEXT, '<Root a="x"><e>one&#13;two</e></Root>', 'one\\rtwo'),
            ('tab-in-attribute', TEXT, '<Root a="one&#9;two"><e>x</e></Root>', 'one\\ttwo'),
            ('line-feed-in-attribute', TEXT, '<Root a="one&#10;two"><e>x</e></Root>', 'one\\ntwo'),
            ('carriage-return-in-attribute', TEXT, '<Root a="one&#13;two"><e>x</e></Root>', 'one\\rtwo'),
            ('ampersand-in-namespace', TEXT.replace('<xs:schema', '<xs:schema targetNamespace="urn:a&amp;b" elementFormDefault="qualified"'),
             '<Root xmlns="urn:a&amp;b" a="x"><e>y</e></Root>', '"y"')],
    'C02': [('choice-of-optional-elements',
             '<xs:schema %s><xs:element name="Root"><xs:complexType><xs:choice><xs:element name="a" type="xs:string" minOccurs="0"/>'
             '<xs:element name="b" type="xs:string" minOccurs="0"/></xs:choice></xs:complexType></xs:element></xs:schema>' % XS,
             '<Root/>', 'Root')],
}


def known(c, prop):
    b = harness.Batch(prop.lower() + '-known')
    cases = []
    for case, xsd, doc, want in KNOWN[prop]:
        m = b.add({'main.xsd': xsd})
        cases.append((case, xsd, doc, want, m + ':Root'))
    pipe.build(c, b)
    for (case, xsd, doc, want, key), q in zip(cases, b.run([(k[4], k[2]) for k in cases])):
        if q is None:
            continue
        c.seen(case, doc)
        bad = pipe.crashed(q)
        if not bad and 'err' in q:
            bad = 'a valid document is rejected: ' + q['err']
        if not bad and want not in q['dbg']:
            bad = 'decoded as ' + q['dbg']
        if not bad and prop == 'C01':
            bad = rt(q)
        if bad:
            c.violate('%s: %s\ndocument: %s' % (case, bad, doc), dict(files={'main.xsd': xsd}, type='Root', doc=doc, result=q), case=case)


def rt(q):
    if 'enc_err' in q:
        return 'encoding fails: ' + q['enc_err']
    if q.get('rt') != '=':
        return 'decoding the encoded value gives something else: %s' % q.get('rt', '')[:300]
    return None
