"""The common workload: random schemas compiled by the real macro, random
documents decoded, encoded and decoded again by the generated code."""
import random
import time
import gen
import model
import inst
import docs
import dbg
import harness
from model import Group, Elem, Complex, Simple, Builtin, SimpleExt, ComplexExt, GlobalElem


# ------------------------------------------------------------ features (for evidence)

def features(s):
    """Which schema constructs a schema uses."""
    out = set()
    seen = set()

    def occ(p):
        return '%s%s' % ('?' if p.min == 0 else '1' if p.min == 1 else '2', '*' if p.vec else '')

    def typ(t):
        if t is None:
            return 'untyped'
        if isinstance(t, Builtin):
            return t.name
        if isinstance(t, Simple):
            return ('named ' if t.name else 'inline ') + ('enum' if t.enums is not None else 'simple')
        complex_(t)
        return 'named complex' if t.name else 'inline complex'

    def group(g, where):
        out.add('%s %s in %s' % (g.kind, occ(g), where))
        for i in g.items:
            if isinstance(i, Elem):
                out.add('%selement %s of %s in %s%s' % ('ref ' if i.ref else '', occ(i), typ(i.etype), g.kind,
                                                       ' fixed' if i.efixed is not None else ''))
                if i.form:
                    out.add('form ' + i.form)
            else:
                group(i, g.kind)

    def complex_(c):
        if id(c) in seen:
            return
        seen.add(id(c))
        k = c.content
        if isinstance(k, Group):
            group(k, 'type')
        elif isinstance(k, SimpleExt):
            if isinstance(k.base, Complex):
                out.add('simpleContent of simpleContent')
                complex_(k.base)
            else:
                out.add('simpleContent of ' + typ(k.base))
        elif isinstance(k, ComplexExt):
            out.add('complexContent' + (' with sequence ' + occ(k.seq) if k.seq else ''))
            complex_(k.base)
            if k.seq:
                group(k.seq, 'extension')
        else:
            out.add('empty type')
        for a in c.attrs:
            out.add('attribute %s %s%s%s' % (a.use, typ(a.type), ' fixed' if a.fixed else '', ' default' if a.default else ''))
    for f in s.files:
        out.add('file qualified=%s tns=%s' % (f.qualified, f.tns is not None))
        for k, _, _ in f.links:
            out.add(k)
        for i in f.items:
            if isinstance(i, GlobalElem):
                out.add('global element of ' + typ(i.type))
            elif isinstance(i, Complex):
                complex_(i)
    return out


class Case:
    __slots__ = ('schema', 'x', 'v', 'doc', 'res', 'key', 'kind', 'extra')

    def __init__(self, schema, x, v, doc, key, kind='', extra=None):
        self.schema, self.x, self.v, self.doc, self.key, self.kind, self.extra = schema, x, v, doc, key, kind, extra
        self.res = None

    def replay(self, **kw):
        return dict(files=self.schema.texts, type=self.key.split(':')[1], doc=self.doc, expected=repr(self.v)[:20000],
                    result=self.res, **kw)


PROFILES = [
    dict(),
    dict(names='cased', docs=.2),
    dict(names='hostile', docs=.3),
    dict(names='cased', group=.45, choice_top=.3, all_top=.15),
    dict(attrs=.9, enums=.4),
    dict(ext=.5, names='cased'),
    dict(multifile=.8),
    dict(ns='qual', multifile=.4),
    dict(ns='unq', multifile=.4, names='cased'),
    dict(rec=.5, depth=2),
    dict(big=.4, width=7),
    dict(names='bytes', group=.4, choice_top=.4),
    dict(huge=True, choice_top=.4),
]


def schemas(c, key, n, profiles=None, batch=None, decorate=None, xml_noise=True):
    """n random schemas, added to the batch."""
    out = []
    profiles = profiles or PROFILES
    for i in range(n):
        r = c.rng('schema', key, i)
        s = gen.make(r, gen.Opts(**profiles[i % len(profiles)]))
        s.texts = model.render_xsd(s, r if xml_noise else None)
        s.rng = r
        s.mod = 's%d' % len(batch.mods)
        extra = decorate(s, r) if decorate else ''
        batch.add(s.texts, extra=extra, mod=s.mod)
        out.append(s)
        for f in features(s):
            c.distinct_features.add(f)
    return out


def build(c, batch):
    batch.build()
    c.count('schemas compiled', len(batch.alive))
    if batch.broken:
        c.count('schemas that did not compile', len(batch.broken))
        for m in batch.mods:
            if m['mod'] in batch.broken:
                c.violate('a schema of the supported subset is not turned into code that compiles: %s'
                          % batch.broken[m['mod']][:1200], dict(files=m['files'], doc='<Root/>', type='Root'))
        if len(batch.broken) > len(batch.mods) // 2 or not batch.alive:
            raise harness.Inconclusive('most generated modules do not compile: ' + list(batch.broken.values())[0][:1500])
    return batch


def instance(s, r, **kw):
    return inst.Gen(r, **kw).root(s.roots[0])


def run(c, batch, cases, env=None):
    for k, q in zip(cases, batch.run([(k.key, k.doc) for k in cases], env=env)):
        k.res = q
    return cases


# ------------------------------------------------------------ oracles

def crashed(q):
    """Abnormal ends are violations whatever the property."""
    if 'panic' in q:
        return 'panic: ' + q['panic']
    if 'crash' in q:
        return 'process ended abnormally (%s): %s' % (q['crash'], q.get('stderr', '')[-300:])
    if 'hang' in q:
        return 'did not terminate within %s s of CPU time' % q['hang']
    if 'overbudget' in q:
        return 'exceeded the memory budget'
    return None


def o_decode(case):
    q = case.res
    d = crashed(q)
    if d:
        return d
    if 'err' in q:
        return 'a valid document is rejected: ' + q['err']
    try:
        p = dbg.parse(q['dbg'])
    except dbg.DbgError as e:
        return 'unexpected Debug output: %s' % e
    d = dbg.diff(case.v, p)
    return d and 'decoded value is wrong: ' + d


def o_roundtrip(case):
    q = case.res
    d = crashed(q)
    if d:
        return d
    if 'err' in q:
        return 'a valid document is rejected: ' + q['err']
    if 'enc_err' in q:
        return 'encoding a decoded value fails: ' + q['enc_err']
    if q.get('rt') != '=':
        return 'decoding the encoded value gives something else: %s\nvalue: %s\nencoded: %s' % (
            q.get('rt', '')[:600], q['dbg'][:600], q.get('xml', '')[:600])
    if 'clone' in q:
        return 'the clone of a decoded value differs from it'
    if 'enc_again' in q:
        return 'the same value is encoded differently the second time'
    if 'reenc' in q:
        return 'equal values are encoded differently: %s' % q['reenc'][:600]
    return None


def o_encode(case):
    q = case.res
    d = crashed(q)
    if d:
        return d
    if 'err' in q:
        return 'a valid document is rejected: ' + q['err']
    if 'enc_err' in q:
        return 'encoding a decoded value fails: ' + q['enc_err']
    try:
        n = docs.parse_xml(q['xml'])
    except docs.XmlError as e:
        return 'encoded document is not well-formed: %s\n%s' % (e, q['xml'][:1000])
    d = docs.infoset_diff(case.x, n)
    return d and 'encoded document is wrong: %s\n%s' % (d, q['xml'][:1000])


def judge(c, cases, oracles, label=''):
    for k in cases:
        if k.res is None:
            c.count('cases without a result')
            continue
        if len(k.doc) > 40:
            c.seen(k.schema.mod, k.doc)
        else:
            c.seen()
        for o in oracles:
            d = o(k)
            if d:
                c.violate('%s\ndocument: %s' % (d, k.doc[:800]), k.replay(oracle=o.__name__))
                break
        else:
            if len(k.doc) > 60:
                c.sample(dict(schema=list(k.schema.texts.values())[0][:700], document=k.doc[:500],
                              decoded=(k.res.get('dbg') or k.res.get('err') or '')[:400]), 2)


def rounds(c, quick, budget=600):
    """Round numbers: a fixed number in the quick tier, as many as fit into the budget otherwise."""
    if not c.thorough:
        yield from range(quick)
        return
    n = 0
    longest = 0
    while n < quick or c.time_left(budget) > longest * 1.3:
        t = time.time()
        yield n
        longest = max(longest, time.time() - t)
        n += 1
        if len(c.violations) > 20:
            break


def finish(c):
    c.counts['distinct schema constructs'] = len(c.distinct_features)
    c.counts['constructs'] = sorted(c.distinct_features)[:400]
