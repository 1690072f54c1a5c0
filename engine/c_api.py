"""The generated code as an API: C08 it compiles, C11 builtin types, C13 enumerations,
C17 names and types."""
import dbg
import docs
import gen
import harness
import inst
import model
import mutate
import pipe
from c_reject import expected_error
from inflect import raw, snake, pascal, ident
from model import *


# ------------------------------------------------------------ compile-time monitors

def ascribe(mod, decls):
    """Rust code that only compiles if the module offers exactly these items, members and types."""
    out = []
    for n, d in enumerate(decls):
        name = raw(d.name)
        bound = 'fn b%d() { super::need::<%s>(); }' % (n, name)
        if d.kind == 'struct':
            pat = ', '.join('%s: f%d' % (raw(m[0]), i) for i, m in enumerate(d.members))
            body = 'let %s { %s } = v;' % (name, pat)
            body += ''.join(' let _: %s = f%d;' % (m[1], i) for i, m in enumerate(d.members))
        elif d.kind == 'tuple':
            body = 'let %s(f0) = v; let _: %s = f0;' % (name, d.members[0][1])
        elif d.kind == 'enum':
            body = 'match v { %s }' % ' '.join('%s::%s => (),' % (name, raw(m[0])) for m in d.members)
            bound += ' fn e%d() { super::need_enum::<%s>(); let _: fn(&%s) -> &str = |v| v.as_str(); }' % (n, name, name)
        else:
            body = 'match v { %s }' % ' '.join('%s::%s(x) => { let _: %s = x; }' % (name, raw(m[0]), m[1])
                                               for m in d.members)
        out.append('fn f%d(v: %s) { %s } %s' % (n, name, body, bound))
    return 'mod chk_%s { use super::%s::*; %s }' % (mod, mod, ' '.join(out))


PRELUDE = ('fn need<T: ::std::fmt::Debug + ::std::clone::Clone + ::std::cmp::PartialEq + ::std::marker::Send + '
           '::std::marker::Sync>() {} fn need_enum<T: ::std::str::FromStr + ::std::fmt::Display>() {}')


class ApiBatch(harness.Batch):
    def source(self, mods):
        src, where = super().source(mods)
        return src + PRELUDE + '\n', where


# ------------------------------------------------------------ C08

KEYWORDS = ('as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref '
            'return self Self static struct super trait true type unsafe use where while async await dyn abstract become '
            'box do final macro override priv typeof unsized virtual yield try gen union raw auto default macro_rules '
            'safe').split()
PRELUDE_NAMES = ('Some None Ok Err Option Result Vec String Box Default Clone Debug PartialEq Eq Iterator Into From ToString '
                 'AsRef ToOwned Drop Fn FnMut Send Sync Sized Copy Display FromStr Error Name Node Document Context XmlEvent '
                 'FromXmlError EventWriter std core alloc xsd xml decode rust_decimal Decimal bool char str i32 i64 u64 f32 '
                 'usize u8 vec format panic println assert matches derive doc allow cfg test inline node ctx writer val value '
                 'body input data name text parent lookahead attr element root err e s v f a w n x result from_xml to_xml '
                 'from_xml_node to_xml_writer as_str from_str fmt clone eq into_owned document variant base start end is_empty '
                 'map iter next parse trim').split()
XML_NAMES = ['a', 'A', 'a1', 'a-1', 'a_1', '_', '_a', '__', 'a-', 'a.', 'a.b', 'a--b', 'a..b', 'a_-b', 'A_B', 'aB', 'AB', 'ABc',
             'aBC', 'A1B', '_1', '-'.join('abc'), 'x' * 200, 'é', 'É', 'éa', 'ß', 'Straße', 'größe', 'имя', 'Имя', '名', '名前',
             'αβ', 'Ω', 'ﬁ', 'İ', 'ı', 'ǆ', 'a\u0301', 'ñandú', 'aé', 'Éa', 'a·b', 'xÆ', 'ა', 'ა1', 'हिन्दी', 'a\u203fb']
for _c in list(XML_NAMES):
    assert _c


def named_schemas(n):
    """A name in every position in which a schema can have a name."""
    S = Builtin

    def schema(items):
        f = File('main.xsd', None, False)
        f.items = items
        s = Schema(f, [f])
        s.roots = [i for i in items if isinstance(i, GlobalElem) and i.name == 'Root']
        return s
    # the members first: field, attribute, variant, group, element with inline content
    root = Complex(None, Group('seq', [
        Elem(n, S('int'), 0, 1),
        Elem('inner', Complex(None, Group('choice', [Elem(n, S('string')), Elem('other', S('int'))])), 0, 1),
        Elem('deep', Complex(None, Group('seq', [Elem(n, Complex(None, Group('seq', [Elem('leaf', S('boolean'))])), 0, 1)])), 0, 1),
        Elem('group', Complex(None, Group('seq', [
            Group('choice', [Elem(n, S('string'), 1, 1), Elem('otherway', S('int'))], 0, None)])), 0, 1),
    ]), [])
    yield 'member', [GlobalElem('Root', root)]
    root = Complex(None, Group('seq', [
        Elem('only', Complex(None, SimpleExt(S('string')), [Attr(n, S('int'))]), 0, 1),
        Elem('all', Complex(None, Group('all', [Elem(n, S('string'), 0, 1), Elem('second', S('int'), 1, 1)])), 0, 1),
        Elem('list', Complex(None, Group('seq', [Elem(n, S('string'), 0, None)], 0, None)), 0, 1)
        if False else Elem('list', Complex(None, Group('seq', [Elem(n, S('string'), 1, 1), Elem('tail', S('string'), 0, 1)],
                                                       1, None)), 0, 1),
    ]), [Attr(n, S('string'), 'required')])
    yield 'attribute', [GlobalElem('Root', root)]
    # a complex type
    t = Complex(n, Group('seq', [Elem('leaf', S('int'))]), [Attr('k', S('string'))])
    ext = Complex('Extended', ComplexExt(t, Group('seq', [Elem('more', S('int'))])))
    ext2 = Complex('Plain2', ComplexExt(t, None))
    root = Complex(None, Group('seq', [Elem('e', t), Elem('list', t, 0, None), Elem('x', ext, 0, 1), Elem('y', ext2, 0, 1)]))
    yield 'complexType', [t, ext, ext2, GlobalElem('Root', root)]
    # a simple type, an enumeration
    t = Simple(n, 'int')
    root = Complex(None, Group('seq', [Elem('e', t), Elem('list', t, 0, None),
                                       Elem('c', Complex(None, SimpleExt(t), [Attr('k', t)]), 0, 1)]), [Attr('att', t)])
    yield 'simpleType', [t, GlobalElem('Root', root)]
    t = Simple(n, 'string', enums=[n, 'other', n + 'x'])
    root = Complex(None, Group('seq', [Elem('e', t), Elem('list', t, 0, None),
                                       Elem('c', Complex(None, SimpleExt(t), [Attr('k', t)]), 0, 1)]), [Attr('att', t)])
    yield 'enumeration', [t, GlobalElem('Root', root)]
    # a global element
    g = GlobalElem(n, Complex(None, Group('seq', [Elem('leaf', S('int'))])))
    root = Complex(None, Group('seq', [Elem(None, ref=g), Elem('more', Complex(None, Group('choice', [Elem(None, ref=g),
                                                                                                 Elem('no', S('int'))])))]))
    yield 'element', [g, GlobalElem('Root', root)]
    g = GlobalElem(n, S('string'))
    root = Complex(None, Group('seq', [Elem(None, ref=g, min=0, max=None)]))
    yield 'simple element', [g, GlobalElem('Root', root)]


def make_schema(items, tns=None, qualified=False):
    f = File('main.xsd', tns, qualified)
    if tns:
        f.prefixes[tns] = 't'
    f.items = items
    s = Schema(f, [f])
    s.roots = [i for i in items if isinstance(i, GlobalElem) and i.name == 'Root']
    s.decls = assign_names(s)
    s.texts = render_xsd(s)
    return s


XS = '<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema">%s</xs:schema>'
_R = '<xs:element name="Root"><xs:complexType>%s</xs:complexType></xs:element>'

# accepted schemas whose code does not compile: known findings, one specific schema each
KNOWN_C08 = {
    'attribute-and-element-of-one-name': _R % ('<xs:sequence><xs:element name="id" type="xs:int"/></xs:sequence>'
                                               '<xs:attribute name="id" type="xs:int"/>'),
    'type-and-element-of-one-spelling': '<xs:complexType name="Item"><xs:sequence/></xs:complexType>'
                                        '<xs:element name="item" type="Item"/><xs:element name="Root" type="Item"/>',
    'two-choices-of-one-name': _R % ('<xs:sequence><xs:choice><xs:element name="a" type="xs:int"/><xs:element name="b" '
                                     'type="xs:int"/></xs:choice><xs:element name="sep" type="xs:int"/><xs:choice>'
                                     '<xs:element name="a" type="xs:int"/><xs:element name="b" type="xs:int"/></xs:choice>'
                                     '</xs:sequence>'),
    'optional-recursion': '<xs:complexType name="T"><xs:sequence><xs:element name="t" type="T" minOccurs="0"/></xs:sequence>'
                          '</xs:complexType><xs:element name="Root" type="T"/>',
}


def c08(c):
    c.distinct_features = set()
    known_cases(c, KNOWN_C08)
    for rnd in pipe.rounds(c, 1):
        b = harness.Batch('c08', crates=16)
        ss = []
        if rnd == 0:
            for n in sorted(set(KEYWORDS + PRELUDE_NAMES + XML_NAMES)):
                for where, items in named_schemas(n):
                    try:
                        s = make_schema(items)
                    except Collision:
                        c.count('name and position outside of the model (collision)')
                        continue
                    s.mod = b.add(s.texts)
                    s.what = '%s named %s' % (where, n)
                    ss.append(s)
                    c.seen('name', n, where)
            # every printable character as (part of) an enumeration value
            vals = [chr(i) for i in range(32, 127)]
            pools = [vals, ['a' + v for v in vals], [v + 'a' for v in vals], [v + v for v in vals], vals[::-1],
                     gen.ENUMS, [chr(i) for i in range(0xa1, 0x250)], KEYWORDS, PRELUDE_NAMES,
                     [str(i) for i in range(40)], ['', ' ', '  ', '_', '__'], ['Variant%d' % i for i in range(5)] + ['+', '-', '*']]
            for p in pools:
                for cut in (len(p), 7):
                    q = p[:cut]
                    t = Simple('Values', 'string', enums=list(dict.fromkeys(q)))
                    s = make_schema([t, GlobalElem('Root', Complex(None, Group('seq', [Elem('v', t, 0, None)])))])
                    s.mod = b.add(s.texts)
                    s.what = 'enumeration of %r…' % (q[:5],)
                    ss.append(s)
                    c.seen('enum', tuple(q))
        prof = [dict(names='hostile', docs=.4, enums=.5, hostile_enum=.9, group=.4), dict(names='hostile', group=.5, choice_top=.3),
                dict(names='hostile', ext=.5, named_types=6), dict(names='hostile', multifile=.8), dict(names='cased', big=.6),
                dict(names='hostile', rec=.6), dict(names='hostile', attrs=1, depth=4, width=6)]
        gs = pipe.schemas(c, rnd, c.pick(120, 600), prof, b)
        for s in gs:
            s.what = 'random schema'
            c.seen('random', s.texts['main.xsd'])
        ss += gs
        b.build()
        c.count('schemas compiled', len(b.alive))
        by = {s.mod: s for s in ss}
        for m, e in b.broken.items():
            s = by[m]
            c.violate('%s: the generated code does not compile: %s' % (s.what, e[:1500]),
                      dict(files=s.texts, type='Root', doc='<Root/>'))
        # and it runs
        cases = []
        for i, s in enumerate(ss):
            r = c.rng('docs', rnd, i)
            if s.what.endswith('हिन्दी'):
                continue        # how combining marks are spelled in Rust names is not modelled
            for k in range(2):
                x, v = pipe.instance(s, r)
                cases.append(pipe.Case(s, x, v, docs.Noisy(r, 0).doc(x), s.mod + ':Root'))
        pipe.run(c, b, cases)
        pipe.judge(c, cases, [pipe.o_decode, pipe.o_roundtrip])
    pipe.finish(c)


def known_cases(c, table):
    """Accepted schemas whose code is known not to compile."""
    b = harness.Batch('c08k', crates=1)
    for k, t in table.items():
        b.add({'main.xsd': XS % t}, mod=k.replace('-', '_'))
    b.build()
    for k, t in table.items():
        m = k.replace('-', '_')
        # (a schema that is rejected, with the reason, is not accepted)
        if m in b.broken and not b.broken[m].startswith('error: Error on line'):
            c.violate('the generated code does not compile: ' + b.broken[m][:800], dict(files={'main.xsd': XS % t}, type='Root',
                                                                                  doc='<Root/>'), case=k)


# ------------------------------------------------------------ C11

def lit_table(kind):
    """valid lexical forms -> value"""
    if kind == 'str':
        return [(s, s) for s in ['', 'a', ' a ', '\n a', 'a  b', '12:00:00', '2024-02-30', 'PT1H', 'AAAA', 'zz', '-1', 'true', '<&>"\'',
                                 'é', '日本', 'x' * 300, '  ', 'a\nb', '\u00a0', '0', ']]>']]
    if kind == 'bool':
        return [('true', True), ('false', False), ('1', True), ('0', False), (' true ', True), ('\nfalse\n', False), (' 1', True),
                ('0 ', False)]
    if kind in inst.I:
        lo, hi = inst.I[kind]
        vals = {lo, lo + 1, hi, hi - 1, 0, 1, 2, 9, 10, 42, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2**31 - 1, 2**31, 2**31 + 1,
                2**32 - 1, 2**32, 2**53 + 1, 2**63 - 1, 2**63, -1, -2, -128, -129, -2**31, -2**31 - 1, -2**53 - 1}
        res = [(str(v), v) for v in sorted(vals) if lo <= v <= hi]
        res += [('+5', 5), ('007', 7), ('00', 0), ('+0', 0), (' 5 ', 5), ('\n8\n', 8), ('0000000000000000000000000001', 1),
                ('+' + str(hi), hi)]
        if lo < 0:
            res += [('-007', -7), (' -1 ', -1), ('-0', 0)]
        return res
    if kind == 'dec':
        ds = ['0', '1', '-1', '1.5', '-1.5', '0.1', '0.10', '1.00', '100', '000.5', '12345678901234567890.12345',
              '79228162514264337593543950335', '-79228162514264337593543950335', '0.0000000000000000000000000001', '123456.789',
              '-0.5', '99999999999999999999', '18446744073709551616', '3.14159265358979323846']
        return [(d, d) for d in ds] + [('+1', '1'), ('+1.5', '1.5'), (' 2.5 ', '2.5'), ('\n7\n', '7'), ('.5', '0.5'), ('5.', '5'),
                                       ('-.5', '-0.5')]
    fs = ['0', '1', '-1', '1.5', '0.1', '1e3', '1E3', '1e-3', '1.5E+2', '3.4028235e38', '1.17549435e-38', '1e-45', '16777216', '16777217',
          '123456.789', '-2.5', '007', '+1', '.5', '5.', '12.', '1e10', '100', '-1e-10']
    # next to the middle of two floats: right only if rounded once
    fs += ['1.000000059604644775390625', '1.0000000596046447753906250001', '1.0000000596046447753906249999', '1.00000017881393432617187499',
           '1.00000017881393432617187500001', '16777217.0000000000000001', '16777218.9999999999999999', '7.0064923216240853546186479164495e-46',
           '7.0064923216240853546186479164496e-46', '340282346638528859811704183484516925440', '3.40282356779733e38', '1e-46', '0.000001',
           '1234567', '12345678', '123456789', '0.123456789', '9.9999999', '0.3', '33554433', '8388608.5', '8388609.5']
    res = [(f, inst.round32(f)) for f in fs]
    return res + [('INF', float('inf')), ('-INF', float('-inf')), ('NaN', float('nan')), (' 1.5 ', 1.5), ('\n2\n', 2.0), (' INF ', float('inf')),
                  ('\n-INF', float('-inf')), ('NaN\n', float('nan'))]


class LitGen(inst.Gen):
    """Everything present, literals in turn."""
    def __init__(self, r, lits, n):
        super().__init__(r)
        self.lits, self.n = lits, n

    def text_of(self, t, attr=False):
        if isinstance(t, Simple) and t.enums is not None or t is None:
            return super().text_of(t, attr)
        ls = self.lits
        self.n += 1
        l, v = ls[self.n % len(ls)]
        if attr:
            # white space in attributes is normalised by the XML parser
            for w in '\n\t\r':
                l = l.replace(w, ' ')
                v = v.replace(w, ' ') if t.kind == 'str' else v
        return l, t.kind, ('lit', t.kind, v)

    def count(self, p, depth):
        return 3 if p.vec else 1


def builtin_schema(b):
    B = Builtin(b)
    N = Simple('Named', b)
    mk = lambda: Simple(None, b)
    items = [Elem('plain', B), Elem('opt', B, 0, 1), Elem('list', B, 0, None), Elem('some', B, 1, None), Elem('named', N),
             Elem('namedlist', N, 0, None), Elem('inl', Complex(None, SimpleExt(B), [Attr('att', B), Attr('req', N, 'required')])),
             Elem('ext', Complex(None, SimpleExt(N), [])),
             Elem('alt', Complex(None, Group('choice', [Elem('v', B), Elem('w', N)]))),
             Group('choice', [Elem('p', B), Elem('q', N)], 0, None),
             Group('seq', [Elem('g', B), Elem('h', B, 0, 1)], 0, 1),
             Elem('all', Complex(None, Group('all', [Elem('x', B), Elem('y', N, 0, 1)])))]
    if b not in ('any', 'anyType'):
        items.append(Elem('inline', Simple(None, b), 0, 1))
        items.append(Elem('inlines', Simple(None, b), 0, None))
    else:
        # these cannot be restricted
        N = None
        items = [Elem('plain', B), Elem('opt', B, 0, 1), Elem('list', B, 0, None), Elem('some', B, 1, None),
                 Elem('inl', Complex(None, SimpleExt(B), [Attr('att', B)])),
                 Elem('alt', Complex(None, Group('choice', [Elem('v', B), Elem('w', Builtin('string'))]))),
                 Group('choice', [Elem('p', B), Elem('q', B)], 0, None)]
    attrs = [Attr('a-opt', B, None), Attr('a-req', B, 'required')]
    if N is not None:
        attrs += [Attr('a-named', N, 'required'), Attr('a-inline', Simple(None, b), 'optional')]
    out = [make_schema(([N] if N is not None else []) + [GlobalElem('Root', Complex(None, Group('seq', items), attrs))])]
    out.append(make_schema([GlobalElem('Root', B)]))
    if N is not None:
        N2 = Simple('Named', b, facets=[('pattern', '.*')])
        out.append(make_schema([N2, GlobalElem('Root', N2)]))
        out.append(make_schema([GlobalElem('Root', Simple(None, b))]))
    return out


def leaves(x, out=None):
    out = [] if out is None else out
    for a in x.attrs:
        out.append((x, a))
    if x.children is None:
        out.append((x, None))
    for k in x.children or []:
        leaves(k, out)
    return out


def named_handler(mod, name):
    """FromStr and Display of the type of a named simple type"""
    t = '%s::%s' % (mod, raw(name))
    return ('|d, o| { match d.parse::<%s>() { '
            'Err(e) => { o.put("err", &format!("{:?}", e)); o.put("msg", &e.to_string()); } '
            'Ok(v) => { let shown = format!("{}", v); o.put("dbg", &format!("{:?}", v)); o.put("display", &shown); '
            'match shown.parse::<%s>() { Err(e) => o.put("back", &format!("{:?}", e)), '
            'Ok(w) => { o.put("back", &format!("{:?}", w)); o.put("same", if w == v { "=" } else { "!=" }); } } } } }' % (t, t))


def named_literals(c, b, todo):
    """The types of named simple types parse and show the same literals."""
    reqs = []
    for s in todo:
        if not s.named or s.mod in b.broken:
            continue
        kind = BUILTINS[s.builtin][0]
        r = c.rng('named', s.mod)
        good = lit_table(kind) + [inst.gen_lit(r, kind) for _ in range(c.pick(60, 4000))]
        good += [(w + l + w2, v) for (l, v) in lit_table(kind)[:12] for w in ' \t\r\n' for w2 in ('', '\t', '\r\n') if kind != 'str']
        reqs += [(s, kind, l, v, True) for l, v in good] + [(s, kind, l, None, False) for l in bad_literals(kind)]
    res = b.run([(s.mod + ':n', l) for s, _, l, _, _ in reqs])
    for (s, kind, l, v, ok), q in zip(reqs, res):
        if q is None:
            continue
        c.seen(s.mod, 'n', l)
        c.count('%s literals of named types' % ('valid' if ok else 'invalid'))
        bad = pipe.crashed(q)
        if bad:
            pass
        elif ok:
            exp = ('tuple', 'Named', [('lit', kind, v)])
            if 'err' in q:
                bad = 'the literal %r is rejected: %s' % (l, q['err'])
            else:
                bad = dbg.diff(exp, dbg.parse(q['dbg']))
                if not bad and v == v and q.get('same') != '=':
                    bad = '%r is shown as %r, which is parsed as %s' % (l, q['display'], q['back'])
        elif 'err' not in q:
            bad = 'the literal %r is accepted as %s' % (l, q['dbg'])
        else:
            p = dbg.parse(q['err'])
            if p[:2] != ('struct', 'ParseType') or dict(p[2]).get('value') != ('str', l) or dict(p[2]).get('type_')[0] != 'str':
                bad = 'the literal %r is rejected with %s' % (l, q['err'])
            elif dict(p[2])['type_'][1] not in q['msg']:
                bad = 'the message does not name the type: ' + q['msg']
        if bad:
            c.violate('named restriction of xs:%s: %s' % (s.builtin, bad), dict(files=s.texts, type='Root', doc='<Root/>', literal=l, result=q))


def bad_literals(kind):
    bad = list(mutate.BAD.get(kind, []))
    if kind in inst.I:
        lo, hi = inst.I[kind]
        bad += [str(hi + 1), str(lo - 1), str(hi * 10), str(hi + 2**32), str(2**64 + 5), str(-2**64), '1e0', '0.0', '5.']
    if kind in mutate.BAD:
        # white space (and digits) of Unicode, but not of XML
        bad += ['\u00a01', '1\u3000', '\u20031', '1\u0085', '1\u2028', '\ufeff1', '1\u200b', '\uff11', '\u0663', '\u00a0 1 \u00a0']
    return bad


def c11(c):
    c.distinct_features = set()
    b = ApiBatch('c11')
    todo = []
    for name in BUILTINS:
        if name == 'any':
            continue
        for s in builtin_schema(name):
            s.mod = 's%d' % len(b.mods)
            s.named = any(d.name == 'Named' for d in s.decls)
            b.add(s.texts, mod=s.mod, extra=ascribe(s.mod, s.decls), handlers=[('n', named_handler(s.mod, 'Named'))] if s.named else [])
            s.builtin = name
            todo.append(s)
    b.build()
    for s in todo:
        if s.mod in b.broken:
            c.violate('xs:%s: wrong Rust types, or the code does not compile: %s' % (s.builtin, b.broken[s.mod][:1500]),
                      dict(files=s.texts, type='Root', doc='<Root/>'))
    cases = []
    for s in todo:
        kind = BUILTINS[s.builtin][0]
        lits = lit_table(kind)
        r = c.rng('lits', s.mod)
        for rot in range(len(lits)):
            x, v = LitGen(r, lits, rot).root(s.roots[0])
            cases.append(pipe.Case(s, x, v, docs.Noisy(r, 0).doc(x), s.mod + ':Root', 'valid'))
        for n in range(c.pick(30, 3000)):
            # random literals
            rl = [inst.gen_lit(r, kind) for _ in range(40)]
            x, v = LitGen(r, rl, 0).root(s.roots[0])
            cases.append(pipe.Case(s, x, v, docs.Noisy(r, r.choice([0, .3])).doc(x), s.mod + ':Root', 'valid'))
        for l in bad_literals(kind):
            simple = [q for q in lits if '\n' not in q[0] and q[0] == q[0].strip()]
            n = len(leaves(LitGen(r, simple, 0).root(s.roots[0])[0]))
            for k in range(n):
                x, v = LitGen(r, simple, k).root(s.roots[0])
                lv = leaves(x)
                if k >= len(lv):
                    continue        # the other variant of a choice
                e, a = lv[k]
                if a is not None:
                    a[1] = l
                else:
                    e.text = l
                cases.append(pipe.Case(s, x, ('ParseType', dict(type_=BUILTINS[s.builtin][1], value=l)),
                                       docs.Noisy(r, 0, shuffle_all=False).doc(x), s.mod + ':Root', 'invalid'))
    pipe.run(c, b, cases)
    for k in cases:
        if k.res:
            c.count('%s literals of xs:%s' % (k.kind, k.schema.builtin))
    pipe.judge(c, [k for k in cases if k.kind == 'valid'], [pipe.o_decode, pipe.o_encode, pipe.o_roundtrip])
    pipe.judge(c, [k for k in cases if k.kind == 'invalid'], [expected_error])
    named_literals(c, b, todo)
    pipe.finish(c)


# ------------------------------------------------------------ C13

def enum_handler(mod, name):
    t = '%s::%s' % (mod, raw(name))
    return ('|d, o| { let p = d.parse::<%s>(); match p { '
            'Err(e) => { o.put("err", &format!("{:?}", e)); o.put("msg", &e.to_string()); } '
            'Ok(v) => { o.put("dbg", &format!("{:?}", v)); o.put("as_str", v.as_str()); o.put("display", &format!("{}", v)); '
            'o.put("padded", &format!("{:>0}", v)); '
            'o.put("back", match v.as_str().parse::<%s>() { Ok(w) if w == v => "=", _ => "!=" }); '
            'o.put("clone", if v.clone() == v { "=" } else { "!=" }); } } }' % (t, t))


def enum_cmp(mod, name):
    """two literals separated by \\u{1}: are the values equal?"""
    t = '%s::%s' % (mod, raw(name))
    return ('|d, o| { let (a, b) = d.split_once(\'\\u{1}\').unwrap(); match (a.parse::<%s>(), b.parse::<%s>()) { '
            '(Ok(a), Ok(b)) => o.put("eq", if a == b { "yes" } else { "no" }), _ => o.put("eq", "error") } }' % (t, t))


def enum_values(r, k):
    """a list of distinct literals"""
    n = r.choice([1, 2, 3, 5, 8, 20, 60, 200])
    if k == 0:
        pool = gen.ENUMS
    elif k == 1:
        pool = [''.join(r.choice('abAB-_ .1é') for _ in range(r.randint(0, 5))) for _ in range(300)]
    elif k == 2:
        pool = [chr(i) for i in range(32, 127)] + [chr(i) for i in range(0xa1, 0x180)]
    elif k == 3:
        w = r.choice(['value', 'Value', 'v-a', 'x'])
        pool = [w, w.upper(), w.lower(), w + '1', w + '_1', w + '-1', w + ' 1', w + '.1', ' ' + w, w + ' ', w[:-1], w + w, '_' + w, '-' + w]
    elif k == 4:
        pool = [str(i) for i in range(-5, 40)] + ['0%d' % i for i in range(10)] + ['%d.0' % i for i in range(5)]
    else:
        pool = gen.PLAIN + gen.CASED + gen.KEYWORDS
    pool = list(dict.fromkeys(pool))
    return r.sample(pool, min(n, len(pool)))


def c13(c):
    c.distinct_features = set()
    for rnd in pipe.rounds(c, 1):
        b = ApiBatch('c13')
        ss = []
        for i in range(c.pick(90, 200)):
            r = c.rng('enum', rnd, i)
            A = Simple('Alpha', 'string', enums=enum_values(r, i % 6))
            if i in (3, 4):
                # more values than fit into a byte
                A = Simple('Alpha', 'string', enums=['%s%d' % (r.choice(['v', 'V', 'w-', 'x.']), k) for k in range(c.pick(700, 2500))])
            B = Simple(None, 'string', enums=enum_values(r, r.randrange(6)))
            C = Simple(None, 'string', enums=enum_values(r, r.randrange(6)))
            root = Complex(None, Group('seq', [
                Elem('a', A), Elem('opt', A, 0, 1), Elem('list', A, 0, None), Elem('b', B, 1, 1),
                Group('choice', [Elem('p', A), Elem('q', Builtin('string'))], 0, None),
                Elem('ext', Complex(None, SimpleExt(A), [Attr('k', A)]), 0, 1)]),
                [Attr('att', A), Attr('inl', C, 'required')])
            s = make_schema([A, GlobalElem('Root', root)])
            s.enums = [A, B, C]
            s.mod = 's%d' % len(b.mods)
            hs = []
            for n, e in enumerate(s.enums):
                hs += [('e%d' % n, enum_handler(s.mod, e.rust)), ('c%d' % n, enum_cmp(s.mod, e.rust))]
            b.add(s.texts, mod=s.mod, extra=ascribe(s.mod, s.decls), handlers=hs)
            ss.append(s)
        pipe.build(c, b)
        cases, docc = [], []
        for i, s in enumerate(ss):
            r = c.rng('lits', rnd, i)
            for n, e in enumerate(s.enums):
                vals = e.enums
                for var, v in e.variants:
                    cases.append((s, 'e%d' % n, v, ('ok', var, v)))
                unknown = {'', ' ', 'x', 'None', 'Unknown'}
                for v in vals[:12]:
                    unknown |= {v + 'x', v[:-1], v.swapcase(), v + ' ', ' ' + v, v * 2, v.replace('-', '_'), v.replace('_', '-'),
                                v.upper(), v.lower(), v.replace(' ', ''), v + '\n', v.title(), '\u00a0' + v, v + '\x00',
                                '\ufeff' + v} | set(mutate.near(r, v))
                unknown |= {var for var, _ in e.variants[:6]}
                for v in sorted(unknown - set(vals)):
                    # whitespace around a value is not judged
                    if v.strip() in {q.strip() for q in vals}:
                        continue
                    cases.append((s, 'e%d' % n, v, ('err', v)))
                for _ in range(20):
                    p, q = r.choice(vals), r.choice(vals)
                    cases.append((s, 'c%d' % n, p + '\x01' + q, ('eq', 'yes' if p == q else 'no')))
            for k in range(8):
                x, v = pipe.instance(s, r)
                docc.append(pipe.Case(s, x, v, docs.Noisy(r, r.choice([0, .4])).doc(x), s.mod + ':Root'))
        res = b.run([(s.mod + ':' + k, d) for s, k, d, _ in cases])
        for (s, k, d, exp), q in zip(cases, res):
            if q is None:
                continue
            c.seen(s.mod, k, d)
            c.count({'ok': 'declared literals', 'err': 'other literals', 'eq': 'pairs compared'}[exp[0]])
            bad = pipe.crashed(q)
            if bad:
                pass
            elif exp[0] == 'ok':
                want = dict(as_str=exp[2], display=exp[2], padded=exp[2], back='=', clone='=')
                if 'dbg' not in q:
                    bad = 'declared value rejected: ' + q['err']
                elif q['dbg'] != exp[1]:
                    bad = 'value %r became variant %s instead of %s' % (exp[2], q['dbg'], exp[1])
                else:
                    bad = next(('%s is %r instead of %r' % (f, q.get(f), w) for f, w in want.items() if q.get(f) != w), None)
            elif exp[0] == 'err':
                if 'err' not in q:
                    bad = 'value %r, which is not declared, became %s' % (d, q['dbg'])
                else:
                    p = dbg.parse(q['err'])
                    if p[:2] != ('struct', 'InvalidVariant') or dict(p[2]).get('name') != ('str', d):
                        bad = 'value %r is rejected with %s' % (d, q['err'])
                    elif d not in q['msg']:
                        bad = 'the message does not name the value: ' + q['msg']
            elif q['eq'] != exp[1]:
                bad = 'equality of %r and %r: %s' % (*d.split('\x01'), q['eq'])
            if bad:
                c.violate('enumeration: %s' % bad, dict(files=s.texts, type='Root', doc='<Root/>', literal=d, result=q))
            else:
                c.sample(dict(literal=d, result=q), 2)
        pipe.run(c, b, docc)
        pipe.judge(c, docc, [pipe.o_decode, pipe.o_encode, pipe.o_roundtrip])
    pipe.finish(c)


# ------------------------------------------------------------ C17

def c17(c):
    c.distinct_features = set()
    prof = pipe.PROFILES + [dict(group=.5, choice_top=.4, names='cased'), dict(ext=.6, named_types=6, names='cased'),
                            dict(enums=.6, attrs=.9, hostile_enum=.6)]
    for rnd in pipe.rounds(c, 1):
        b = ApiBatch('c17')
        ss = pipe.schemas(c, rnd, c.pick(230, 300), prof, b, decorate=lambda s, r: ascribe(s.mod, s.decls))
        b.build()
        for s in ss:
            for d in s.decls:
                c.seen(d.kind, tuple(m[:2] for m in d.members), d.name)
                c.count({'struct': 'structs', 'tuple': 'tuple structs', 'enum': 'enumerations', 'choice': 'choices'}[d.kind])
                c.count('members', len(d.members))
            if s.mod in b.broken:
                c.violate('the module does not offer the promised items, members and types: ' + b.broken[s.mod][:1500],
                          dict(files=s.texts, type='Root', doc='<Root/>', promised=[(d.kind, d.name, d.members) for d in s.decls]))
            else:
                c.sample(dict(schema=s.texts['main.xsd'][:600], promised=[(d.kind, d.name, [m[:2] for m in d.members])
                                                                         for d in s.decls][:6]), 2)
        c.count('modules', len(b.alive))
        cases = []
        for i, s in enumerate(ss):
            r = c.rng('docs', rnd, i)
            for k in range(4):
                x, v = pipe.instance(s, r)
                cases.append(pipe.Case(s, x, v, docs.Noisy(r, 0).doc(x), s.mod + ':Root'))
        pipe.run(c, b, cases)
        pipe.judge(c, cases, [pipe.o_decode])
    pipe.finish(c)
