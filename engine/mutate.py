"""Turns a valid document into one that is invalid in exactly one place, together
with the error a decoder has to report for it."""
from model import Elem, Group, Builtin, Simple, BUILTINS
from inst import X, I

BAD = {
    'bool': ['', 'yes', 'TRUE', 'True', '2', '01', 'tru', 't rue', 'truefalse', '-1', 'on', ' '],
    'i32': ['', 'a', '1.0', '1e3', '0x10', '2147483648', '-2147483649', '99999999999999999999', '1 2', '--1', '+', '-',
            '1_000', '1,000', '٣', '1a', 'NaN', ' ', '+-1'],
    'i64': ['', 'a', '1.0', '9223372036854775808', '-9223372036854775809', '1 2', '--1', '-', '0b1', '1_000', '1a',
            '99999999999999999999999'],
    'u64': ['', '-1', '-5', 'a', '18446744073709551616', '1.0', '1 2', '+', '0x1', '1a', '-18446744073709551615'],
    'dec': ['', 'a', '1.2.3', '1,5', '1a', '.', '-', '0x1', '1 2', '--1', 'NaN', 'INF', '$1', '1_000', '1_0.5', '_1', '1e2', '1E2', '٣', '1d'],
    'f32': ['', 'a', '1.2.3', '1,5', '1e', 'e5', '1 2', '--1', '0x1p3', '1f', '.', '1e5.5', 'inf', '-inf', 'Inf', 'infinity', 'Infinity', '-Infinity', 'nan', 'NAN', '-NaN',
            '1_0', 'INFINITY', 'nanx', '∞', '٣', '+', '1e+', '1e5e5'],
}


def walk(x, parent=None, out=None):
    out = [] if out is None else out
    out.append((x, parent))
    for c in x.children or []:
        walk(c, x, out)
    return out


def anchored(x, c, g, inst, pos):
    """Is there a required element of this group instance before position pos?"""
    for d in x.children:
        if d is c:
            return False
        if d.path and d.path[-1] == (g, inst) and isinstance(d.info, Elem) and d.info.min >= 1 and not d.info.vec:
            ix = [i for i, it in enumerate(g.items) if it is d.info]
            if ix and ix[0] < pos:
                return True
    return False


def decided(x, c, path):
    """Does the decoder have to be inside of all these group instances even without c?"""
    inner = c.info
    for n in range(len(path) - 1, -1, -1):
        g, inst = path[n]
        pos = [i for i, it in enumerate(g.items) if it is inner]
        outer = path[n - 1][0] if n else None
        variant = outer is not None and outer.kind == 'choice'
        if g.kind == 'choice':
            pass
        elif g.kind == 'all':
            if g.min != 1:
                return False
        elif variant or g.min != 1 or g.vec:
            if not pos or not anchored(x, c, g, inst, pos[0]):
                return False
            return True         # everything further out is decided by the same element
        inner = g
    return True


def ns(v):
    return 'Some(%s)' % v if v is not None else 'None'


class Mutation:
    def __init__(self, kind, do, check, what):
        self.kind, self.do, self.check, self.what = kind, do, check, what


def missing_element(name, nsv):
    return ('MissingElement', dict(name=name, namespace=nsv))


def candidates(x, r):
    """[(kind, apply function, expected error)]"""
    out = []
    for e, parent in walk(x):
        info = e.info
        if parent is not None and isinstance(info, Elem) and info.min >= 1 and not info.vec and e.path:
            g = e.path[-1][0]
            if g.kind != 'choice' and decided(parent, e, e.path):
                exp = missing_element(e.name, e.ns)
                out.append(('remove element', lambda e=e, p=parent: p.children.remove(e), exp))

                def rename(e=e):
                    e.name = e.name + 'x' if r.random() < .5 else e.name.swapcase() if e.name.swapcase() != e.name else 'zz'
                out.append(('rename element', rename, exp))

                def renamespace(e=e):
                    e.ns = 'urn:other' if e.ns is None else r.choice([n for n in (None, 'urn:other', e.ns + '/', e.ns.swapcase()) if n != e.ns])
                out.append(('change namespace', renamespace, exp))
                if g.kind == 'seq' and parent.children[-1] is not e:
                    def move(e=e, p=parent):
                        p.children.remove(e)
                        p.children.append(e)
                    out.append(('move element to the end', move, exp))

                    def stranger(e=e, p=parent):
                        s = X(None, 'stranger')
                        s.text = 'x'
                        p.children.insert([k is e for k in p.children].index(True), s)
                    out.append(('unknown element in between', stranger, exp))
        if parent is not None and isinstance(info, Elem) and e.path and e.path[-1][0].kind == 'choice':
            g = e.path[-1][0]
            same = [d for d in parent.children if d.path and d.path[-1] == e.path[-1]]
            if g.min == 1 and not g.vec and all(i.min >= 1 for i in g.items) and len(same) == 1 and \
                    not any(isinstance(i, Group) and i.kind == 'choice' for i in g.items) and decided(parent, e, e.path):
                exp = ('MissingVariant', dict(name=g.rust))
                out.append(('remove variant', lambda e=e, p=parent: p.children.remove(e), exp))

                def rename2(e=e):
                    e.name += 'q'
                out.append(('rename variant', rename2, exp))

                def ns2(e=e):
                    e.ns = 'urn:other' if e.ns is None else r.choice([None, 'urn:other'])
                out.append(('change namespace of variant', ns2, exp))
        for a in e.attrs:
            at = a[3]
            if at.use == 'required':
                out.append(('remove attribute', lambda e=e, a=a: e.attrs.remove(a),
                            ('MissingAttribute', dict(name=at.name))))

                def ren(a=a):
                    a[0] = a[0] + 'x' if r.random() < .5 else 'zz-' + a[0]
                out.append(('rename attribute', ren, ('MissingAttribute', dict(name=at.name))))
            m = bad_text(r, a[2], at.type, a[1], True)
            if m:
                def seta(a=a, m=m):
                    a[1] = m[0]
                out.append(('attribute ' + m[1][0], seta, m[1]))
        if e.children is None:
            m = bad_text(r, e.kind, e.type, e.text, False)
            if m:
                def sett(e=e, m=m):
                    e.text = m[0]
                out.append(('text ' + m[1][0], sett, m[1]))
            if True:
                def nest(e=e):
                    c = X(None, 'nested')
                    c.text = 'x'
                    e.children = [c]
                    e.text = None
                out.append(('element instead of text', nest, ('TextExpected', dict(name=e.name))))
    def rootname():
        x.name = r.choice([x.name + 'x', x.name.lower() + '_', 'other', x.name[:-1] or 'q'])
    out.append(('root name', rootname, missing_element(x.name, x.ns)))

    def rootns():
        x.ns = 'urn:other' if x.ns is None else r.choice([None, 'urn:other', x.ns + 'x'])
    out.append(('root namespace', rootns, missing_element(x.name, x.ns)))
    return out


def near(r, old):
    """Texts that are almost the old one."""
    out = ['', 'other', 'None', old + 'x', 'x' + old, old[:-1], old[1:], old.upper(), old.lower(), old.swapcase(), old.capitalize(), old * 2,
           old.replace('-', '_'), old.replace('_', '-'), old.replace(' ', ''), old.replace(' ', '  '), old.replace(' ', '_'), old[::-1],
           old + '0', old + '.', old + '\u200b', old + '\u0301', old.replace('a', 'á'), '0' + old, '+' + old, old + ' ' + old,
           old.replace('.', ','), old + '\ufeff', old[:1], old[:len(old) // 2], old + ';', '"%s"' % old, old.title(), old + old[-1:]]
    out = [o for o in dict.fromkeys(out) if o != old]
    return out


def near_misses(x, r, n):
    """Up to n [(apply function, undo function, expected error)] for the fixed values and enumerations of a document."""
    out = []
    for e, parent in walk(x):
        for a in e.attrs:
            if a[2] in ('fixed', 'enum'):
                for bad in near(r, a[1]):
                    m = judge_bad(a[2], a[3].type, a[1], bad)
                    if m:
                        out.append((lambda a=a, bad=bad: a.__setitem__(1, bad), lambda a=a, old=a[1]: a.__setitem__(1, old), m))
        if e.children is None and e.kind in ('fixed', 'enum'):
            for bad in near(r, e.text):
                m = judge_bad(e.kind, e.type, e.text, bad)
                if m:
                    out.append((lambda e=e, bad=bad: setattr(e, 'text', bad), lambda e=e, old=e.text: setattr(e, 'text', old), m))
    r.shuffle(out)
    return out[:n]


def judge_bad(kind, t, old, bad):
    """The error that the text has to give instead of the old one (None: not judged)."""
    if kind == 'fixed':
        # whitespace around fixed values and other spellings of the same number are not judged
        if bad.strip() == old.strip():
            return None
        try:
            if float(bad) == float(old):
                return None
        except ValueError:
            pass
        return ('FixedMismatch', dict(expected=old, received=bad))
    vals = set(t.enums)
    # whitespace around enumeration values is not judged
    if bad in vals or bad.strip() in {v.strip() for v in vals}:
        return None
    return ('InvalidVariant', dict(name=bad))


# what decoders tend to cut, index or fold
HOSTILE = ['ä', '日', '\U0001f600', 'e\u0301', 'ﬁ', 'İ', 'ß', '\u00a0', '\u2028', '\u200d', '٣', '１', '½', 'a', '0', '9', '-', '.', ' ', '+', 'e', '_',
           'ǆ', '\ufeff', '\ufffd']


def hostile(r):
    k = r.random()
    if k < .5:
        n = r.choice([1, 2, 3, 7, 8, 15, 16, 17, 20, 24, 31, 32, 33, 40, 47, 48, 50, 63, 64, 65, 80, 100, 127, 128, 129, 200, 255, 256, 257, 512, 1024, 4100])
        c = r.choice(HOSTILE)
        return r.choice(['', 'x', 'xy', 'xyz', '1', '-', '12.']) + c * n + r.choice(['', 'x', c])
    if k < .8:
        return ''.join(r.choice(HOSTILE) for _ in range(r.choice([1, 2, 5, 12, 40, 90])))
    return r.choice(['', ' ', '-', '+', '.', 'e', 'INF', '-INF', 'NaN', 'inf', 'true', '1', '0', '9' * 40, '-' + '9' * 40, '0.' + '0' * 40 + '1', '1e999', '-1e999',
                     '1e-999', '0x1F', 'T', 'P1D', '2024-01-01T00:00:00Z', '24:00:00', '=', '====', '\x7f'])


def poison(x, r):
    """Hostile texts in a document that is otherwise as it should be."""
    spots = []
    for e, _ in walk(x):
        for a in e.attrs:
            spots.append(lambda v, a=a: a.__setitem__(1, v))
        if e.children is None:
            spots.append(lambda v, e=e: setattr(e, 'text', v))
    r.shuffle(spots)
    for f in spots[:r.choice([1, 1, 1, 2, 4, 50])]:
        f(hostile(r))
    return bool(spots)


def bad_text(r, kind, t, old, attr):
    """(text, expected error) for text content of this kind"""
    if kind in ('fixed', 'enum'):
        bad = r.choice(near(r, old))
        m = judge_bad(kind, t, old, bad)
        return m and (bad, m)
    if kind in BAD:
        bad = r.choice(BAD[kind])
        if attr and any(c in bad for c in '\t\n'):
            return None
        if r.random() < .1 and bad.strip():
            bad = ' ' + bad + ' '
        elif r.random() < .12:
            bad = r.choice(['x', 'é', '日', '1x', '--']) * r.choice([9, 17, 33, 65, 130, 300])
        return bad, ('ParseType', dict(type_=t.errname, value=bad))
    return None


# ------------------------------------------------------------ not well-formed

def malform(r, doc):
    """A document that is certainly not well-formed XML (None: no luck)."""
    k = r.randrange(12)
    body = doc.find('<', 1 if not doc.startswith('<') else 0)
    end = doc.rfind('</')
    if k == 0:
        n = r.randrange(1, max(2, end if end > 0 else len(doc) - 1))
        return doc[:n] if n < len(doc) - 2 and not doc[n:].strip().startswith('<!--') else None
    if k == 1:
        return doc + '<again/>'
    if k == 2:
        return doc + 'text'
    if k == 3:
        return ''
    if k == 4:
        return r.choice([' ', '\n', 'just text', '<', '<a', '<a b', '<a b=', '<a b="', '</a>', '<?xml version="1.0"?>',
                         '<!-- only -->', '&', '\ufeff', '<a></b>', '<a b="1" b="2"/>', '<p:a/>', '<a>&undefined;</a>',
                         '<a b="<"/>', '<a>&</a>', '<1a/>', '< a/>', '<a/><b/>', '<a><b></a></b>', '<a b=c/>', '<a>\x01</a>'])
    if k == 5 and end > 0:
        return doc[:end] + '</wrong>' + doc[end:]
    if k == 6 and end > 0:
        return doc[:end] + '&' + r.choice(['', ' ', 'amp', '#;', '#x;', 'nope;', '#xFFFFFFFFF;']) + doc[end:]
    if k == 7 and end > 0:
        return doc[:end] + '<unclosed>' + doc[end:]
    if k == 8 and end > 0:
        return doc[:end] + '<a k="1" k="2"/>' + doc[end:]
    if k == 9 and end > 0:
        return doc[:end] + '<undeclared-prefix:a/>' + doc[end:]
    if k == 10 and end > 0:
        return doc[:end] + '<![CDATA[' + doc[end:]
    if k == 11 and end > 0:
        return doc[:end] + '<!-- ' + doc[end:]
    return None
