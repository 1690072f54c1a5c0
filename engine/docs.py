"""XML documents: rendering abstract instances in many equivalent spellings,
parsing what the encoder wrote (with expat), and comparing the two."""
import xml.parsers.expat
from decimal import Decimal
from inst import X, round32
import math


def esc_text(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('\r', '&#13;')


def esc_attr(s):
    return (s.replace('&', '&amp;').replace('<', '&lt;').replace('"', '&quot;').replace('\n', '&#10;')
            .replace('\t', '&#9;').replace('\r', '&#13;'))


def all_ns(x, acc=None):
    acc = [] if acc is None else acc
    if x.ns is not None and x.ns not in acc:
        acc.append(x.ns)
    for c in x.children or []:
        all_ns(c, acc)
    return acc


def render_plain(x):
    """Plain rendering: fixed prefixes, no noise."""
    pfx = {ns: 'p%d' % i for i, ns in enumerate(all_ns(x))}

    def go(e, top):
        n = e.name if e.ns is None else pfx[e.ns] + ':' + e.name
        a = ''.join(' %s="%s"' % (k, esc_attr(v)) for k, v, _, _ in e.attrs)
        if top:
            a = ''.join(' xmlns:%s="%s"' % (p, esc_attr(u)) for u, p in pfx.items()) + a
        if e.children is not None:
            return '<%s%s>%s</%s>' % (n, a, ''.join(go(c, False) for c in e.children), n)
        return '<%s%s>%s</%s>' % (n, a, esc_text(e.text or ''), n)
    return go(x, True)


class Noisy:
    """Renders an instance with random choices for everything that carries no information."""
    COMMENTS = ['<!---->', '<!-- c -->', '<!-- <a>1</a> -->', '<!-- & < > " \' -->', '<!--\n-->', '<?pi?>', '<?pi a="b"?>',
                '<?xml-stylesheet href="a"?>', '<!-- é日 -->']

    def __init__(self, r, noise=0.3, shuffle_all=True, extras=True):
        self.r, self.noise, self.shuffle_all, self.extras = r, noise, shuffle_all, extras

    def p(self, f=1.0):
        return self.r.random() < self.noise * f

    def misc(self):
        r = self.r
        return ''.join(r.choice(self.COMMENTS) for _ in range(r.choice([1, 1, 2])))

    def ws(self):
        return self.r.choice(['', '\n', ' ', '\n  ', '\t', '\r\n', '\n\n    '])

    def text(self, s):
        if not s:
            return self.misc() if self.p(0.3) else ('<![CDATA[]]>' if self.p(0.1) else '')
        r = self.r
        if not self.noise or not self.p(1.5):
            return esc_text(s)
        out = []
        pos = 0
        while pos < len(s):
            n = r.randint(1, max(1, len(s) // 3))
            part = s[pos:pos + n]
            pos += n
            k = r.random()
            if k < 0.25 and ']]>' not in part and '\r' not in part and not (part.endswith(']') or part.startswith('>')
                                                                           or part.startswith(']')):
                out.append('<![CDATA[' + part + ']]>')
            elif k < 0.4:
                out.append(''.join(('&#%d;' % ord(c)) if r.random() < 0.5 else '&#x%x;' % ord(c) for c in part))
            else:
                out.append(esc_text(part))
            if r.random() < 0.2 * self.noise + 0.02:
                out.append(self.misc())
        return ''.join(out)

    def attrv(self, s):
        r = self.r
        if self.p(0.4):
            v = ''.join('&#%d;' % ord(c) if r.random() < 0.4 or c in '<&\'"\n\t\r' else c for c in s)
        else:
            v = esc_attr(s).replace("'", '&apos;') if self.p(0.5) else esc_attr(s)
        if self.p(0.5):
            return "'" + v.replace("'", '&apos;') + "'"
        return '"' + v + '"'

    def doc(self, x):
        r = self.r
        head = ''
        if self.p(0.5):
            head += '\ufeff'
        if self.p(1.5):
            head += r.choice(['<?xml version="1.0"?>', '<?xml version="1.0" encoding="UTF-8"?>',
                              "<?xml version='1.0' encoding='utf-8' standalone='yes'?>"]) + r.choice(['', '\n'])
        if self.p(0.7):
            head += self.misc() + '\n'
        tail = (self.misc() + '\n') if self.p(0.5) else r.choice(['', '\n'])
        self.n = 0
        return head + self.el(x, {}, None) + tail

    def newprefix(self, scope):
        r = self.r
        while True:
            p = r.choice(['a', 'b', 'ns1', 'ns2', 'ns3', 'tns', 'x', 'q%d' % r.randint(1, 99), 'P-1', '_p', 'é'])
            if p not in scope:
                return p

    def el(self, x, scope, default):
        """scope: prefix -> ns;  default: default namespace or None"""
        r = self.r
        decls = []
        scope = dict(scope)
        if x.ns is None:
            if default is not None:
                decls.append(('xmlns', ''))
                default = None
            name = x.name
        else:
            have = [p for p, u in scope.items() if u == x.ns]
            k = r.random()
            if default == x.ns and (k < 0.6 or not self.noise):
                name = x.name
            elif have and k < 0.9:
                name = r.choice(have) + ':' + x.name
            elif k < 0.55:
                decls.append(('xmlns', x.ns))
                default = x.ns
                name = x.name
            else:
                p = self.newprefix(scope) if r.random() < 0.85 or not scope else r.choice(list(scope))
                scope[p] = x.ns
                decls.append(('xmlns:' + p, x.ns))
                name = p + ':' + x.name
        if self.extras and self.p(0.15):
            p = self.newprefix(scope)
            scope[p] = 'urn:unused'
            decls.append(('xmlns:' + p, 'urn:unused'))
        attrs = [(k, self.attrv(v)) for k, v, _, _ in x.attrs]
        if self.extras and self.p(0.15) and x.info is not None:
            p = 'xsi'
            if p not in scope:
                scope[p] = 'http://www.w3.org/2001/XMLSchema-instance'
                decls.append(('xmlns:xsi', scope[p]))
            if scope[p] == 'http://www.w3.org/2001/XMLSchema-instance':
                attrs.append(('xsi:schemaLocation', '"urn:a a.xsd"'))
        al = [(k, '"' + esc_attr(v) + '"') for k, v in decls] + attrs
        if self.noise:
            r.shuffle(al)
        sep = (lambda: r.choice([' ', ' ', '\n', '  ', '\t'])) if self.noise else (lambda: ' ')
        a = ''.join(sep() + k + ('=' if not self.p(0.1) else ' = ') + v for k, v in al)
        if x.children is None:
            body = self.text(x.text or '')
        else:
            cs = list(x.children)
            if x.unordered and self.shuffle_all:
                r.shuffle(cs)
            body = ''
            if self.p(0.5):
                body += self.ws()
            for c in cs:
                if self.p(0.3):
                    body += self.misc()
                if self.p():
                    body += self.ws()
                body += self.el(c, scope, default)
            if self.p():
                body += self.ws()
            if self.p(0.3):
                body += self.misc()
        if body == '' and r.random() < 0.5:
            return '<%s%s%s/>' % (name, a, ' ' if self.p() else '')
        return '<%s%s%s>%s</%s%s>' % (name, a, ' ' if self.p(0.2) else '', body, name, ' ' if self.p(0.2) else '')


# ------------------------------------------------------------ reading documents

class XmlError(Exception):
    pass


class N:
    __slots__ = ('ns', 'name', 'attrs', 'children', 'text', 'nsattrs')

    def __init__(self, ns, name):
        self.ns, self.name, self.attrs, self.children, self.text, self.nsattrs = ns, name, {}, [], '', 0


def parse_xml(data):
    """Namespace-aware parse with expat: N tree."""
    p = xml.parsers.expat.ParserCreate(namespace_separator='\x01')
    p.ordered_attributes = True
    root = []
    stack = []

    def split(n):
        return n.split('\x01', 1) if '\x01' in n else (None, n)

    def start(name, attrs):
        ns, n = split(name)
        e = N(ns, n)
        for k, v in zip(attrs[::2], attrs[1::2]):
            e.attrs[tuple(split(k))] = v
        if stack:
            stack[-1].children.append(e)
        else:
            root.append(e)
        stack.append(e)

    def end(name):
        stack.pop()

    def chars(s):
        if stack:
            stack[-1].text += s
    p.StartElementHandler, p.EndElementHandler, p.CharacterDataHandler = start, end, chars
    try:
        p.Parse(data, True)
    except xml.parsers.expat.ExpatError as e:
        raise XmlError(str(e))
    return root[0]


def lex_eq(kind, exp, got):
    """Do two lexical representations denote the same value?"""
    if kind in ('str', 'fixed', 'enum'):
        return exp == got
    g = got.strip(' \t\r\n')
    e = exp.strip(' \t\r\n')
    try:
        if kind == 'bool':
            return g in ('true', 'false', '1', '0') and (e in ('true', '1')) == (g in ('true', '1'))
        if kind in ('i32', 'i64', 'u64'):
            return int(g) == int(e) and '_' not in g
        if kind == 'dec':
            return set(g) <= set('+-.0123456789') and Decimal(g) == Decimal(e)
        if kind == 'f32':
            return xsd_float(g) == xsd_float(e)
    except (ValueError, ArithmeticError):
        return False
    raise AssertionError(kind)


def xsd_float(s):
    if s == 'INF':
        return float('inf')
    if s == '-INF':
        return float('-inf')
    if s == 'NaN':
        return 'NaN'
    if not set(s) <= set('+-.0123456789eE'):
        raise ValueError(s)
    return round32(s)


def infoset_diff(x, n, path=''):
    """None if the encoded document n says the same as the instance x."""
    path += '/' + x.name
    if n.name != x.name:
        return '%s: expected element %s, got %s' % (path, x.name, n.name)
    if n.ns != x.ns:
        return '%s: expected namespace %r, got %r' % (path, x.ns, n.ns)
    want = {k: (v, kind) for k, v, kind, _ in x.attrs}
    got = dict(n.attrs)
    for k, (v, kind) in want.items():
        if (None, k) not in got:
            return '%s: attribute %s is missing' % (path, k)
        g = got.pop((None, k))
        if not lex_eq(kind, v, g):
            return '%s: attribute %s: expected %r, got %r' % (path, k, v, g)
    if got:
        return '%s: unexpected attributes %s' % (path, sorted(got, key=str))
    if x.children is None:
        if n.children:
            return '%s: unexpected element %s' % (path, n.children[0].name)
        if not lex_eq(x.kind, x.text or '', n.text):
            return '%s: expected text %r, got %r' % (path, (x.text or '')[:200], n.text[:200])
        return None
    if n.text.strip(' \t\r\n'):
        return '%s: unexpected text %r' % (path, n.text.strip()[:80])
    xc, nc = x.children, n.children
    if x.unordered:
        # xs:all: any order will do
        xc, nc = sorted(xc, key=lambda c: c.name), sorted(nc, key=lambda c: c.name)
    cn = [c.name for c in xc]
    gn = [c.name for c in nc]
    if cn != gn:
        return '%s: expected children %s, got %s' % (path, cn[:40], gn[:40])
    for c, g in zip(xc, nc):
        d = infoset_diff(c, g, path)
        if d:
            return d
    return None
