"""Instances of a schema: an abstract document together with the value a
correct decoder has to produce for it.

X        an element: namespace, name, attributes, children or text
value    ('struct', name, [(field, value)]), ('tuple', name, [values]), ('variant', name, value),
         ('unit', name), ('some', v), ('none',), ('list', [v]), ('lit', kind, pyvalue), ('nil',)
"""
import struct
from fractions import Fraction
from decimal import Decimal
from model import Builtin, Simple, Complex, Group, SimpleExt, ComplexExt, Elem


class X:
    __slots__ = ('ns', 'name', 'attrs', 'children', 'text', 'kind', 'unordered', 'info', 'path', 'errname', 'type')

    def __init__(self, ns, name):
        self.ns, self.name = ns, name
        self.attrs = []         # [name, lexical, kind, Attr]
        self.children = None    # list of X, or None for text content
        self.text = None        # lexical
        self.kind = None
        self.unordered = False
        self.info = None        # Elem / GlobalElem / ...
        self.path = ()          # the group instances it is part of: (Group, instance), outermost first
        self.errname = None
        self.type = None        # type of the text (None: string)


def f32(x):
    try:
        return struct.unpack('<f', struct.pack('<f', x))[0]
    except OverflowError:
        return float('inf') if x > 0 else float('-inf')


def round32(l):
    """the float nearest to a decimal literal, rounded once"""
    x = Fraction(l if l[-1] != '.' else l + '0')
    if abs(x) >= Fraction(2**128 - 2**103):
        return float('inf') if x > 0 else float('-inf')
    v = f32(float(l))
    bits = struct.unpack('<I', struct.pack('<f', abs(v)))[0]
    near = [struct.unpack('<f', struct.pack('<I', k))[0] for k in range(max(0, bits - 2), min(0x7f7fffff, bits + 2) + 1)]
    best = min(near, key=lambda y: (abs(Fraction(y) - abs(x)), struct.unpack('<I', struct.pack('<f', y))[0] & 1))
    return -best if x < 0 else best


# text that XML must carry unchanged (CR, and TAB in attributes, are known findings)
SPECIAL = ['&', '<', '>', '"', "'", ']]>', '&amp;', '&#x41;', '<!-- x -->', '<![CDATA[x]]>', '\n', ' ', '  ',
           '\u00a0', '\u0085', '\u2028', '\ufeff', '\ufffd', '\U0010ffff', '\U0001f600', '\u0301', '\ue000', 'é', 'ß',
           '日本', '%', '%s', '{}', '\\', '\\n', '/>', '=', '--', '?>', 'xmlns=""', ':', 'null', 'NaN', '0', '-1',
           '\u200b', '\u202e', '~', '`', '$', '#', ';', '\x7f']


def gen_str(r, attr=False):
    k = r.random()
    if k < 0.06:
        return ''
    if k < 0.35:
        return r.choice(['a', 'foo', 'Bar baz', 'x1', '42', 'true', 'hello world', 'Zürich', 'A', 'none', 'Some'])
    if k < 0.9:
        n = r.randint(1, 7)
        s = ''.join(r.choice(SPECIAL) if r.random() < 0.6 else r.choice('abcXYZ019') for _ in range(n))
        if not attr and r.random() < 0.1:
            s = r.choice(['\t', '\n', ' ']) + s + r.choice(['\t', '\n', ' '])
        return s
    if k < 0.97:
        return r.choice(['ab', 'é', '<&', 'x y ', '日']) * r.choice([8, 33, 64, 65, 127, 128, 257])
    return 'lorem & <ipsum> "dolor" \'sit\' ' * r.choice([10, 100, 500])


I = {'i32': (-2**31, 2**31 - 1), 'i64': (-2**63, 2**63 - 1), 'u64': (0, 2**64 - 1)}


def gen_int(r, kind):
    lo, hi = I[kind]
    k = r.random()
    if k < 0.25:
        return r.choice([lo, hi, lo + 1, hi - 1])
    if k < 0.5:
        return max(lo, min(hi, r.choice([0, 1, -1, 2, 10, -10, 255, 256, 65535, 65536, 2**31 - 1, 2**31, -2**31,
                                         2**32 - 1, 2**32, 2**53, 2**53 + 1, 2**63 - 1, 2**63])))
    return max(lo, min(hi, r.choice([1, -1]) * r.getrandbits(r.randint(1, 64))))


def gen_dec(r):
    k = r.random()
    if k < 0.3:
        return r.choice(['0', '1', '-1', '1.50', '0.1', '-0.001', '100', '12345678901234567890.12345',
                         '79228162514264337593543950335', '-79228162514264337593543950335',
                         '0.0000000000000000000000000001', '1.0000000000000000000000000000', '10.00'])
    digs = r.randint(1, 27)
    n = ''.join(r.choice('0123456789') for _ in range(digs)).lstrip('0') or '0'
    sc = r.randint(0, min(digs, 20))
    if sc:
        n = n.rjust(sc + 1, '0')
        n = n[:-sc] + '.' + n[-sc:]
    neg = r.random() < 0.4 and any(c in '123456789' for c in n)
    return ('-' if neg else '') + n


def gen_f32(r):
    k = r.random()
    if k < 0.12:
        return r.choice([float('inf'), float('-inf')])
    if k < 0.4:
        return f32(r.choice([0.0, 1.0, -1.0, 0.5, 0.1, 1e10, -1e-10, 3.4028235e38, 1.17549435e-38, 1e-45, 16777216.0,
                             16777217.0, 123456.789]))
    while True:
        v = struct.unpack('<f', struct.pack('<I', r.getrandbits(32)))[0]
        if v == v and abs(v) != float('inf') and not (v == 0 and str(v)[0] == '-'):
            return v


def lex_f32(v, r=None):
    if v == float('inf'):
        return 'INF'
    if v == float('-inf'):
        return '-INF'
    s = repr(v)
    if r and r.random() < 0.3:
        s = '%.9e' % v
    return s


def gen_lit(r, kind, attr=False, canonical=False):
    """(lexical, value)"""
    if kind == 'str':
        s = gen_str(r, attr)
        return s, s
    if kind == 'bool':
        v = r.random() < 0.5
        l = ('true' if v else 'false') if canonical or r.random() < 0.6 else ('1' if v else '0')
    elif kind in I:
        v = gen_int(r, kind)
        l = str(v)
        if not canonical and r.random() < 0.15:
            l = ('-' if v < 0 else '+') + '0' * r.randint(0, 3) + str(abs(v))
    elif kind == 'dec':
        l = gen_dec(r)
        v = l
        if not canonical and r.random() < 0.1 and l[0] != '-':
            l = '+' + l
    else:
        v = gen_f32(r)
        l = lex_f32(v, None if canonical else r)
    if not canonical and r.random() < 0.1:
        l = r.choice(['', ' ', '\n', '  ', '\t' if not attr else ' ']) + l + r.choice(['', ' ', '\n '])
    return l, v


ANY = Builtin('string')


class Gen:
    """Generates instances.  opts: canonical, maxrep, hugevec"""
    def __init__(self, r, canonical=False, depth=6, maxrep=4, huge=0.0, focus=None):
        self.r, self.canonical, self.maxdepth, self.maxrep, self.huge = r, canonical, depth, maxrep, huge
        self.budget = 400
        self.big_text = 0       # how many very long texts
        self.chars = 40000      # budget for long texts
        self.gpath = ()
        self.ginst = 0

    # -- leaves
    def text_of(self, t, attr=False):
        """type -> (lexical, kind, value)"""
        r = self.r
        if t is None:
            t = ANY
        if isinstance(t, Simple) and t.enums is not None:
            var, val = r.choice(t.variants)
            return val, 'enum', ('unit', var)
        l, v = gen_lit(r, t.kind, attr, self.canonical)
        if t.kind == 'str':
            if self.chars < 0 and len(l) > 40:
                l = v = l[:r.randint(0, 20)]
            self.chars -= len(l)
        if self.big_text and t.kind == 'str' and r.random() < 0.05:
            self.big_text -= 1
            l = v = ''.join(r.choice(SPECIAL + ['abc', 'x', 'text ']) for _ in range(r.choice([1000, 5000, 30000])))
        return l, t.kind, ('lit', t.kind, v)

    def fill(self, x, t, fixed, depth):
        """Content of element x of type t; returns its value."""
        if fixed is not None:
            x.text, x.kind = fixed, 'fixed'
            return ('nil',)
        if t is None or isinstance(t, (Builtin, Simple)):
            x.text, x.kind, v = self.text_of(t)
            x.type = t
            return v
        return self.complex(x, t, depth)

    def complex(self, x, c, depth):
        fields = []
        k = c.content
        if isinstance(k, SimpleExt) and isinstance(k.base, Complex):
            fields.append((k.field, self.complex(x, k.base, depth)))
        elif isinstance(k, SimpleExt):
            x.text, x.kind, v = self.text_of(k.base)
            x.type = k.base
            fields.append((k.field, v))
        elif isinstance(k, ComplexExt):
            if k.seq is None:
                fields.append((k.field, self.complex(x, k.base, depth)))
            else:
                fields.append(('base', self.complex(x, k.base, depth)))
                if x.children is None:
                    x.children = []
                fields.append((k.seq.field, self.group_occ(x, k.seq, depth)))
        elif isinstance(k, Group):
            if x.children is None:
                x.children = []
            if k.kind == 'choice':
                fields.append((k.field, self.choice_once(x, k, depth)))
            elif k.rust is not None:
                if k.kind == 'all':
                    x.unordered = True
                fields.append((k.field, self.group_occ(x, k, depth)))
            else:
                if k.kind == 'all':
                    x.unordered = True
                fields.extend(self.members(x, k, depth))
        else:
            if x.children is None and x.text is None:
                x.children = []
        for a in c.attrs:
            if a.use == 'prohibited':
                continue
            present = a.use == 'required' or self.r.random() < 0.55
            if not present:
                fields.append((a.field, ('none',)))
                continue
            if a.fixed is not None:
                l, kind, v = a.fixed, 'fixed', ('nil',)
            else:
                l, kind, v = self.text_of(a.type, True)
            x.attrs.append([a.name, l, kind, a])
            fields.append((a.field, v if a.use == 'required' else ('some', v)))
        return ('struct', c.rust, fields)

    def members(self, x, g, depth):
        out = []
        saved = self.enter(g)
        for i in g.items:
            if isinstance(i, Elem):
                out.append((i.field, self.elem_occ(x, i, depth)))
            else:
                out.append((i.field, self.group_occ(x, i, depth)))
        self.gpath = saved
        return out

    def enter(self, g):
        saved = self.gpath
        self.ginst += 1
        self.gpath = saved + ((g, self.ginst),)
        return saved

    def count(self, p, depth):
        r = self.r
        hi = p.max
        lo = p.min
        if depth >= self.maxdepth or self.budget <= 0:
            return lo
        if hi is None:
            if self.huge and r.random() < self.huge:
                n = r.choice([15, 16, 17, 31, 33, 63, 64, 65, 100, 129, 257])
                n = min(n, max(lo, self.budget // 2))
            else:
                n = r.choice([lo, lo, lo + 1, r.randint(lo, lo + self.maxrep)])
        else:
            n = r.choice([lo, hi, r.randint(lo, hi)])
            if n - lo > self.maxrep + 8:
                n = lo + r.randint(0, self.maxrep)
        return max(n, lo)

    def elem_once(self, x, e, depth):
        self.budget -= 1
        c = X(e.ns, e.lname)
        c.info = e
        c.path = saved = self.gpath
        self.gpath = ()
        v = self.fill(c, e.etype, e.efixed, depth + 1)
        self.gpath = saved
        x.children.append(c)
        return v

    def elem_occ(self, x, e, depth):
        n = self.count(e, depth)
        if not e.vec:
            if e.min == 0:
                return ('some', self.elem_once(x, e, depth)) if n else ('none',)
            return self.elem_once(x, e, depth)
        vs = ('list', [self.elem_once(x, e, depth) for _ in range(n)])
        if e.min == 0:
            return ('some', vs) if n else ('none',)
        return vs

    def group_occ(self, x, g, depth):
        n = self.count(g, depth)
        if not g.vec:
            if g.min == 0:
                if not n:
                    return ('none',)
                before = len(x.children)
                v = self.group_once(x, g, depth, None)[0]
                # a group without any element in the document is an absent group
                return ('some', v) if len(x.children) > before else ('none',)
            return self.group_once(x, g, depth, None)[0]
        vs = []
        prev = None
        for _ in range(n):
            v, prev = self.group_once(x, g, depth, prev)
            vs.append(v)
        vs = ('list', vs)
        if g.min == 0:
            return ('some', vs) if n else ('none',)
        return vs

    def group_once(self, x, g, depth, prev):
        if g.kind == 'choice':
            return self.choice_once(x, g, depth, prev, True)
        return ('struct', g.rust, self.members(x, g, depth)), None

    def pick(self, opts, depth):
        return self.r.choice(opts)

    def choice_once(self, x, g, depth, prev=None, ret=False):
        """prev: the variant of the directly preceding occurrence.  A repeated
        variant swallows all adjacent occurrences, so it cannot follow itself."""
        opts = [i for i in g.items if not (i.vec and i is prev)]
        if depth >= self.maxdepth or self.budget <= 0:
            simple = [i for i in opts if isinstance(i, Elem) and (i.etype is None or not isinstance(i.etype, Complex))]
            opts = simple or opts[:1]
        i = self.pick(opts, depth)
        saved = self.enter(g)
        if isinstance(i, Elem):
            if i.vec:
                n = max(1, self.count(i, depth))
                v = ('list', [self.elem_once(x, i, depth) for _ in range(n)])
            else:
                v = self.elem_once(x, i, depth)
        elif i.vec:
            n = max(1, self.count(i, depth))
            vs, p = [], None
            for _ in range(n):
                w, p = self.group_once(x, i, depth, p)
                vs.append(w)
            v = ('list', vs)
        else:
            v = self.group_once(x, i, depth, None)[0]
        self.gpath = saved
        res = ('variant', i.variant, v)
        return (res, i) if ret else res

    def root(self, g):
        """instance of a global element: (X, value)"""
        x = X(g.ns, g.name)
        x.info = g
        t = g.type
        v = self.fill(x, t, g.fixed, 0)
        if isinstance(t, Builtin) or t.name is not None:
            v = ('tuple', g.rust, [v])
        elif isinstance(t, Simple) and t.enums is None:
            v = ('tuple', g.rust, [v])
        return x, v
