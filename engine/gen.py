"""Random schemas within the supported subset.  Profiles shift the weights."""
from model import *

PLAIN = ['id', 'name', 'title', 'amount', 'price', 'street', 'city', 'note', 'item', 'entry', 'code', 'kind', 'value',
         'unit', 'label', 'count', 'lat', 'lng', 'alt', 'zip', 'phone', 'mail', 'age', 'rank', 'path', 'host', 'port',
         'user', 'key', 'flag', 'size', 'color', 'shape', 'width', 'height', 'depth', 'start', 'end', 'from', 'to']
CASED = ['FirstName', 'LastName', 'fullName', 'OrderID', 'HTTPServer', 'userId', 'XMLData', 'pageURL', 'isOpen', 'ISBN',
         'a-b', 'x-y-z', 'snake_case_name', 'dot.ted', 'Line1', 'line2', 'v2', 'A', 'b', 'iOS', 'Co2Value', 'x1y2', 'RData',
         'UPPER_CASE', 'mixed_Case', 'trailing_', '_leading', 'a1', 'A2b', 'IPv4', 'k-1', 'Q.r']
KEYWORDS = ['type', 'self', 'Self', 'super', 'crate', 'fn', 'match', 'mod', 'use', 'ref', 'async', 'await', 'dyn', 'try',
            'abstract', 'final', 'box', 'yield', 'static', 'const', 'in', 'as-is', 'where', 'loop', 'return', 'true',
            'false', 'enum', 'struct', 'trait', 'impl', 'pub', 'let', 'mut', 'move', 'extern', 'unsafe', 'do', 'virtual',
            'override', 'macro', 'priv', 'typeof', 'unsized', 'become', 'gen', 'as', 'union', 'val', 'node', 'ctx',
            'writer', 'vec', 'doc', 'body', 'input', 'err', 's', 'f', 'Some', 'None', 'Ok', 'Err', 'Option', 'Vec',
            'String', 'Result', 'Box', 'Default', 'Clone', 'Debug', 'std', 'xsd', 'core', 'Into', 'From', 'Iterator',
            'ToString', 'AsRef', 'PartialEq', 'i32', 'bool', 'str', 'u64', 'f32', 'XmlEvent', 'lookahead', 'text']
UNICODE = ['größe', 'Straße', 'naïve', 'Ünï', 'été', 'имя', '名前', 'αβγ', 'Éa']
# names that share part of a multi-byte character with each other, at the start, in the middle or at the end
BYTES = ['é', 'è', 'êa', 'ñu', 'ñé', 'aé', 'aè', 'xaè', 'éx', 'èx', '名x', '后x', 'x名', 'x后', 'имя', 'иня', 'иле', 'аaя', 'ая', 'яя',
         '字段', '字母', '字', '母', 'aéb', 'aèb', 'cêb', 'ü', 'üx', 'γ', 'xγ', 'xӳ', 'ӳ', 'né']
# own types named like types of XML Schema
BUILTINS = ['string', 'date', 'int', 'boolean', 'decimal', 'float', 'time', 'duration', 'dateTime', 'integer', 'long', 'anyType', 'double',
            'hexBinary', 'base64Binary', 'positiveInteger', 'nonNegativeInteger', 'token', 'schema', 'element', 'sequence']

STRINGY = ['string', 'time', 'date', 'dateTime', 'duration', 'base64Binary', 'hexBinary', 'anyType']
NUMERIC = ['boolean', 'integer', 'long', 'nonNegativeInteger', 'positiveInteger', 'int', 'decimal', 'float']
FACETS = [('length', '3'), ('minLength', '0'), ('maxLength', '255'), ('pattern', '[a-z]*'), ('pattern', '\\d{2,}'),
          ('minInclusive', '-5.5'), ('maxInclusive', '100'), ('fractionDigits', '2'), ('totalDigits', '18')]
ENUMS = ['a', 'b', 'red', 'green', 'Blue', 'dark-red', 'snake_val', 'UPPER', 'with space', '1', '2', '10', '3D', '+', '-', '*',
         '', ' ', 'é', 'ÄÖ', 'N/A', 'n/a', 'a.b', 'ab', 'a b', '50%', '<', '>', '&', '"', "'", 'true', 'None', 'Self', 'self',
         'type', 'Some', 'Ok', 'x:y', 'http://x/', 'A', 'AA', 'aA', '0', '00', '日本', '€', '_', '__', '--', 'Variant1',
         'Variant2', 'V1', 'v1', 'inf', 'NaN', '1.0', '1-0', 'EN-us', 'en_US', '\u00a0', 'ß', 'e\u0301']
DOCS = ['A short description.', 'Über "quotes" & <brackets>', '  leading and trailing  ', 'two\n      lines of\ttext',
        'ends with backslash \\', '/// slashes', '# not a heading', 'a', '日本語 docs', "it's */ fine"]


class Opts:
    def __init__(self, **kw):
        self.names = 'plain'        # plain | cased | hostile
        self.ns = None              # None = any
        self.docs = 0.1
        self.depth = 3
        self.width = 4
        self.big = 0.0
        self.enums = 0.2
        self.attrs = 0.5
        self.group = 0.25
        self.choice_top = 0.2
        self.all_top = 0.12
        self.ext = 0.2
        self.rec = 0.1
        self.multifile = 0.15
        self.named_types = 3
        self.kinds = None
        self.hostile_enum = 0.3
        self.echo = 0.0             # names that occur inside and outside of a nested group
        self.huge = False           # one group of more than 256 elements, alternatives or attributes
        self.near_ns = .25          # imported namespaces that are almost the same
        self.many_ns = 0.0          # schemas of more than ten namespaces
        self.builtin_names = 0.05   # own types named like types of XML Schema
        self.__dict__.update(kw)


class SchemaGen:
    def __init__(self, r, opts=None):
        self.r = r
        self.o = opts or Opts()

    # -- names
    def pool(self):
        o, r = self.o, self.r
        k = r.random()
        if o.names == 'bytes':
            base = BYTES
        elif o.names == 'plain' or k < 0.35:
            base = PLAIN
        elif o.names == 'cased' or k < 0.6:
            base = CASED
        elif k < 0.93:
            base = KEYWORDS
        else:
            base = UNICODE
        return r.choice(base)

    def fresh(self, used):
        """An XML name whose Rust spellings are not taken yet in this scope."""
        r = self.r
        for _ in range(200):
            n = self.pool()
            if r.random() < 0.15:
                n += r.choice(['Name', 'Id', '_x', '2', 'Type', '-ext', 'X9'])
            keys = {snake(n), pascal(n)}
            if not (keys & used):
                used |= keys
                return n
        n = 'n%d' % r.randint(1000, 999999)
        while {snake(n), pascal(n)} & used:
            n = 'n%d' % r.randint(1000, 999999)
        used |= {snake(n), pascal(n)}
        return n

    def huge(self, p=.5):
        """Whether to declare more of something than fits into a byte (once per schema)"""
        if self.o.huge and self.r.random() < p:
            self.o.huge = False
            return True
        return False

    def gname(self, suffix_ok=True):
        r = self.r
        if self.o.builtin_names and r.random() < self.o.builtin_names:
            n = r.choice(BUILTINS)
            keys = {snake(n), pascal(n)}
            if not (keys & self.gused):
                self.gused |= keys
                return n
        return self.fresh(self.gused)

    # -- types
    def builtin(self):
        r = self.r
        if self.o.kinds:
            return Builtin(r.choice(self.o.kinds))
        return Builtin(r.choice(STRINGY if r.random() < 0.45 else NUMERIC))

    def simple(self, name=None):
        r = self.r
        if r.random() < self.o.enums / (self.o.enums + 0.2):
            if r.random() < self.o.hostile_enum:
                n = r.choice([1, 2, 3, 5, 12, 40])
                vals = r.sample(ENUMS, min(n, len(ENUMS)))
            else:
                vals = r.sample(['red', 'green', 'blue', 'dark-red', 'A', 'B1', 'c_d', 'X', '42', 'n/a'], r.randint(1, 6))
            return Simple(name, 'string', enums=vals, docs=self.docs())
        b = r.choice(STRINGY[:7] + NUMERIC)
        fac = r.sample(FACETS, r.choice([0, 0, 1, 2]))
        return Simple(name, b, facets=fac, docs=self.docs())

    def docs(self):
        r = self.r
        if r.random() >= self.o.docs:
            return None
        return r.choice(DOCS)

    def text_type(self):
        """type usable for attributes and simple content"""
        r = self.r
        k = r.random()
        ns = [s for s in self.simples if self.visible(s)]
        if ns and k < 0.3:
            return r.choice(ns)
        if k < 0.45:
            return self.simple()
        return self.builtin()

    def visible(self, t):
        return t.file is self.cur or t.file in self.reach[self.cur]

    def occurs(self):
        r = self.r
        k = r.random()
        if k < 0.45:
            return 1, 1
        if k < 0.65:
            return 0, 1
        if k < 0.78:
            return 0, None
        if k < 0.88:
            return 1, None
        return r.choice([(1, 2), (2, 2), (0, 3), (2, None), (1, 5), (0, 2), (3, 7), (1, 100), (0, 100),
                         (0, 255), (1, 256), (0, 257), (1, 513), (0, 65536), (1, 65537), (0, 65537), (1, 4294967295)])

    def elem(self, used, depth, minmax=None):
        r = self.r
        mn, mx = minmax or self.occurs()
        k = r.random()
        refs = [e for e in self.globals if self.visible(e) and not ({snake(e.name), pascal(e.name)} & used)]
        if refs and k < 0.1:
            e = r.choice(refs)
            if not self.rec_path(e.type, mx):
                used |= {snake(e.name), pascal(e.name)}
                return Elem(None, ref=e, min=mn, max=mx)
        name = self.fresh(used)
        docs = self.docs()
        form = None
        if k < 0.04:
            return Elem(name, None, mn, mx, docs=docs)
        if k < 0.12:
            b = self.builtin()
            fx = r.choice(['k', 'fixed value', '7', 'A&B', 'é', ' x ', '', 'a]]>b', '<b>', 'x"y', "it's"])
            return Elem(name, b, mn, mx, fixed=fx, docs=docs)
        if k < 0.2:
            s = self.simple()
            return Elem(name, s, mn, mx, docs=docs)
        ns = [s for s in self.simples if self.visible(s)]
        if ns and k < 0.33:
            return Elem(name, r.choice(ns), mn, mx, docs=docs)
        cs = [c for c in self.complexes if self.visible(c)]
        if cs and k < 0.48:
            return Elem(name, r.choice(cs), mn, mx, docs=docs)
        if depth > 0 and k < 0.62:
            return Elem(name, self.complex(None, depth - 1), mn, mx, docs=docs)
        if self.self_type is not None and (minmax is None or mn == 0) and r.random() < self.o.rec:
            return Elem(name, self.self_type, r.choice([0, 0, 0]), r.choice([None, 3]), docs=docs)
        e = Elem(name, self.builtin(), mn, mx, docs=docs)
        if r.random() < 0.05:
            e.default = 'dflt'
        if r.random() < 0.04 and self.cur.tns is not None:
            e.form = r.choice(['qualified', 'unqualified']) if not self.cur.qualified else 'qualified'
        return e

    def rec_path(self, t, mx):
        return False

    def group_items(self, used, depth, n, first_required=False, in_choice=False, allow_groups=True):
        r = self.r
        items = []
        for i in range(n):
            if allow_groups and depth > 0 and r.random() < self.o.group and not (first_required and i == 0):
                items.append(self.nested(used, depth - 1, in_choice))
            else:
                mm = (1, 1) if first_required and i == 0 else None
                items.append(self.elem(used, depth, mm))
        return items

    def echo(self, used):
        """[a group, an element named like one of its elements], or the other way round: only the first element of the group tells them apart"""
        r = self.r
        names = [self.fresh(used) for _ in range(r.randint(2, 3))]
        ts = [self.builtin() for _ in names]
        mn = r.choice([1, 1, 0]) if len(names) > 1 else 1
        g = [Elem(n, t, 1, 1) for n, t in zip(names, ts)]
        k = r.randrange(1, len(names))
        if r.random() < .3:
            # optional ones in front of the required one
            g[0].min = 0
            k = r.randrange(2, len(names)) if len(names) > 2 else None
        if k is None:
            return [Group('seq', g, mn, 1)]
        if r.random() < .3:
            # the group starts with a group
            g[0].min = 1
            g[0] = Group('seq', [Elem(self.fresh(used), self.builtin(), 0, r.choice([1, None])), g[0]], 1, 1)
        e = Elem(names[k], ts[k], *self.occurs())
        if r.random() < .3:
            return [e, Group('seq', g, mn, 1)]
        if r.random() < .3:
            if g[0].min == 0:
                g[0].min = 1
            e.min = 1
            v = [Group('seq', g, 1, r.choice([1, 1, None])), e]
            if v[0].max is None:
                # after the last one of the group, the next one starts again
                e.max = 1
            r.shuffle(v)
            return [Group('choice', v, r.choice([0, 1]), 1)]
        return [Group('seq', g, mn, 1), e]

    def nested(self, used, depth, in_choice):
        r = self.r
        if in_choice:
            mn, mx = r.choice([(1, 1), (1, 1), (1, 1), (1, None), (1, 3)])
            # the choice is decided by the first element, so it has to be there
            g = Group('seq', self.group_items(used, depth, r.randint(1, 3), first_required=True), mn, mx)
            return g
        if r.random() < 0.5:
            mn, mx = self.occurs()
            return self.choice(used, depth, mn, mx)
        mn = r.choice([1, 1, 0])
        return Group('seq', self.group_items(used, depth, r.randint(1, 3)), mn, 1, docs=self.docs())

    def choice(self, used, depth, mn=1, mx=1):
        r = self.r
        items = []
        rec = self.self_type
        n = r.randint(1, 4) if r.random() < 0.9 else r.randint(5, 12)
        if self.huge():
            n, depth = r.randint(257, 280), 0
        for n in range(n):
            # the first variant is the way out of a recursive type
            self.self_type = rec if n else None
            if depth > 0 and r.random() < self.o.group * 0.7:
                items.append(self.nested(used, depth - 1, True))
            else:
                items.append(self.elem(used, depth, r.choice([(1, 1), (1, 1), (1, 1), (0, 1), (1, None), (0, None), (1, 4)])))
        self.self_type = rec
        if mx is None or mx > 1:
            items[0].max = 1
        return Group('choice', items, mn, mx)

    def attrs(self, used):
        r = self.r
        res = []
        huge = self.huge(.3)
        if not huge and r.random() >= self.o.attrs:
            return res
        n = r.randint(257, 280) if huge else r.randint(1, 4) if r.random() < 0.92 else r.randint(8, 20)
        for _ in range(n):
            name = self.fresh(used)
            t = self.text_type()
            a = Attr(name, t, use=r.choice([None, 'optional', 'required']), docs=self.docs())
            k = r.random()
            if isinstance(t, Builtin) and k < 0.1:
                a.fixed = r.choice(['f', '3', 'a"b', 'x y', '', '<', 'a&b', ']]>'])
            elif k < 0.16 and a.use != 'required':
                a.default = 'd'
            elif k < 0.2:
                a.use = 'prohibited'
            res.append(a)
        return res

    def complex(self, name, depth, used=None):
        r, o = self.r, self.o
        used = set() if used is None else used
        c = Complex(name, docs=self.docs())
        c.used = used
        saved = self.self_type
        if name is not None:
            self.self_type = c
        k = r.random()
        bases = [b for b in self.complexes if self.visible(b) and isinstance(b.content, (Group, type(None), ComplexExt))
                 and not self.is_rec(b)]
        if k < o.ext and bases and r.random() < 0.6:
            b = r.choice(bases)
            has_all = self.has_all(b)
            used |= b.used
            used |= {snake(b.name), pascal(b.name), 'base'}
            seq = None
            if r.random() < 0.65 and not has_all:
                seq = Group('seq', self.group_items(used, depth, r.randint(1, 3)), r.choice([1, 1, 0]), 1)
            c.content = ComplexExt(b, seq)
            c.mixed_false = r.random() < 0.2
        elif k < o.ext:
            t = None
            ns = [s for s in self.simples if self.visible(s)]
            ss = [b for b in self.complexes if self.visible(b) and isinstance(b.content, SimpleExt)]
            if ss and r.random() < 0.5:
                t = r.choice(ss)
                used |= t.used
            elif ns and r.random() < 0.5:
                t = r.choice(ns)
            else:
                t = self.builtin()
            if not isinstance(t, Builtin):
                used |= {snake(t.name), pascal(t.name)}
            c.content = SimpleExt(t)
        elif k < o.ext + o.choice_top:
            c.content = self.choice(used, depth)
            c.content.no_occurs = True
        elif k < o.ext + o.choice_top + o.all_top:
            items = [self.elem(used, depth, r.choice([(1, 1), (0, 1)])) for _ in range(r.randint(1, o.width + 1))]
            c.content = Group('all', items, r.choice([1, 1, 1, 0]), 1)
            for e in items:
                if e.max is None or e.max > 1:
                    e.max = 1
                    if e.type is c or e.type is saved and saved is not None:
                        e.type = Builtin('string')
        elif r.random() < 0.06:
            c.content = None
        else:
            n = r.randint(1, o.width) if r.random() >= o.big else r.randint(12, 30)
            if self.huge():
                n, depth = r.randint(257, 280), 0
            mn, mx = 1, 1
            if r.random() < 0.15:
                mn, mx = r.choice([(0, 1), (0, None), (1, None), (1, 3), (0, 4)])
            rep = mx is None or mx > 1
            items = self.group_items(used, depth, n, first_required=rep)
            if not rep and r.random() < o.echo:
                k = r.randint(0, len(items))
                items[k:k] = self.echo(used)
            c.content = Group('seq', items, mn, mx)
        c.attrs = self.attrs(used)
        self.self_type = saved
        return c

    def is_rec(self, b):
        return False

    def has_all(self, b):
        while isinstance(b.content, ComplexExt):
            b = b.content.base
        return isinstance(b.content, Group) and b.content.kind == 'all'

    def build(self):
        r, o = self.r, self.o
        self.gused = {snake('Root'), pascal('Root')}
        self.simples, self.complexes, self.globals = [], [], []
        self.self_type = None
        kind = o.ns or r.choice(['none', 'none', 'unq', 'qual', 'qual-nons'])
        tns = {'none': None, 'qual-nons': None}.get(kind, r.choice(['urn:a', 'http://example.com/ns', 'urn:x:y:z',
                                                                    'http://example.com/a?b=c#d', 'tag:é,2024:x', 'http://example.com/?a=1&b=2']))
        main = File('main.xsd', tns, kind in ('qual', 'qual-nons'))
        main.explicit_unqualified = not main.qualified and r.random() < 0.2
        files = [main]
        self.mainq = main.qualified and main.tns is not None
        self.reach = {main: set()}
        nfiles = 0
        if r.random() < o.multifile:
            nfiles = r.randint(1, 3)
        many = o.many_ns and r.random() < o.many_ns
        if many:
            nfiles = r.randint(10, 14)
        for i in range(nfiles):
            sub = r.choice(['', '', 'sub/', 'sub/deep/'])
            inc = r.random() < 0.5 or (main.tns is None and not main.qualified and r.random() < 0.3)
            f = File('%spart%d.xsd' % (sub, i), main.tns if inc else 'urn:import:%d' % r.randint(1, 3), main.qualified)
            if many and r.random() < .95:
                f.tns = 'urn:import:%d' % (i + 1)
            elif not inc and main.tns is not None and r.random() < .15:
                f.tns = None
            elif not inc and r.random() < o.near_ns:
                # namespaces are compared as strings
                near = r.choice([g.tns for g in files if g.tns] or [f.tns])
                near = r.choice([near + '/', near.swapcase(), near.upper(), near.title(), near[:-1], near + '/v2', near + '%20', near.rstrip('/') + '//'])
                if near != main.tns:
                    f.tns = near
            if r.random() < .5:
                f.qualified = r.random() < .5
            files.append(f)
            self.reach[f] = set()
        # link the files into a tree rooted at main; extra links make diamonds and cycles
        for i, f in enumerate(files[1:], 1):
            parent = r.choice(files[:i])
            self.link(parent, f)
            if r.random() < 0.3 and i > 1:
                self.link(r.choice(files[:i]), f)
            if r.random() < 0.15:
                self.link(f, parent)
        self.close()
        self.files = files
        # content, leaves first
        for f in reversed(files):
            self.cur = f
            f.xs = r.choice(['xs', 'xs', 'xsd', 'q']) if f.tns is None else r.choice(['xs', 'xs', 'xsd', ''])
            used_p = {f.xs}
            for ns in [f.tns] + [g.tns for g in files]:
                if ns is not None and ns not in f.prefixes:
                    p = r.choice(['tns', 't', 'a', 'ns1', 'my-ns', ''] if ns == f.tns else ['b', 'c', 'o', 'x1', 'ns2'])
                    while p in used_p or (p == '' and '' in used_p) or (p == '' and any(
                            g.tns is None for g in files)):
                        p = 'p%d' % r.randint(1, 99)
                    used_p.add(p)
                    f.prefixes[ns] = p
            if f.xs == '' and any(g.tns is None for g in files):
                f.xs = 'xs'
            for n in range(r.randint(0, o.named_types) if not many else r.randint(1, 2)):
                k = r.random() if not many or n else r.uniform(.4, 1)
                if k < 0.4:
                    s = self.simple(self.gname())
                    s.file = f
                    self.simples.append(s)
                    f.items.append(s)
                elif k < 0.8:
                    n = self.gname()
                    c = Complex(n)
                    c = self.named_complex(n, f)
                    self.complexes.append(c)
                    f.items.append(c)
                else:
                    g = self.global_elem(self.gname(), f)
                    self.globals.append(g)
                    f.items.append(g)
        self.cur = main
        root = self.global_elem('Root', main, root=True)
        if many:
            # all namespaces in one document
            used = set()
            items = []
            for f in files[1:]:
                cs = [t for t in self.globals + self.complexes if t.file is f and self.visible(t)]
                g = r.choice(cs) if cs else None
                if isinstance(g, GlobalElem) and not ({snake(g.name), pascal(g.name)} & used):
                    used |= {snake(g.name), pascal(g.name)}
                    items.append(Elem(None, ref=g, min=r.choice([1, 1, 0]), max=1))
                elif g is not None and not isinstance(g, GlobalElem):
                    items.append(Elem(self.fresh(used), g, r.choice([1, 1, 0]), 1))
            if items:
                c = Complex(None)
                c.used = used
                c.content = Group('seq', items, 1, 1)
                root = GlobalElem('Root', c, None, None)
                root.file = main
        main.items.append(root)
        for f in files:
            if r.random() < 0.5:
                r.shuffle(f.items)
        s = Schema(main, files)
        s.roots = [root]
        return s

    def named_complex(self, n, f):
        self.cur = f
        c = self.complex(n, self.r.randint(0, self.o.depth))
        c.file = f
        return c

    def global_elem(self, name, f, root=False):
        r = self.r
        k = r.random()
        docs = self.docs()
        cs = [c for c in self.complexes if self.visible(c)]
        if k < (0.12 if root else 0.25):
            t = self.text_type()
            fixed = r.choice(['fx', '1', 'a b']) if isinstance(t, Builtin) and r.random() < 0.2 else None
            g = GlobalElem(name, t, fixed, docs)
        elif cs and k < 0.4:
            g = GlobalElem(name, r.choice(cs), None, docs)
        else:
            g = GlobalElem(name, self.complex(None, self.o.depth), None, docs)
        g.file = f
        return g

    def link(self, a, b):
        kind = 'include' if a.tns == b.tns else 'import'
        if any(x is b for _, x, _ in a.links) or a is b:
            return
        import posixpath
        loc = posixpath.relpath(b.path, posixpath.dirname(a.path) or '.')
        if self.r.random() < 0.2:
            loc = './' + loc
        a.links.append((kind, b, loc))

    def close(self):
        # what a file may refer to: everything it links to, transitively
        files = list(self.reach)
        for f in files:
            seen = set()
            todo = [x for _, x, _ in f.links]
            while todo:
                x = todo.pop()
                if x in seen:
                    continue
                seen.add(x)
                todo.extend(y for _, y, _ in x.links)
            self.reach[f] = seen


def make(r, opts=None, tries=60):
    """A random schema together with its declarations (names assigned)."""
    for _ in range(tries):
        try:
            s = SchemaGen(r, opts).build()
            d = assign_names(s)
        except Collision:
            continue
        s.decls = d
        return s
    raise RuntimeError('no collision-free schema found')
