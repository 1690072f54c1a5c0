"""Schema model: what a generated schema means, and what a correct xsd crate
has to make of it.  Nothing in here reads the implementation.

A `Schema` is a set of files.  `assign_names` computes the Rust API that the
schema promises (struct, enum, field and variant names); `render_xsd` the XSD text.
"""
from inflect import snake, pascal, ident, derive, enum_variants, raw

# builtin -> (kind, name used in error messages)
BUILTINS = {
    'string': ('str', 'string'), 'boolean': ('bool', 'boolean'),
    'integer': ('i64', 'long'), 'long': ('i64', 'long'),
    'nonNegativeInteger': ('u64', 'nonNegativeInteger'),
    'positiveInteger': ('u64', 'nonNegativeInteger'),
    'int': ('i32', 'int'), 'decimal': ('dec', 'decimal'), 'float': ('f32', 'float'),
    'time': ('str', 'time'), 'date': ('str', 'date'), 'dateTime': ('str', 'dateTime'),
    'duration': ('str', 'duration'), 'base64Binary': ('str', 'base64Binary'),
    'hexBinary': ('str', 'hexBinary'), 'any': ('str', 'any'), 'anyType': ('str', 'any'),
}
RUST = {'str': '::std::string::String', 'bool': 'bool', 'i64': 'i64', 'u64': 'u64', 'i32': 'i32',
        'dec': '::rust_decimal::Decimal', 'f32': 'f32'}
XSD = 'http://www.w3.org/2001/XMLSchema'


class Builtin:
    def __init__(self, name):
        self.name = name
        self.kind, self.errname = BUILTINS[name]


class Simple:
    def __init__(self, name, base, facets=(), enums=None, docs=None):
        self.name, self.base, self.facets, self.enums, self.docs = name, base, list(facets), enums, docs
        self.file = None
        self.rust = None        # ident of the Rust type (enums only, or named)

    @property
    def kind(self):
        return BUILTINS[self.base][0]

    @property
    def errname(self):
        return BUILTINS[self.base][1]


class Complex:
    def __init__(self, name, content=None, attrs=(), docs=None):
        self.name, self.content, self.attrs, self.docs = name, content, list(attrs), docs
        self.file = None
        self.rust = None
        self.mixed_false = False


class Group:
    """Seq, Choice or All."""
    def __init__(self, kind, items, min=1, max=1, docs=None):
        self.kind, self.items, self.min, self.max, self.docs = kind, items, min, max, docs
        self.rust = None        # ident of the virtual type (None: fields are inlined)
        self.field = None
        self.variant = None

    @property
    def vec(self):
        return self.max is None or self.max > 1


class SimpleExt:
    def __init__(self, base):
        self.base = base
        self.field = None


class ComplexExt:
    def __init__(self, base, seq=None):
        self.base, self.seq = base, seq
        self.field = None


class Elem:
    def __init__(self, name, type=None, min=1, max=1, fixed=None, default=None, docs=None, form=None, ref=None):
        self.name, self.type, self.min, self.max = name, type, min, max
        self.fixed, self.default, self.docs, self.form, self.ref = fixed, default, docs, form, ref
        self.file = None
        self.field = None
        self.variant = None

    @property
    def vec(self):
        return self.max is None or self.max > 1

    @property
    def lname(self):
        return self.ref.name if self.ref else self.name

    @property
    def ns(self):
        if self.ref:
            return self.ref.file.tns
        if self.form == 'qualified':
            return self.file.tns
        if self.form == 'unqualified':
            return None
        return self.file.tns if self.file.qualified else None

    @property
    def etype(self):
        return self.ref.type if self.ref else self.type

    @property
    def efixed(self):
        return self.ref.fixed if self.ref else self.fixed


class GlobalElem:
    def __init__(self, name, type, fixed=None, docs=None):
        self.name, self.type, self.fixed, self.docs = name, type, fixed, docs
        self.file = None
        self.rust = None

    @property
    def ns(self):
        return self.file.tns


class Attr:
    def __init__(self, name, type, use=None, default=None, fixed=None, docs=None):
        self.name, self.type, self.use, self.default, self.fixed, self.docs = name, type, use, default, fixed, docs
        self.field = None

    @property
    def optional(self):
        return self.use != 'required'


class File:
    def __init__(self, path, tns=None, qualified=False):
        self.path, self.tns, self.qualified = path, tns, qualified
        self.items = []
        self.links = []         # (kind, File)
        self.xs = 'xs'          # prefix of the XSD namespace ('' = default namespace)
        self.prefixes = {}      # namespace -> prefix ('' = default namespace)
        self.explicit_unqualified = False


class Schema:
    def __init__(self, main, files):
        self.main, self.files = main, files
        self.roots = []         # GlobalElem to decode

    def root(self, name):
        for f in self.files:
            for i in f.items:
                if isinstance(i, GlobalElem) and i.name == name:
                    return i
        raise KeyError(name)


class Collision(Exception):
    pass


class Decl:
    """One Rust item the schema promises."""
    def __init__(self, name, kind, members, docs=None):
        self.name, self.kind, self.members, self.docs = name, kind, members, docs


def typestr(t, names):
    """Rust type of the content of an element or attribute of type t."""
    if t is None:
        return RUST['str']
    if isinstance(t, Builtin):
        return RUST[t.kind]
    if isinstance(t, Simple):
        return raw(t.rust) if t.enums is not None else RUST[t.kind]
    return raw(t.rust)


def wrap(ts, min, vec):
    if vec:
        ts = '::std::vec::Vec<%s>' % ts
    if min == 0:
        ts = '::std::option::Option<%s>' % ts
    return ts


def assign_names(schema):
    """Computes all Rust names; returns the list of Decl.  Raises Collision when
    two things would get the same name (such schemas are outside the model)."""
    decls = {}

    def add(d):
        if d.name in decls:
            raise Collision('type ' + d.name)
        seen = set()
        for m in d.members:
            if m[0] in seen and d.kind != 'tuple':
                raise Collision('member %s::%s' % (d.name, m[0]))
            seen.add(m[0])
        decls[d.name] = d

    def etypestr(e):
        """type of the content of element e (no occurrence wrapping)"""
        if e.efixed is not None:
            return '()'
        return typestr(e.etype, None)

    def do_simple(s, vname):
        s.rust = ident(pascal(vname))
        if s.enums is not None:
            s.variants = enum_variants(s.enums)
            add(Decl(s.rust, 'enum', [(v,) for v, _ in s.variants], s.docs))
        else:
            add(Decl(s.rust, 'tuple', [('0', RUST[s.kind])], s.docs))

    def do_attr(a, parent):
        a.field = ident(snake(a.name))
        if a.use == 'prohibited':
            return None
        if isinstance(a.type, Simple) and a.type.name is None:
            if a.type.enums is not None:
                do_simple(a.type, derive([parent, a.name, 'Data']))
        ts = '()' if a.fixed is not None else typestr(a.type, None)
        return (a.field, ts if a.use == 'required' else '::std::option::Option<%s>' % ts, a.docs)

    def do_elem(e, parent, f):
        e.file = f
        e.field = ident(snake(e.lname))
        e.variant = ident(pascal(e.lname))
        if not e.ref and e.type is not None and not isinstance(e.type, Builtin) and e.type.name is None:
            vname = derive([parent, e.name, 'Data'])
            if isinstance(e.type, Simple):
                do_simple(e.type, vname)
            else:
                do_complex(e.type, vname, f)
            if has_docs(e):
                decls[e.type.rust].docs = e.docs

    def group_members(g, parent, f):
        res = []
        for i in g.items:
            if isinstance(i, Elem):
                do_elem(i, parent, f)
                res.append((i.field, i))
            else:
                leaf = do_group(i, parent, f, in_choice=False)
                i.field = ident(snake(leaf))
                res.append((i.field, i))
        return res

    def member_types(ms):
        out = []
        for field, i in ms:
            if isinstance(i, Elem):
                out.append((field, wrap(LATE(lambda i=i: etypestr(i)), i.min, i.vec), i.docs))
            else:
                out.append((field, wrap(i.rust_src, i.min, i.vec), i.docs if i.kind == 'seq' else None))
        return out

    def leaf_name(g):
        names = []
        for i in g.items:
            names.append(i.lname if isinstance(i, Elem) else i.leaf)
        return derive(names, True)

    def do_group(g, parent, f, in_choice):
        """virtual group; returns leaf name"""
        if g.kind == 'choice':
            do_variants(g, parent, f)
            leaf = g.leaf = leaf_name(g)
            g.rust = ident(pascal(derive([parent, leaf])))
            g.rust_src = raw(g.rust)
            add_choice(g)
        else:
            ms = group_members(g, parent, f)
            leaf = g.leaf = leaf_name(g)
            g.rust = ident(pascal(derive([parent, leaf] + (['Variant'] if in_choice else []))))
            g.rust_src = raw(g.rust)
            add(Decl(g.rust, 'struct', member_types(ms)))
        return leaf

    def do_variants(g, parent, f):
        for i in g.items:
            if isinstance(i, Elem):
                do_elem(i, parent, f)
            else:
                leaf = do_group(i, parent, f, in_choice=True)
                i.variant = ident(pascal(leaf))

    def add_choice(g):
        ms = []
        for i in g.items:
            ts = LATE(lambda i=i: etypestr(i)) if isinstance(i, Elem) else i.rust_src
            ms.append((i.variant, wrap(ts, 1, i.vec), i.docs if isinstance(i, Elem) or i.kind == 'seq' else None))
        add(Decl(g.rust, 'choice', ms))

    def do_complex(c, vname, f):
        c.rust = ident(pascal(vname))
        c.vname = vname
        parent = vname
        members = []
        k = c.content
        if isinstance(k, SimpleExt):
            if isinstance(k.base, Builtin):
                k.field = ident(snake(parent))
            else:
                k.field = ident(snake(k.base.name))
            members.append((k.field, LATE(lambda: typestr(k.base, None)), None))
        elif isinstance(k, ComplexExt):
            if k.seq is None:
                k.field = ident(snake(k.base.name))
                members.append((k.field, LATE(lambda: raw(k.base.rust)), None))
            else:
                k.field = 'base'
                ms = group_members(k.seq, parent, f)
                k.seq.rust = ident(pascal(derive([parent, k.base.name])))
                k.seq.rust_src = raw(k.seq.rust)
                k.seq.field = ident(snake(k.base.name))
                add(Decl(k.seq.rust, 'struct', member_types(ms)))
                members.append(('base', LATE(lambda: raw(k.base.rust)), None))
                members.append((k.seq.field, wrap(k.seq.rust_src, k.seq.min, False), None))
        elif isinstance(k, Group) and k.kind in ('seq', 'all'):
            ms = group_members(k, parent, f)
            if k.vec or k.min != 1:
                leaf = leaf_name(k)
                k.rust = ident(pascal(derive([parent, leaf])))
                k.rust_src = raw(k.rust)
                k.field = ident(snake(leaf))
                add(Decl(k.rust, 'struct', member_types(ms)))
                members.append((k.field, wrap(k.rust_src, k.min, k.vec), None))
            else:
                members.extend(member_types(ms))
        elif isinstance(k, Group):
            do_variants(k, parent, f)
            vn = derive([parent, 'Data'])
            k.rust = ident(pascal(vn))
            k.rust_src = raw(k.rust)
            k.field = ident(snake(vn))
            add_choice(k)
            members.append((k.field, k.rust_src, None))
        for a in c.attrs:
            m = do_attr(a, parent)
            if m:
                members.append(m)
        add(Decl(c.rust, 'struct', members, c.docs))

    for f in schema.files:
        for i in f.items:
            i.file = f
            i.rust = ident(pascal(i.name))
    for f in schema.files:
        for i in f.items:
            if isinstance(i, Simple):
                do_simple(i, i.name)
            elif isinstance(i, Complex):
                do_complex(i, i.name, f)
            else:
                t = i.type
                i.rust = ident(pascal(i.name))
                if isinstance(t, Simple) and t.name is None:
                    do_simple(t, i.name)
                    if has_docs(i):
                        decls[t.rust].docs = i.docs
                elif isinstance(t, Complex) and t.name is None:
                    do_complex(t, i.name, f)
                    if has_docs(i):
                        decls[t.rust].docs = i.docs
                else:
                    ts = '()' if i.fixed is not None else LATE(lambda t=t: typestr(t, None))
                    add(Decl(i.rust, 'tuple', [('0', ts)], i.docs))
    # late-bound type strings
    for d in decls.values():
        d.members = [tuple(str(x) if isinstance(x, (LATE, str)) else x for x in m) for m in d.members]
    return list(decls.values())


def has_docs(o):
    d = o.docs[0] if isinstance(o.docs, list) else o.docs
    return bool(d and d.strip())


class Markup(str):
    """a text that is written in some other way than with character references only"""
    def __new__(cls, text, xml):
        s = super().__new__(cls, text)
        s.xml = xml
        return s


class LATE:
    """A string that is only known once all names are assigned."""
    def __init__(self, fn):
        self.parts = [fn]

    def __str__(self):
        return ''.join(p if isinstance(p, str) else str(p()) for p in self.parts)

    def __format__(self, spec):
        return str(self)


def wrap(ts, min, vec):  # noqa: F811 (late-binding aware)
    if not vec and min != 0:
        return ts

    def go():
        s = str(ts)
        if vec:
            s = '::std::vec::Vec<%s>' % s
        if min == 0:
            s = '::std::option::Option<%s>' % s
        return s
    return LATE(go)


# ---------------------------------------------------------------- XSD text

def esc(s, attr=False):
    out = []
    for c in s:
        if c == '&':
            out.append('&amp;')
        elif c == '<':
            out.append('&lt;')
        elif c == '>':
            out.append('&gt;')
        elif c == '"' and attr:
            out.append('&quot;')
        elif c in '\t\n\r' and attr or c == '\r':
            out.append('&#%d;' % ord(c))
        else:
            out.append(c)
    return ''.join(out)


class XsdWriter:
    """Writes the files of a schema.  `rng` (optional) varies insignificant details."""
    def __init__(self, schema, rng=None, marks=None):
        self.schema, self.rng = schema, rng
        # declarations of prefixes inside of the schema; attributes and elements of other vocabularies
        self.local = self.maybe(0.3)
        self.custom = self.maybe(0.25)

    def maybe(self, p):
        return self.rng is not None and self.rng.random() < p

    def q(self, f, t):
        """QName of a named type or element"""
        if isinstance(t, Builtin):
            return (f.xs + ':' if f.xs else '') + t.name
        ns = t.file.tns
        if ns is None:
            return t.name
        p = f.prefixes[ns]
        return (p + ':' if p else '') + t.name

    def redeclare(self, f, attrs, body):
        """The same references by way of prefixes that are declared at the element itself"""
        out = []
        for k, v in attrs:
            if k in ('type', 'base', 'ref') and self.maybe(0.5):
                p, _, n = str(v).rpartition(':')
                uri = XSD if p == (f.xs or '') else {y or '': x for x, y in f.prefixes.items()}.get(p)
                how = self.rng.choice(['fresh', 'shadow', 'default'])
                taken = [x for x in f.prefixes.values() if x and x != f.xs and x != p]
                if how == 'shadow' and uri and taken and not body:
                    q = self.rng.choice(taken)
                    out.append(('xmlns:' + q, uri))
                    v = q + ':' + n
                elif how == 'default' and f.xs and not body:
                    out.append(('xmlns', uri or ''))
                    v = n
                elif uri:
                    q = self.rng.choice(['q1', 'q2', 'local'])
                    if q not in (f.xs, *f.prefixes.values()):
                        out.append(('xmlns:' + q, uri))
                        v = q + ':' + n
            out.append((k, v))
        return out

    def noise(self, f, name, attrs, body, ind):
        """Attributes and elements of other vocabularies, which say nothing about the schema"""
        taken = (f.xs, *f.prefixes.values())
        p = 'ext'
        while p in taken:
            p += 'x'
        extra = []
        for k in ('name', 'type', 'minOccurs', 'maxOccurs', 'use', 'default', 'fixed', 'form', 'base', 'value', 'nillable', 'mixed', 'hint',
                  'ref', 'targetNamespace', 'elementFormDefault'):
            if self.maybe(0.08):
                extra.append((p + ':' + k, self.rng.choice(['x', '0', '7', 'true', 'required', 'qualified', 'Other', 'unbounded'])))
        if self.maybe(0.3) and name not in ('restriction', 'enumeration') or body and self.maybe(0.2):
            kid = self.rng.choice(['element name="foreign"', 'annotation', 'documentation', 'complexType name="Foreign"', 'attribute name="foreign"',
                                   'enumeration value="foreign"', 'any', 'simpleType', 'sequence', 'restriction', 'x'])
            kid = '%s<%s:%s/>\n' % ('  ' * (ind + 1), p, kid)
            if name != 'documentation':
                body = kid + body if self.maybe(0.5) and body else (body or '') + kid
        if (extra or body and p + ':' in body) and name != 'schema':
            extra.append(('xmlns:' + p, 'urn:other-vocabulary'))
        elif name == 'schema':
            extra.append(('xmlns:' + p, 'urn:other-vocabulary'))
        return attrs + extra, body

    def tag(self, f, name, attrs, body=None, ind=0):
        pad = '  ' * ind
        attrs = [(k, v) for k, v in attrs if v is not None]
        if self.local:
            attrs = self.redeclare(f, attrs, body)
        if self.custom and self.maybe(0.3):
            attrs, body = self.noise(f, name, attrs, body, ind)
        if self.rng is not None and len(attrs) > 1 and self.maybe(0.3):
            self.rng.shuffle(attrs)
        n = (f.xs + ':' if f.xs else '') + name
        a = ''.join(" %s='%s'" % (k, esc(str(v), True).replace("'", '&apos;')) if self.maybe(0.1)
                    else ' %s="%s"' % (k, esc(str(v), True)) for k, v in attrs)
        pre = ''
        if self.maybe(0.04):
            pre = pad + '<!-- <%s name="commented"/> -->\n' % n
        if not body:
            return pre + '%s<%s%s/>\n' % (pad, n, a)
        return pre + '%s<%s%s>\n%s%s</%s>\n' % (pad, n, a, body, pad, n)

    def docs(self, f, docs, ind):
        if docs is None:
            return ''
        texts = docs if isinstance(docs, list) else [docs]
        n = (f.xs + ':' if f.xs else '') + 'documentation'
        return self.tag(f, 'annotation', [], ''.join('%s<%s>%s</%s>\n' % ('  ' * (ind + 1), n, getattr(t, 'xml', None) or esc(t), n)
                                                    for t in texts), ind)

    def occurs(self, p):
        res = []
        if p.min != 1 or self.maybe(0.1):
            res.append(('minOccurs', p.min))
        if p.max != 1:
            res.append(('maxOccurs', 'unbounded' if p.max is None else p.max))
        return res

    def file(self, f):
        attrs = []
        if f.xs:
            attrs.append(('xmlns:' + f.xs, XSD))
        else:
            attrs.append(('xmlns', XSD))
        for ns, p in f.prefixes.items():
            attrs.append(('xmlns' + (':' + p if p else ''), ns))
        if f.tns is not None:
            attrs.append(('targetNamespace', f.tns))
        if f.qualified:
            attrs.append(('elementFormDefault', 'qualified'))
        elif f.explicit_unqualified:
            attrs.append(('elementFormDefault', 'unqualified'))
        body = ''
        for kind, other, loc in f.links:
            body += self.tag(f, kind, [('namespace', other.tns if kind == 'import' else None),
                                       ('schemaLocation', loc)], None, 1)
        for i in f.items:
            body += self.item(f, i)
        head = '<?xml version="1.0" encoding="UTF-8"?>\n' if not self.maybe(0.2) else ''
        return head + self.tag(f, 'schema', attrs, body, 0).lstrip() if not head else \
            head + self.tag(f, 'schema', attrs, body, 0)

    def item(self, f, i):
        if isinstance(i, Simple):
            return self.simple(f, i, 1)
        if isinstance(i, Complex):
            return self.complex(f, i, 1)
        body = self.docs(f, i.docs, 2)
        t = i.type
        attrs = [('name', i.name)]
        if isinstance(t, Builtin) or t.name is not None:
            attrs.append(('type', self.q(f, t)))
            attrs.append(('fixed', i.fixed))
        else:
            body += self.simple(f, t, 2) if isinstance(t, Simple) else self.complex(f, t, 2)
        return self.tag(f, 'element', attrs, body, 1)

    def simple(self, f, s, ind):
        body = ''
        for k, v in s.facets:
            body += self.tag(f, k, [('value', v)], None, ind + 2)
        for v in s.enums or []:
            body += self.tag(f, 'enumeration', [('value', v)], None, ind + 2)
        r = self.tag(f, 'restriction', [('base', (f.xs + ':' if f.xs else '') + s.base)], body, ind + 1)
        return self.tag(f, 'simpleType', [('name', s.name)], self.docs(f, s.docs, ind + 1) + r, ind)

    def complex(self, f, c, ind):
        body = self.docs(f, c.docs, ind + 1)
        attrs = ''.join(self.attr(f, a, ind + 1) for a in c.attrs)
        k = c.content
        if isinstance(k, (SimpleExt, ComplexExt)):
            inner = ''
            if isinstance(k, ComplexExt) and k.seq is not None:
                inner += self.group(f, k.seq, ind + 3)
            inner += ''.join(self.attr(f, a, ind + 3) for a in c.attrs)
            ext = self.tag(f, 'extension', [('base', self.q(f, k.base))], inner, ind + 2)
            body += self.tag(f, 'simpleContent' if isinstance(k, SimpleExt) else 'complexContent', [], ext, ind + 1)
        else:
            if k is not None:
                body += self.group(f, k, ind + 1)
            body += attrs
        return self.tag(f, 'complexType', [('name', c.name), ('mixed', 'false' if c.mixed_false else None)], body, ind)

    def group(self, f, g, ind):
        name = {'seq': 'sequence', 'all': 'all', 'choice': 'choice'}[g.kind]
        body = self.docs(f, g.docs, ind + 1)
        for i in g.items:
            body += self.elem(f, i, ind + 1) if isinstance(i, Elem) else self.group(f, i, ind + 1)
        return self.tag(f, name, self.occurs(g) if not getattr(g, 'no_occurs', False) else [], body, ind)

    def elem(self, f, e, ind):
        if e.ref:
            return self.tag(f, 'element', [('ref', self.q(f, e.ref))] + self.occurs(e), self.docs(f, e.docs, ind + 1) or None, ind)
        attrs = [('name', e.name)]
        body = self.docs(f, e.docs, ind + 1)
        t = e.type
        if t is None:
            pass
        elif isinstance(t, Builtin) or t.name is not None:
            attrs.append(('type', self.q(f, t)))
            attrs.append(('fixed', e.fixed))
        else:
            body += self.simple(f, t, ind + 1) if isinstance(t, Simple) else self.complex(f, t, ind + 1)
        attrs += [('default', e.default), ('form', e.form)]
        return self.tag(f, 'element', attrs + self.occurs(e), body, ind)

    def attr(self, f, a, ind):
        attrs = [('name', a.name)]
        body = self.docs(f, a.docs, ind + 1)
        if isinstance(a.type, Builtin) or a.type.name is not None:
            attrs.append(('type', self.q(f, a.type)))
            attrs.append(('fixed', a.fixed))
        else:
            body += self.simple(f, a.type, ind + 1)
        attrs += [('use', a.use), ('default', a.default)]
        return self.tag(f, 'attribute', attrs, body, ind)


def render_xsd(schema, rng=None):
    w = XsdWriter(schema, rng)
    return {f.path: w.file(f) for f in schema.files}
