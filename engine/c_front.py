"""The schema front end: C09 what is not supported is rejected, C15 the result depends on the schema
only, C16 elements on their own, C18 documentation, C20 schemas of several files."""
import html
import os
import posixpath
import re
import shutil
import gen
import harness
import model
import pipe
from model import *

SCRATCH = os.path.join(harness.BUILD, 'front')


def write_files(key, texts):
    d = os.path.join(SCRATCH, key)
    shutil.rmtree(d, ignore_errors=True)
    for p, t in texts.items():
        harness.write(os.path.join(d, p), t)
    return d


# ------------------------------------------------------------ C09

LINE = re.compile(r'^(\s*)<((?:[\w-]+:)?)(\w+)((?:\s[^>]*?)?)(/?)>$')
CLOSE = re.compile(r'^\s*</')

UNSUPPORTED_TYPES = ['double', 'short', 'byte', 'unsignedInt', 'unsignedLong', 'unsignedShort', 'unsignedByte', 'negativeInteger',
                     'nonPositiveInteger', 'token', 'normalizedString', 'NMTOKEN', 'NMTOKENS', 'Name', 'NCName', 'ID', 'IDREF',
                     'IDREFS', 'ENTITY', 'QName', 'NOTATION', 'anyURI', 'language', 'gYear', 'gYearMonth', 'gMonth', 'gDay',
                     'gMonthDay', 'anySimpleType', 'anyAtomicType', 'String', 'Int', 'INT', 'str', 'nope', 'stringx', 'dateTimeStamp',
                     'yearMonthDuration']

CHILDREN = {
    'schema': ['group name="g"', 'attributeGroup name="g"', 'notation name="g" public="p"', 'unknown name="g"', 'annotation',
               'attribute name="g" type="{xs}string"', 'sequence', 'redefine schemaLocation="x.xsd"', 'key name="k"',
               'defaultOpenContent', 'complextype name="Q"', 'Element name="q" type="{xs}int"'],
    'sequence': ['any', 'group ref="g"', 'unknown', 'attribute name="zz" type="{xs}string"', 'all', 'key name="k"', 'simpleType',
                 'any namespace="##other" processContents="lax"', 'complexType'],
    'choice': ['any', 'group ref="g"', 'unknown', 'all', 'choice', 'attribute name="zz" type="{xs}string"'],
    'all': ['any', 'group ref="g"', 'unknown'],
    'complexType': ['anyAttribute', 'attributeGroup ref="g"', 'group ref="g"', 'unknown', 'assert test="1"', 'element name="zz"',
                    'anyAttribute namespace="##any"', 'openContent'],
    'extension': ['anyAttribute', 'attributeGroup ref="g"', 'unknown', 'group ref="g"', 'choice', 'all', 'element name="zz"'],
    'restriction': ['whiteSpace value="collapse"', 'minExclusive value="1"', 'maxExclusive value="9"', 'assertion test="1"',
                    'unknown value="1"', 'explicitTimezone value="required"', 'attribute name="zz" type="{xs}string"'],
    'simpleType': ['list itemType="{xs}int"', 'union memberTypes="{xs}int"', 'unknown'],
    'simpleContent': ['unknown', 'annotation', 'attribute name="zz" type="{xs}string"'],
    'complexContent': ['unknown', 'sequence', 'attribute name="zz" type="{xs}string"'],
    'element': ['key name="k"', 'unique name="k"', 'keyref name="k" refer="k"', 'alternative test="1"', 'unknown', 'element name="zz"', 'complextype',
                'sequence', 'attribute name="zz" type="{xs}string"', 'simpletype'],
    'annotation': ['unknown', 'element name="zz"'],
    'attribute': ['unknown', 'complexType'],
}
ATTRS = {
    'element': ['nillable="true"', 'nillable="false"', 'abstract="true"', 'substitutionGroup="x"', 'block="#all"', 'final="#all"', 'id="i"',
                'unknown="x"', 'targetNamespace="urn:x"', 'Name="x"'],
    'attribute': ['form="qualified"', 'form="unqualified"', 'id="i"', 'unknown="x"', 'targetNamespace="urn:x"', 'inheritable="true"',
                  'minOccurs="0"'],
    'complexType': ['abstract="true"', 'abstract="false"', 'block="extension"', 'final="extension"', 'id="i"', 'unknown="x"'],
    'simpleType': ['final="list"', 'id="i"', 'unknown="x"'],
    'sequence': ['id="i"', 'unknown="x"', 'name="x"'], 'choice': ['id="i"', 'unknown="x"'], 'all': ['id="i"', 'unknown="x"'],
    'simpleContent': ['id="i"', 'unknown="x"'], 'complexContent': ['id="i"', 'unknown="x"', 'mixed="true"'],
    'schema': ['attributeFormDefault="qualified"', 'attributeFormDefault=" qualified "', 'attributeFormDefault="Qualified"',
               'elementFormDefault=" qualified "', 'elementFormDefault="Qualified"', 'elementFormDefault="true"', 'elementFormDefault=""'],
    # ignored without consequences: attributes of facets, restrictions, imports and includes, id and version of the schema
}


class Line:
    def __init__(self, n, indent, prefix, tag, attrs, selfclosing, parent):
        self.n, self.indent, self.prefix, self.tag, self.attrs = n, indent, prefix, tag, attrs
        self.selfclosing, self.parent = selfclosing, parent
        self.kids = []
        self.close = None


def outline(text):
    """The start tags of a schema file, one per line."""
    lines = text.split('\n')
    stack, out = [], []
    for n, l in enumerate(lines):
        if CLOSE.match(l) and stack:
            stack.pop().close = n
            continue
        m = LINE.match(l)
        if not m or m.group(2).startswith('ext'):
            continue
        e = Line(n, m.group(1), m.group(2), m.group(3), m.group(4), m.group(5) == '/', stack[-1] if stack else None)
        if e.parent:
            e.parent.kids.append(e)
        out.append(e)
        if not e.selfclosing:
            stack.append(e)
    return lines, out


def set_attr(line, name, value):
    return re.sub(r'(\s%s=)("[^"]*"|\'[^\']*\')' % re.escape(name), lambda m: '%s"%s"' % (m.group(1), value), line, count=1)


def has(e, name):
    return re.search(r'\s%s=' % re.escape(name), e.attrs) is not None


def injections(text, r):
    """[(label, new text, allowed rows, expected substring of the message or None)]"""
    lines, es = outline(text)
    out = []

    def with_line(n, new):
        return '\n'.join(lines[:n] + [new] + lines[n + 1:])

    def insert(n, new):
        return '\n'.join(lines[:n] + [new] + lines[n:])
    for e in es:
        row = e.n + 1
        here = lines[e.n]
        up = [e.parent.n + 1] if e.parent else []
        # children
        if not e.selfclosing and e.close is not None:
            for ch in CHILDREN.get(e.tag, []):
                ch = ch.replace('{xs}', e.prefix)
                name = ch.split(' ')[0]
                spots = [k.n for k in e.kids] + [e.close]
                if e.kids and e.kids[0].tag == 'annotation':
                    spots = spots[1:]
                n = r.choice(spots)
                out.append(('<%s> in <%s>' % (name, e.tag), insert(n, '<%s%s/>' % (e.prefix, ch)), {n + 1, row}, name))
        if e.selfclosing and e.tag in ('element', 'attribute') and 'prohibited' not in e.attrs:
            for ch in CHILDREN[e.tag]:
                ch = ch.replace('{xs}', e.prefix)
                name = ch.split(' ')[0]
                new = re.sub(r'/>$', '>', here) + '<%s%s/></%s%s>' % (e.prefix, ch, e.prefix, e.tag)
                out.append(('<%s> in <%s>' % (name, e.tag) + (' with ref' if has(e, 'ref') else ' of a type' if has(e, 'type') else ' without a type'),
                            with_line(e.n, new), {row}, name))
        if e.tag in ('element', 'attribute') and 'prohibited' not in e.attrs and not any(has(e, a) for a in ('fixed', 'default', 'ref')):
            t = re.search(r'\stype=["\']([^"\']*)', e.attrs)
            if 'xmlns' not in e.attrs and (not t or t.group(1).rpartition(':')[0] != e.prefix.rstrip(':')):
                new = re.sub(r'(/?)>$', ' fixed="x"\\1>', here)
                out.append(('fixed on <%s> %s' % (e.tag, 'of a named type' if t else 'with an inline type' if e.kids else 'without a type'),
                            with_line(e.n, new), {row}, 'fixed'))
        # attributes
        for at in ATTRS.get(e.tag, []) if 'prohibited' not in e.attrs else []:
            name = at.split('=')[0]
            if not has(e, name):
                new = re.sub(r'(/?)>$', ' %s\\1>' % at, here)
                out.append(('%s on <%s>' % (at, e.tag), with_line(e.n, new), {row}, name))
        # values
        if e.tag == 'complexType':
            for v in ('true', '1', ' true ', 'TRUE'):
                new = set_attr(here, 'mixed', v) if has(e, 'mixed') else re.sub(r'(/?)>$', ' mixed="%s"\\1>' % v, here)
                out.append(('mixed="%s"' % v, with_line(e.n, new), {row}, 'mixed'))
        if e.tag == 'element' and not (e.parent and e.parent.tag == 'schema') or e.tag in ('sequence', 'choice') and e.parent.tag in (
                'sequence', 'choice') and not (e.tag == 'sequence' and e.parent.tag == 'sequence'):
            for a, vs in (('minOccurs', ['-1', 'x', '1.5', '', '99999999999999999999', 'unbounded']),
                          ('maxOccurs', ['many', '-1', '', '1.5', 'Unbounded', '99999999999999999999'])):
                v = r.choice(vs)
                new = set_attr(here, a, v) if has(e, a) else re.sub(r'(/?)>$', ' %s="%s"\\1>' % (a, v), here)
                out.append(('%s="%s"' % (a, v), with_line(e.n, new), {row}, None))
        # occurrences of groups that cannot be represented
        for tag, parents, a, vs in (('sequence', ('sequence', 'extension'), 'maxOccurs', ['2', 'unbounded', '40']),
                                    ('choice', ('complexType',), 'maxOccurs', ['2', 'unbounded', '40']), ('choice', ('complexType',), 'minOccurs', ['0'])):
            if e.tag == tag and e.parent and e.parent.tag in parents:
                v = r.choice(vs)
                new = set_attr(here, a, v) if has(e, a) else re.sub(r'(/?)>$', ' %s="%s"\\1>' % (a, v), here)
                out.append(('%s="%s" on <%s> in <%s>' % (a, v, tag, e.parent.tag), with_line(e.n, new), {row}, a))
        for a in ('type', 'base'):
            if has(e, a):
                t = r.choice(UNSUPPORTED_TYPES)
                out.append(('unsupported builtin in %s of <%s>' % (a, e.tag), with_line(e.n, set_attr(here, a, e.prefix + t)), {row}, t))
                out.append(('undeclared prefix in %s of <%s>' % (a, e.tag), with_line(e.n, set_attr(here, a, 'nsx:T')), {row}, 'nsx'))
        if has(e, 'ref') and e.tag == 'element':
            out.append(('undeclared prefix in ref', with_line(e.n, set_attr(here, 'ref', 'nsx:T')), {row}, 'nsx'))
        if e.tag == 'attribute':
            v = r.choice(['maybe', 'Required', '', 'true', 'REQUIRED'])
            new = set_attr(here, 'use', v) if has(e, 'use') else re.sub(r'(/?)>$', ' use="%s"\\1>' % v, here)
            out.append(('use="%s"' % v, with_line(e.n, new), {row}, 'use'))
            if not has(e, 'default') and not has(e, 'fixed'):
                new = set_attr(here, 'use', 'required') if has(e, 'use') else re.sub(r'(/?)>$', ' use="required"\\1>', here)
                new = re.sub(r'(/?)>$', ' default="x"\\1>', new)
                out.append(('default and required', with_line(e.n, new), {row}, 'default'))
        for a in ('name', 'schemaLocation', 'value', 'base'):
            if has(e, a) and not (e.tag == 'element' and a == 'name' and e.parent.tag != 'schema' and False):
                new = re.sub(r'\s%s=("[^"]*"|\'[^\']*\')' % a, '', here, count=1)
                out.append(('<%s> without %s' % (e.tag, a), with_line(e.n, new), {row}, a))
        if e.tag in ('minLength', 'maxLength', 'length', 'totalDigits', 'fractionDigits', 'minInclusive', 'maxInclusive'):
            v = r.choice(['x', '', '1x', '--1'])
            out.append(('%s value="%s"' % (e.tag, v), with_line(e.n, set_attr(here, 'value', v)), {row}, None))
        if e.tag in ('minLength', 'maxLength', 'length'):
            v = r.choice(['-1', '1.5', '1e2'])
            out.append(('%s value="%s"' % (e.tag, v), with_line(e.n, set_attr(here, 'value', v)), {row}, None))
        if e.tag == 'extension' and e.parent.tag == 'complexContent':
            t = r.choice(['string', 'int', 'anyType', 'date'])
            out.append(('builtin base of complexContent', with_line(e.n, set_attr(here, 'base', e.prefix + t)), {row}, 'base'))
        if has(e, 'ref') and e.tag == 'element':
            out.append(('ref to a builtin', with_line(e.n, set_attr(here, 'ref', e.prefix + r.choice(['string', 'int']))), {row}, 'ref'))
        if e.parent and e.parent.tag == 'schema' and e.tag in ('complexType', 'simpleType', 'element') and has(e, 'name'):
            name = html.unescape(re.search(r'\sname=["\']([^"\']*)', e.attrs).group(1))
            n = r.choice([k.n for k in e.parent.kids] + [e.parent.close])
            k = r.choice(['<{0}simpleType name="{1}"><{0}restriction base="{0}string"/></{0}simpleType>',
                          '<{0}complexType name="{1}"><{0}sequence><{0}element name="other" type="{0}int"/></{0}sequence></{0}complexType>',
                          '<{0}element name="{1}"><{0}complexType><{0}sequence><{0}element name="other" type="{0}int"/></{0}sequence></{0}complexType></{0}element>'])
            out.append(('%s of the name of a %s' % (re.search(r'}(\w+)', k).group(1), e.tag), insert(n, k.format(e.prefix, name)),
                        {n + 1, row if n > e.n else row + 1}, name))
        # other elements in their place
        if e.tag == 'extension':
            new = with_line(e.n, here.replace('extension', 'restriction', 1))
            if not e.selfclosing:
                ls = new.split('\n')
                ls[e.close] = ls[e.close].replace('extension', 'restriction')
                new = '\n'.join(ls)
            out.append(('<restriction> in <%s>' % e.parent.tag, new, {row} | set(up), None))
        if e.tag == 'restriction' and e.selfclosing:
            for k in ('list itemType="%sint"' % e.prefix, 'union memberTypes="%sint"' % e.prefix):
                out.append(('<%s> for <restriction>' % k.split(' ')[0], with_line(e.n, '<%s%s/>' % (e.prefix, k)), {row} | set(up), None))
        if e.tag == 'schema':
            out.append(('root is not a schema', text.replace(e.prefix + 'schema', e.prefix + 'scheme'), None, None))
    return out


def c09(c):
    d = harness.Driver().build()
    prof = pipe.PROFILES + [dict(multifile=1.0), dict(multifile=1.0, ns='unq', docs=.3), dict(ext=.5, enums=.5, attrs=.8)]
    kinds = {}
    for rnd in pipe.rounds(c, 1):
        cases = []
        for i in range(c.pick(500, 1500)):
            r = c.rng('schema', rnd, i)
            s = gen.make(r, gen.Opts(**prof[i % len(prof)]))
            texts = model.render_xsd(s, r if i % 2 else None)
            path = r.choice(sorted(texts))
            inj = injections(texts[path], r)
            # one of each label at most, rare ones preferred
            by = {}
            for q in inj:
                by.setdefault(q[0], []).append(q)
            labels = sorted(by, key=lambda l: (kinds.get(l, 0), r.random()))
            for l in labels[:6]:
                kinds[l] = kinds.get(l, 0) + 1
                q = r.choice(by[l])
                new = dict(texts)
                new[path] = q[1]
                base = write_files('c09/%d-%d' % (i, len(cases)), new)
                cases.append((base, path, q, new))
        res = d.run([('file', os.path.join(k[0], 'main.xsd')) for k in cases])
        for (base, path, (label, _, rows, word), new), q in zip(cases, res):
            if q is None:
                continue
            c.seen(label, new[path])
            bad = pipe.crashed(q)
            if bad:
                pass
            elif 'err' not in q:
                bad = 'the schema is accepted'
            elif q['err'] != 'Xsd':
                bad = 'rejected with %s: %s' % (q['err'], q['msg'])
            elif os.path.realpath(q['file']) != os.path.realpath(os.path.join(base, path)):
                bad = 'the error names the file %s instead of %s' % (q['file'], path)
            elif rows is not None and q['row'] not in rows:
                bad = 'the error names line %d instead of %s: %s' % (q['row'], sorted(rows), q['msg'])
            elif os.path.basename(path) not in q['msg'] or str(q['row']) not in q['msg']:
                bad = 'the message does not name file and line: ' + q['msg']
            elif word and not re.search(r'(?<![\w.-])%s(?![\w-])' % re.escape(word), q['msg'].replace(base, '')):
                bad = 'the message does not name %s: %s' % (word, q['msg'])
            c.count('rejected: ' + label if not bad else 'VIOLATED: ' + label)
            if bad:
                c.violate('%s: %s' % (label, bad), dict(op='file', input=os.path.join(base, 'main.xsd'), files=new, result=q))
            else:
                c.sample(dict(injected=label, message=q['msg']), 4)
        # one name, declared in two files
        cases = list(doubled())
        for (label, texts, name), q in zip(cases, d.run([('file', os.path.join(write_files('c09/d%d' % k, t), 'main.xsd')) for k, (_, t, _) in enumerate(cases)])):
            if q is None:
                continue
            c.seen(label, repr(texts))
            c.count('one name declared in two files')
            bad = pipe.crashed(q)
            if not bad and 'err' not in q:
                bad = 'the schema is accepted'
            elif not bad and (q['err'] != 'Xsd' or name not in q['msg'] or not re.search(r'\b%d\b' % q['row'], q['msg']) or os.path.basename(q['file']) not in texts):
                bad = 'the error does not name the file, the line and %s: %s' % (name, q['msg'])
            if bad:
                c.violate('%s: %s' % (label, bad), dict(op='file', files=texts, result=q))
        shutil.rmtree(os.path.join(SCRATCH, 'c09'), ignore_errors=True)


def doubled():
    head = '<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema"%s>\n%s\n</xs:schema>'
    kinds = {'simpleType': '<xs:simpleType name="Twice"><xs:restriction base="xs:%s"/></xs:simpleType>',
             'complexType': '<xs:complexType name="Twice"><xs:attribute name="a" type="xs:%s"/></xs:complexType>',
             'element': '<xs:element name="Twice" type="xs:%s"/>'}
    for ns in ('', ' targetNamespace="urn:a"'):
        for a in sorted(kinds):
            for b in sorted(kinds):
                inc = '<xs:include schemaLocation="%s.xsd"/>'
                other = '<xs:element name="Root" type="xs:int"/>'
                first, second = kinds[a] % 'int', kinds[b] % 'string'
                yield 'in a file and in one it includes last', {'main.xsd': head % (ns, other + first + inc % 'o'), 'o.xsd': head % (ns, second)}, 'Twice'
                yield 'in a file and in one it includes first', {'main.xsd': head % (ns, inc % 'o' + other + first), 'o.xsd': head % (ns, second)}, 'Twice'
                yield 'in two included files', {'main.xsd': head % (ns, other + inc % 'o' + inc % 'p'), 'o.xsd': head % (ns, first), 'p.xsd': head % (ns, second)}, 'Twice'
                yield 'in a file and one included by another', {'main.xsd': head % (ns, first + other + inc % 'o'), 'o.xsd': head % (ns, inc % 'p'),
                                                                'p.xsd': head % (ns, second)}, 'Twice'


# ------------------------------------------------------------ C15

def canon(items, code=True):
    """The generated items as a multiset."""
    out = []
    for i in items:
        d = dict(i)
        if not code:
            d.pop('code', None)
        out.append(repr(sorted(d.items())))
    return sorted(out)


def first_difference(a, b):
    sa, sb = set(a), set(b)
    return 'only once: %s / %s' % ([x[:300] for x in sorted(sa - sb)][:2], [x[:300] for x in sorted(sb - sa)][:2])


def shuffled(s, r):
    for f in s.files:
        r.shuffle(f.items)


def has_imports(s):
    return len({f.tns for f in s.files}) > 1


def elements(c, d, rnd, schemas):
    """The items of single elements come in the same order each time, too."""
    flat = [p for p, _ in schemas[:c.pick(100, 600)] for _ in range(3)]
    c.rng('elements', rnd).shuffle(flat)
    seen = {}
    for p, q in zip(flat, d.run([('elements', p) for p in flat])):
        if q is None or pipe.crashed(q) or 'each' not in q:
            continue            # C10, C16
        c.count('items of each element again')
        k = ([(e['name'], e.get('hash'), e.get('err')) for e in q['each']], [q.get(x) for x in ('shared_hash', 'shared_rev_hash')])
        c.seen('elements', p)
        if seen.setdefault(p, k) != k:
            c.violate('the items of an element come in another order or differ from run to run', dict(op='elements', input=p, files=dict(schemas)[p]))
            return


def c15(c):
    d = harness.Driver().build()
    for rnd in pipe.rounds(c, 1):
        cases, info = [], []
        for i in range(c.pick(260, 1500)):
            r = c.rng('schema', rnd, i)
            prof = pipe.PROFILES[i % len(pipe.PROFILES)]
            s = gen.make(r, gen.Opts(**prof))
            plain = model.render_xsd(s)
            groups = []
            # the same files several times: every run of the driver has other hash seeds, and other schemas in between
            base = os.path.join(write_files('c15/%d-a' % i, plain), 'main.xsd')
            groups.append(('the same schema again', [base] * 4, 'text'))
            # a schema with several faults: the same one is reported each time
            broken = dict(plain)
            for _ in range(r.randint(2, 4)):
                f = r.choice(sorted(broken))
                inj = injections(broken[f], r)
                if inj:
                    kind = r.choice(sorted({q[0].split(' ')[-1] for q in inj}))
                    broken[f] = r.choice([q for q in inj if q[0].split(' ')[-1] == kind])[1]
            path = os.path.join(write_files('c15/%d-f' % i, broken), 'main.xsd')
            groups.append(('the same faulty schema again', [path] * 5, 'error'))
            broken = dict(plain)
            f = r.choice(sorted(broken))
            lines, es = outline(broken[f])
            es = [e for e in es if 'prohibited' not in e.attrs and len([a for a in ATTRS.get(e.tag, []) if not has(e, a.split('=')[0])]) > 1]
            for e in r.sample(es, min(len(es), r.randint(1, 3))):
                free = {a.split('=')[0]: a for a in ATTRS[e.tag] if not has(e, a.split('=')[0])}
                free = [free[a] for a in r.sample(sorted(free), min(len(free), r.randint(2, 4)))]
                lines[e.n] = re.sub(r'(/?)>$', lambda m: ' ' + ' '.join(free) + m.group(1) + '>', lines[e.n])
            broken[f] = '\n'.join(lines)
            path = os.path.join(write_files('c15/%d-h' % i, broken), 'main.xsd')
            groups.append(('the same schema with several unsupported attributes again', [path] * 5, 'error'))
            dangling = dict(plain)
            refs = sorted({m.group(1) for t in plain.values() for m in re.finditer(r'<\w*:?(?:complexType|simpleType) name="([^"]+)"', t)})
            gone = r.sample(refs, min(len(refs), r.randint(2, 3)))
            for f in dangling:
                for g in gone:
                    dangling[f] = re.sub(r'(<\w*:?(?:complexType|simpleType) name=")%s"' % re.escape(g), lambda m: m.group(1) + g + 'X"', dangling[f])
            path = os.path.join(write_files('c15/%d-g' % i, dangling), 'main.xsd')
            groups.append(('the same schema with dangling references again', [path] * 5, 'error'))
            # other spellings of the same schema
            alt = []
            for k in range(3):
                alt.append(os.path.join(write_files('c15/%d-n%d' % (i, k), model.render_xsd(s, r)), 'main.xsd'))
            groups.append(('another spelling (attribute order, quotes, comments)', [base] + alt, True))
            alt = []
            for k in range(2):
                shuffled(s, r)
                alt.append(os.path.join(write_files('c15/%d-o%d' % (i, k), model.render_xsd(s, r)), 'main.xsd'))
            # (the numbering of the namespaces follows the order of their first use, so the code may differ there)
            groups.append(('another order of the declarations', [base] + alt, not has_imports(s)))
            # the same files at another place
            deep = os.path.join(write_files('c15/%d-d/x/é y' % i, plain), 'main.xsd')
            groups.append(('the same files in another folder', [base, deep], 'text'))
            for g in groups:
                info.append((i, plain) + g)
        flat = [(n, p) for n, g in enumerate(info) for p in g[3]]
        order = c.rng('order', rnd)
        order.shuffle(flat)
        # several processes, each with its own history
        res = d.run([('file', p) for _, p in flat])
        elements(c, d, rnd, sorted({g[3][0]: g[1] for g in info if g[2] == 'the same schema again'}.items()))
        by = {}
        for (n, p), q in zip(flat, res):
            by.setdefault(n, []).append((p, q))
        texts = {}
        for n, (i, plain, label, paths, code) in enumerate(info):
            first = None
            for p, q in by.get(n, []):
                if q is None:
                    continue
                c.seen(label, plain['main.xsd'], p)
                c.count(label)
                bad = pipe.crashed(q)
                if not bad and 'items' not in q and code != 'error':
                    bad = 'a supported schema is rejected: %s' % q.get('msg', q)
                if not bad and 'items' not in q:
                    k = {x: y for x, y in q.items() if x not in ('id', 'peak', 'allocs', 'mem')}
                    c.count('errors compared')
                    if first is None:
                        first = k
                    elif k != first:
                        bad = 'sometimes %s, sometimes %s' % (str(first)[:600], str(k)[:600])
                elif not bad:
                    k = canon(q['items'], code)
                    if code == 'text':
                        texts.setdefault(n, set()).add(q['hash'])
                    if first is None:
                        first = k
                        c.count('items', len(k))
                    elif k != first:
                        bad = first_difference(first, k)
                    elif len(texts.get(n, ())) > 1:
                        bad = 'the items come in another order'
                if bad:
                    c.violate('%s: %s' % (label, bad), dict(op='file', input=p, files=plain))
                    break
            else:
                c.sample(dict(schema=plain['main.xsd'][:500], variation=label, items=len(first or [])), 3)
        shutil.rmtree(os.path.join(SCRATCH, 'c15'), ignore_errors=True)


# ------------------------------------------------------------ C16

def types_of(items):
    """name -> names of the other generated types its members mention"""
    names = {i['name'] for i in items if i['kind'] in ('struct', 'enum')}
    out = {}
    for i in items:
        if i['kind'] in ('struct', 'enum'):
            used = set()
            for m in i['members']:
                # paths of one segment: ::std::string::String is not an own type String
                for path in re.findall(r'(?:::)?(?:r#)?\w+(?:::(?:r#)?\w+)*', m[1]):
                    path = re.sub(r'^(self|super)::', '', path)
                    used |= {path} & names
            out[i['name']] = used
    return out


def c16(c):
    d = harness.Driver().build()
    prof = [dict(), dict(names='cased', named_types=6), dict(ext=.5, named_types=6), dict(group=.5, choice_top=.4, named_types=5),
            dict(multifile=.9, named_types=4), dict(ns='unq', multifile=.7), dict(ns='qual', multifile=.7, named_types=5),
            dict(rec=.6, named_types=5), dict(enums=.6, attrs=.8, named_types=6), dict(names='cased', docs=.3, named_types=5)]
    for rnd in pipe.rounds(c, 1):
        cases = []
        for i in range(c.pick(400, 4000)):
            r = c.rng('schema', rnd, i)
            s = gen.make(r, gen.Opts(**prof[i % len(prof)]))
            texts = model.render_xsd(s, r)
            cases.append((s, texts, os.path.join(write_files('c16/%d' % i, texts), 'main.xsd')))
        if rnd == 0:
            for k, (what, t) in enumerate(meshes()):
                cases.append((None, {'main.xsd': t}, os.path.join(write_files('c16/m%d' % k, {'main.xsd': t}), 'main.xsd')))
        for (s, texts, path), q in zip(cases, d.run([('elements', p) for _, _, p in cases])):
            if q is None:
                continue
            if s is None:
                c.seen('mesh', path)
                c.count('schemas with very many paths between types')
            bad = judge_elements(c, s, q)
            if bad:
                c.violate(bad, dict(op='elements', input=path, files=texts, result=str(q)[:20000]))
        shutil.rmtree(os.path.join(SCRATCH, 'c16'), ignore_errors=True)


def meshes():
    """Schemas in which exponentially many paths lead from one type to another."""
    head = '<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema">%s<xs:element name="Root" type="T0"/></xs:schema>'
    typ = lambda n, *ds: '<xs:complexType name="%s"><xs:sequence>%s</xs:sequence></xs:complexType>' % (
        n, ''.join('<xs:element name="e%d" type="%s" minOccurs="0"/>' % q for q in enumerate(ds)))
    n = 30
    yield 'diamonds', head % (
        ''.join(typ('T%d' % i, 'U%d' % i, 'V%d' % i) + typ('U%d' % i, 'T%d' % (i + 1)) + typ('V%d' % i, 'T%d' % (i + 1)) for i in range(n)) + typ('T%d' % n))
    yield 'each on all that follow', head % ''.join(typ('T%d' % i, *['T%d' % j for j in range(i + 1, n)]) for i in range(n))
    yield 'each on each', head % ''.join(typ('T%d' % i, *['T%d' % j for j in range(n)]) for i in range(n))
    yield 'long cycle', head % ''.join(typ('T%d' % i, 'T%d' % ((i + 1) % 100)) for i in range(100))
    ext = lambda a, b: '<xs:complexType name="%s"><xs:complexContent><xs:extension base="%s"><xs:sequence><xs:element name="x" type="%s" minOccurs="0"/>' \
        '</xs:sequence></xs:extension></xs:complexContent></xs:complexType>' % (a, b, b)
    yield 'extensions', head % (''.join(ext('T%d' % i, 'T%d' % (i + 1)) for i in range(n)) + typ('T%d' % n))


def dup(items):
    seen = set()
    for i in items:
        k = (i['kind'], i['name'], i.get('trait'), repr(i.get('fns')))
        if k in seen:
            return '%s %s %s' % k[:3]
        seen.add(k)
    return None


def judge_elements(c, s, q):
    bad = pipe.crashed(q)
    if bad:
        return bad
    if 'items' not in q or 'each' not in q:
        return 'a supported schema is rejected: %s' % (q.get('msg') or q.get('notrust') or q)
    everything = {repr(sorted(i.items())) for i in q['items']}
    graph = types_of(q['items'])
    rust = {(i.name, i.ns or ''): i.rust for f in s.files for i in f.items if isinstance(i, GlobalElem)} if s else {('Root', ''): 'Root'}
    listed = {tuple(e['name']) for e in q['each']}
    if not listed >= set(rust):
        return 'the schema lists %s, but not %s' % (sorted(listed), sorted(set(rust) - listed))
    for e in q['each']:
        name = tuple(e['name'])
        if 'items' not in e:
            return 'element %s: %s' % (name, e)
        c.seen(name[0], len(e['items']), repr(sorted(graph)))
        d = dup(e['items'])
        if d:
            return 'element %s: generated twice: %s' % (name, d)
        for i in e['items']:
            if repr(sorted(i.items())) not in everything:
                return 'element %s: %s %s differs from what the whole schema gives' % (name, i['kind'], i['name'])
        got = {i['name'] for i in e['items'] if i['kind'] in ('struct', 'enum')}
        if name not in rust:
            # a type: what comes along with it is not promised
            c.count('types generated on their own')
            continue
        want, todo = set(), [model.raw(rust[name]) if model.raw(rust[name]) in graph else rust[name]]
        while todo:
            x = todo.pop()
            if x not in want:
                want.add(x)
                todo.extend(graph.get(x, ()))
        if not want <= got:
            return 'element %s: types it depends on are missing: %s' % (name, sorted(want - got))
        if e['again'] != 0:
            return 'element %s: generated again although it is in the set of generated names' % (name,)
        # every implementation of the types comes along
        impls = {(i['name'], i['trait'], repr(i['fns'])) for i in q['items'] if i['kind'] == 'impl' and i['name'] in got}
        have = {(i['name'], i['trait'], repr(i['fns'])) for i in e['items'] if i['kind'] == 'impl'}
        if impls != have:
            return 'element %s: implementations differ: %s' % (name, sorted(impls ^ have)[:4])
        c.count('elements generated on their own')
        c.count('types in the closures', len(got))
    for k in ('shared', 'shared_rev'):
        if k not in q:
            return 'all elements with a shared set: %s' % q.get(k + '_err')
        d = dup(q[k])
        if d:
            return 'all elements with a shared set: generated twice: %s' % d
        if not {repr(sorted(i.items())) for i in q[k]} <= everything:
            return 'all elements with a shared set: items differ from what the whole schema gives'
    a, b = ({(i['kind'], i['name'], i.get('trait')) for i in q[k]} for k in ('shared', 'shared_rev'))
    if a != b:
        return 'the order of requests matters: %s' % sorted(map(str, a ^ b))[:4]
    union = {(i['kind'], i['name'], i.get('trait')) for e in q['each'] for i in e['items']}
    if a != union:
        return 'all elements with a shared set: %s' % sorted(map(str, a ^ union))[:4]
    for k in ('unknown_none', 'unknown_ns'):
        if not q[k].startswith('NotFound') or 'NoSuchElement-xyz' not in q[k]:
            return 'an element that does not exist: ' + q[k]
    c.sample(dict(elements=sorted(listed)[:5], shared=len(q['shared'])), 3)
    return None


# ------------------------------------------------------------ C18

def doc_text(r):
    words = ['A', 'the', 'word', 'Größe', '日本', '"quoted"', "it's", '`code`', '\\', '{brace}', '<tag>', '&', '#', '//', '/*', '*/', '///',
             '%s', '100%', "'", 'x' * 80, '[link](http://x)', '\u00e9\u0301', '\U0001f600', 'line', 'r#"', '"#', '\\n', '$crate', '!']
    n = r.choice([1, 2, 5, 12, 60] * 12 + [300, 1500, 9000])
    out = ''
    for k in range(n):
        out += r.choice(words)
        if k < n - 1:
            out += r.choice([' ', ' ', ' ', '\n', '\n    ', '  ', '\t', '\n\n'])
    if r.random() < .3:
        out = r.choice([' ', '\n   ', '\t']) + out + r.choice([' ', '\n', '  \n '])
    if r.random() < .05:
        out = r.choice(['', ' ', '\n\t '])
    if r.random() < .25:
        return markup(out, r)
    return out


def markup(text, r):
    """the same text with comments, CDATA sections, processing instructions and elements in it"""
    xml, k, depth = '', 0, []
    while k < len(text) or depth:
        n = r.choice([1, 3, 10, 100])
        part, k = text[k:k + n], k + n
        x = r.randrange(8)
        if x == 0 and ']]>' not in part and '\r' not in part:
            xml += '<![CDATA[%s]]>' % part
        else:
            xml += model.esc(part)
        if x == 1:
            xml += '<!-- %s -->' % r.choice(['no', '<b>', 'x y'])
        elif x == 2:
            xml += '<?pi no?>'
        elif x == 3 and len(depth) < 4 and k < len(text):
            depth.append(r.choice(['b', 'p', 'h:b', 'xs-x']))
            xml += '<%s%s>' % (depth[-1], ' xmlns:h="urn:h"' if ':' in depth[-1] else '')
        elif x in (4, 5) and depth or k >= len(text) and depth:
            xml += '</%s>' % depth.pop()
        elif x == 6:
            xml += '<br/>'
    return model.Markup(text, xml or '<!---->')


def add_docs(s, r, p):
    def maybe(o):
        if r.random() < p:
            n = r.choice([1, 1, 1, 2, 3])
            o.docs = [doc_text(r) for _ in range(n)]
        else:
            o.docs = None

    seen = set()

    def typ(t):
        if isinstance(t, Simple) and t.name is None:
            maybe(t)
        elif isinstance(t, Complex):
            complex_(t)

    def group(g):
        maybe(g)
        for i in g.items:
            if isinstance(i, Elem):
                maybe(i)
                if not i.ref:
                    typ(i.type)
            else:
                group(i)

    def complex_(t):
        if id(t) in seen:
            return
        seen.add(id(t))
        maybe(t)
        k = t.content
        if isinstance(k, Group):
            group(k)
        elif isinstance(k, ComplexExt) and k.seq:
            group(k.seq)
        for a in t.attrs:
            maybe(a)
            if isinstance(a.type, Simple) and a.type.name is None:
                maybe(a.type)
    for f in s.files:
        for i in f.items:
            if isinstance(i, GlobalElem):
                maybe(i)
                typ(i.type)
            elif isinstance(i, Simple):
                maybe(i)
            else:
                complex_(i)


def norm(docs):
    if docs is None:
        return ''
    return ' '.join((docs if isinstance(docs, str) else docs[0]).split())


def c18(c):
    d = harness.Driver().build()
    for rnd in pipe.rounds(c, 1):
        cases = []
        for i in range(c.pick(900, 4000)):
            r = c.rng('schema', rnd, i)
            prof = dict(pipe.PROFILES[i % len(pipe.PROFILES)], docs=0)
            s = gen.make(r, gen.Opts(**prof))
            add_docs(s, r, r.choice([.2, .6, 1]))
            s.decls = assign_names(s)
            texts = model.render_xsd(s, r)
            cases.append((s, texts, os.path.join(write_files('c18/%d' % i, texts), 'main.xsd')))
        for (s, texts, path), q in zip(cases, d.run([('file', p) for _, _, p in cases])):
            if q is None:
                continue
            bad = judge_docs(c, s, q)
            if bad:
                c.violate(bad, dict(op='file', input=path, files=texts, result=str(q)[:20000]))
        shutil.rmtree(os.path.join(SCRATCH, 'c18'), ignore_errors=True)


def judge_docs(c, s, q):
    bad = pipe.crashed(q)
    if bad:
        return bad
    if 'items' not in q:
        return 'a supported schema is rejected: %s' % (q.get('msg') or q.get('notrust') or q)
    items = {i['name']: i for i in q['items'] if i['kind'] in ('struct', 'enum')}
    for d in s.decls:
        it = items.get(d.name) or items.get(model.raw(d.name))
        if it is None:
            return 'type %s is missing' % d.name

        def cmp(what, docs, got):
            want = norm(docs)
            have = '\n'.join(g.strip() for g in got)
            c.seen(what, want) if want else c.seen()
            if want:
                c.count('documented ' + what.split(' ')[0])
            if have != want:
                return '%s: documentation is %r instead of %r' % (what, have, want)
        bad = cmp(('enumeration ' if d.kind == 'enum' else 'type ') + d.name, d.docs, it['docs'])
        if bad:
            return bad
        members = {m[0]: m for m in it['members']}
        for m in d.members:
            if len(m) < 3:
                continue
            got = members.get(m[0]) or members.get(model.raw(m[0]))
            if got is None:
                return 'member %s::%s is missing' % (d.name, m[0])
            bad = cmp('%s %s::%s' % ('alternative' if d.kind == 'choice' else 'field', d.name, m[0]), m[2], got[2])
            if bad:
                return bad
    c.sample(dict(schema=list(s.texts.values())[0][:600] if hasattr(s, 'texts') else '', items=[
        (i['name'], i['docs'], [(m[0], m[2]) for m in i['members']]) for i in list(items.values())[:3]]), 3)
    return None


# ------------------------------------------------------------ C20

def split(s, r):
    """The declarations of a one-file schema spread over several files that include each other."""
    main = s.files[0]
    n = r.randint(1, 5)
    files = [main]
    # files in different folders may have the same name
    same = r.random() < .4
    for k in range(n):
        for _ in range(50):
            path = r.choice(['', '', 'sub/', 'sub/deeper/', 'other/']) + (
                r.choice(['part', 'main', 'é']) if same else r.choice(['part', 'é', 'a b', 'P', '%41', '100%25-', 'a+b', 'a#b?c', "it's&", 'file:', '..', '-', '~', '$HOME', 'c\\d', '*']) + str(k)) + '.xsd'
            old = [f.path for f in files]
            if len(old) > 1 and r.random() < .15:
                # file names that differ in case only
                path = r.choice(old[1:])
                path = r.choice([path.upper(), path.replace('.xsd', '.XSD'), posixpath.join(posixpath.dirname(path), posixpath.basename(path).swapcase())])
            if path not in old and not any(o.startswith(path + '/') for o in old):
                break
        else:
            continue
        f = File(path, main.tns, main.qualified)
        f.xs, f.prefixes, f.explicit_unqualified = main.xs, dict(main.prefixes), main.explicit_unqualified
        files.append(f)
    items = list(main.items)
    for f in files:
        f.items = []
        f.links = []
    for i in items:
        f = r.choice(files)
        f.items.append(i)
    for k, f in enumerate(files[1:], 1):
        link(r.choice(files[:k]), f, r)
    more_links(files, r)
    res = Schema(main, files)
    res.roots = s.roots
    for f in files:
        for i in f.items:
            i.file = f
    return res


def link(a, b, r):
    kind = 'include' if a.tns == b.tns else 'import'
    loc = posixpath.relpath(b.path, posixpath.dirname(a.path) or '.')
    k = r.random()
    if k < .2:
        loc = './' + loc
    elif k < .3:
        here = posixpath.dirname(a.path)
        if here:
            loc = '../' + posixpath.basename(here) + '/' + loc
    a.links.insert(r.randint(0, len(a.links)), (kind, b, loc))


def more_links(files, r):
    """diamonds, cycles, a file that includes itself, the same file twice"""
    for _ in range(r.choice([0, 1, 2, 4])):
        a, b = r.choice(files), r.choice(files)
        if a.tns == b.tns or a is not b:
            link(a, b, r)


def aliases(s, texts, r):
    """Other names (symbolic links) of files and folders, and further links to the files through them."""
    n = 0
    for _ in range(r.choice([0, 0, 1, 2])):
        f = r.choice(s.files)
        here, base = posixpath.split(f.path)
        if here and r.random() < .4:
            up, name = posixpath.split(here)
            p = posixpath.join(up, 'alias-of-' + name)
            texts[p] = 'symlink:' + name
            p = posixpath.join(p, base)
        else:
            p = posixpath.join(here, 'alias-%d.xsd' % n)
            texts[p] = 'symlink:' + base
        a = r.choice([g for g in s.files if g.tns == f.tns or g is not f])
        if a.path not in texts or f.path == 'main.xsd' and r.random() < .5:
            continue
        m = re.search(r'<((?:[\w-]+:)?)schema\b[^>]*[^/]>', texts[a.path])
        if not m:
            continue
        loc = posixpath.relpath(p, posixpath.dirname(a.path) or '.')
        if a.tns == f.tns:
            t = '<%sinclude schemaLocation="%s"/>' % (m.group(1), model.esc(loc))
        else:
            t = '<%simport%s schemaLocation="%s"/>' % (m.group(1), ' namespace="%s"' % model.esc(f.tns) if f.tns else '', model.esc(loc))
        texts[a.path] = texts[a.path][:m.end()] + t + texts[a.path][m.end():]
        n += 1
    return n


def decoys(s, texts, r):
    """Files of the same name where the location does not lead: next to main.xsd, in the parent folder, with other endings."""
    real = {f.path for f in s.files}
    n = 0
    for f in s.files:
        here = posixpath.dirname(f.path)
        for kind, b, loc in f.links:
            base = posixpath.basename(b.path)
            for p in {loc, posixpath.join(posixpath.dirname(here), loc), posixpath.join('sub', loc), base, posixpath.join(here, base),
                      posixpath.join(here, loc) + '.xsd', posixpath.splitext(posixpath.join(here, loc))[0],
                      posixpath.join('sub', base), posixpath.join('sub/deep', base)}:
                p = posixpath.normpath(p)
                if p in real or p in texts or p.startswith('..') or any(q.startswith(p + '/') or p.startswith(q + '/') for q in texts):
                    continue
                if r.random() < .7:
                    texts[p] = r.choice(['no schema', '', '<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema"%s><xs:element '
                                         'name="DecoyElement" type="xs:string"/></xs:schema>'
                                         % (' targetNamespace="%s"' % b.tns if b.tns else '')])
                    n += 1
    return n


def c20(c):
    d = harness.Driver().build()
    for rnd in pipe.rounds(c, 1):
        runs = []           # (label, base path, variant path, texts)
        faults = []
        for i in range(c.pick(350, 2500)):
            r = c.rng('schema', rnd, i)
            prof = dict(pipe.PROFILES[i % len(pipe.PROFILES)], multifile=0, named_types=6)
            s = gen.make(r, gen.Opts(**prof))
            base = os.path.join(write_files('c20/%d-a' % i, model.render_xsd(s)), 'main.xsd')
            for k in range(3):
                t = split(s, r)
                texts = model.render_xsd(t, r)
                c.count('decoy files', decoys(t, texts, r))
                c.count('links through other names of a file', aliases(t, texts, r))
                v = os.path.join(write_files('c20/%d-s%d' % (i, k), texts), 'main.xsd')
                runs.append(('split into %d files' % len(t.files), base, v, texts))
                c.count('includes', sum(len(f.links) for f in t.files))
                s.files[0].items = [x for f in t.files for x in f.items]
                for x in s.files[0].items:
                    x.file = s.files[0]
            # imports: other orders, spellings and additional links
            s = gen.make(r, gen.Opts(**dict(prof, multifile=1.0, named_types=3)))
            texts = model.render_xsd(s)
            base = os.path.join(write_files('c20/%d-b' % i, texts), 'main.xsd')
            for k in range(2):
                old = [list(f.links) for f in s.files]
                more_links(s.files, r)
                for f in s.files:
                    r.shuffle(f.links)
                t2 = model.render_xsd(s, r)
                c.count('decoy files', decoys(s, t2, r))
                c.count('links through other names of a file', aliases(s, t2, r))
                v = os.path.join(write_files('c20/%d-m%d' % (i, k), t2), 'main.xsd')
                runs.append(('more links between %d files' % len(s.files), base, v, t2))
                for f, o in zip(s.files, old):
                    f.links = o
            # one file of several is faulty
            victim = r.choice(s.files)
            bad = dict(texts)
            label, want, row = fault(bad, victim, r)
            p = os.path.join(write_files('c20/%d-f' % i, bad), 'main.xsd')
            faults.append((label, p, os.path.join(os.path.dirname(p), victim.path), want, row, bad))
        flat = sorted({p for q in runs for p in q[1:3]})
        got = dict(zip(flat, d.run([('file', p) for p in flat])))
        for label, base, v, texts in runs:
            a, b = got[base], got[v]
            if a is None or b is None:
                continue
            c.seen(label, texts['main.xsd'], label)
            c.count(label)
            bad = pipe.crashed(b) or pipe.crashed(a)
            if not bad and 'items' not in a:
                bad = 'a supported schema is rejected: %s' % a.get('msg', a)
            elif not bad and 'items' not in b:
                bad = 'rejected: %s' % b.get('msg', b)
            elif not bad:
                code = label.startswith('split')
                x, y = canon(a['items'], code), canon(b['items'], code)
                if x != y:
                    bad = first_difference(x, y)
            if bad:
                c.violate('%s: %s' % (label, bad), dict(op='file', input=v, files=texts))
            else:
                c.sample(dict(variation=label, files=sorted(texts), main=texts['main.xsd'][:500]), 3)
        for (label, p, victim, want, row, texts), q in zip(faults, d.run([('file', f[1]) for f in faults])):
            if q is None:
                continue
            c.seen(label, texts.get('main.xsd'))
            c.count('fault: ' + label)
            bad = pipe.crashed(q)
            if not bad:
                if q.get('err') not in want:
                    bad = 'expected %s, got %s' % (want, q.get('msg') or 'no error')
                elif os.path.realpath(q['file']) != os.path.realpath(victim):
                    bad = 'the error names %s instead of %s' % (q['file'], victim)
                elif os.path.basename(victim) not in q['msg']:
                    bad = 'the message does not name the file: ' + q['msg']
                elif row is not None and q.get('row') != row:
                    bad = 'the error names line %s instead of %s: %s' % (q.get('row'), row, q['msg'])
            if bad:
                c.violate('%s: %s' % (label, bad), dict(op='file', input=p, files=texts, result=q))
        shutil.rmtree(os.path.join(SCRATCH, 'c20'), ignore_errors=True)


def fault(texts, victim, r):
    k = r.randrange(4) if victim.path != 'main.xsd' else r.randrange(3)
    if k == 3:
        del texts[victim.path]
        return 'missing file', ('Open',), None
    lines = texts[victim.path].split('\n')
    if k == 0:
        n = len(lines) - 2
        while '</' not in lines[n] and n > 0:
            n -= 1
        lines.insert(n, '<undeclared-prefix:x/>')
        texts[victim.path] = '\n'.join(lines)
        return 'not well-formed', ('Xsd',), n + 1
    if k == 1:
        n = max(i for i, l in enumerate(lines) if 'schema>' in l and '</' in l) if any('schema>' in l and '</' in l for l in lines) else None
        if n is None:
            texts[victim.path] = ''
            return 'empty file', ('Xsd',), None
        m = re.match(r'\s*</((?:[\w-]+:)?)schema>', lines[n])
        lines.insert(n, '<%sunknown name="zz"/>' % m.group(1))
        texts[victim.path] = '\n'.join(lines)
        return 'unsupported element', ('Xsd',), n + 1
    texts[victim.path] = r.choice(['', ' ', 'no xml', '<a>', '<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema">'])
    return 'not a schema', ('Xsd',), None
