"""C19: what the attribute macro does to the module it is applied to, and what it says when it cannot."""
import json
import os
import subprocess
import harness
import pipe
from harness import write

XS = 'xmlns:xs="http://www.w3.org/2001/XMLSchema"'
SCHEMA = ('<xs:schema %s>\n<xs:element name="Root"><xs:complexType><xs:sequence><xs:element name="n" type="xs:int"/>'
          '<xs:element name="k" type="Kind" minOccurs="0" maxOccurs="unbounded"/></xs:sequence><xs:attribute name="id" type="xs:string"/>'
          '</xs:complexType></xs:element>\n<xs:simpleType name="Kind"><xs:restriction base="xs:string"><xs:enumeration value="big-one"/>'
          '<xs:enumeration value="small"/></xs:restriction></xs:simpleType>\n</xs:schema>\n' % XS)
SECOND = ('<xs:schema %s>\n<xs:element name="Second"><xs:complexType><xs:attribute name="v" type="xs:boolean" use="required"/>'
          '</xs:complexType></xs:element>\n</xs:schema>\n' % XS)
DECOY = SECOND.replace('Second', 'Decoy')
DOC = '"<Root id=\\"i\\"><n>7</n><k>small</k><k>big-one</k></Root>"'

# (items in the module, expression outside with M for the path of the module, expected string)
ITEMS = [
    ('pub const C%d: i64 = -%d;', 'M::C%d.to_string()', '-%d'),
    ('pub static S%d: &str = "s%d\\n";', 'M::S%d.to_string()', 's%d\n'),
    ('pub fn f%d(x: i32) -> i32 { x * 2 + %d }', 'M::f%d(4).to_string()', lambda n: str(8 + n)),
    ('/// documented\n #[derive(Debug, Clone, PartialEq, Default)] pub struct St%d { pub a: u8, pub b: Vec<Option<String>> }',
     'format!("{:?}", M::St%d::default())', 'St%d { a: 0, b: [] }'),
    ('#[derive(Debug)] #[allow(dead_code)] pub enum En%d<T> { A(T), B { x: T }, C } pub type Al%d = En%d<u8>;',
     'format!("{:?} {:?}", M::En%d::A(1), M::Al%d::B { x: 2 })', 'A(1) B { x: 2 }'),
    ('pub trait Tr%d { fn tr%d(&self) -> String; } impl Tr%d for Root { fn tr%d(&self) -> String { format!("{}-%d", self.n) } }',
     '{ use M::Tr%d; M::Root::from_xml(DOC).unwrap().tr%d() }', '7-%d'),
    ('impl Root { pub fn inherent%d(&self) -> usize { self.k.as_ref().map_or(0, |k| k.len()) + %d } }',
     'M::Root::from_xml(DOC).unwrap().inherent%d().to_string()', lambda n: str(2 + n)),
    ('impl From<Root> for Wr%d { fn from(r: Root) -> Self { Self(r.n) } } #[allow(non_camel_case_types)] #[derive(Debug)] pub struct Wr%d(pub i32);',
     'format!("{:?}", M::Wr%d::from(M::Root::from_xml(DOC).unwrap()))', 'Wr%d(7)'),
    ('pub mod nested%d { use super::*; pub fn deep(s: &str) -> Option<String> { Root::from_xml(s).ok().and_then(|r| r.id) } }',
     'format!("{:?}", M::nested%d::deep(DOC))', 'Some("i")'),
    ('macro_rules! mac%d { ($($x:expr),*) => { vec![$($x + %d),*] } } pub fn usemac%d() -> Vec<i32> { mac%d!(1, 2) }',
     'format!("{:?}", M::usemac%d())', lambda n: str([1 + n, 2 + n])),
    ('pub use std::collections::BTreeMap as Map%d; pub fn map%d() -> Map%d<i32, Kind> { let mut m = Map%d::new(); m.insert(%d, Kind::BigOne); m }',
     'format!("{:?}", M::map%d())', '{%d: BigOne}'),
    ('pub fn gen%d<\'a, T: ?Sized + AsRef<str>, const N: usize>(x: &\'a T) -> [&\'a str; N] where T: std::fmt::Debug { [x.as_ref(); N] }',
     'format!("{:?}", M::gen%d::<_, 3>("é"))', '["é", "é", "é"]'),
    ('#[cfg(any())] pub fn gone%d() {} #[cfg(not(any()))] pub fn gone%d() -> u8 { 9 } #[cfg(any())] compile_error!("removed");',
     'M::gone%d().to_string()', '9'),
    ('pub fn lit%d() -> (&\'static str, &\'static [u8], char, f64, u128, &\'static str) { (r#"a"b"#, b"\\x00\\xff", \'\\u{1F600}\', 1.5e-3, 0xFFu128 << 100, "tab\\t\\"\\\\") }',
     'format!("{:?}", M::lit%d())', '("a\\"b", [0, 255], \'\U0001f600\', 0.0015, %d, "tab\\t\\"\\\\")' % (255 << 100)),
    ('pub fn kinds%d() -> Vec<String> { [Kind::BigOne, Kind::Small].iter().map(|k| k.to_string()).collect() }',
     'format!("{:?}", M::kinds%d())', '["big-one", "small"]'),
    ('struct Hidden%d(u8); impl Hidden%d { const X: u8 = %d; } pub(crate) fn viahidden%d() -> u8 { Hidden%d(1).0 + Hidden%d::X }',
     'M::viahidden%d().to_string()', lambda n: str(1 + n)),
    ('pub unsafe fn un%d() -> u8 { 3 } pub extern "C" fn ec%d(a: u8) -> u8 { a + 1 } pub const fn cf%d() -> u8 { 4 }',
     'format!("{} {} {}", unsafe { M::un%d() }, M::ec%d(1), M::cf%d())', '3 2 4'),
    ('pub async fn asy%d() -> Root { Root { n: 1, k: None, id: None } } pub fn asyc%d() -> usize { std::mem::size_of_val(&asy%d()).min(1) }',
     'M::asyc%d().to_string()', '1'),
    ('unsafe extern "C" { safe fn abs(x: i32) -> i32; } pub fn ffi%d() -> i32 { abs(-%d) }', 'M::ffi%d().to_string()', '%d'),
    ('thread_local! { pub static TL%d: std::cell::Cell<u8> = const { std::cell::Cell::new(%d) }; }', 'M::TL%d.with(|c| c.get()).to_string()', '%d'),
    ('const _: () = { assert!(std::mem::size_of::<Root>() > 0); }; const _: fn(&Root) -> i32 = |r| r.n; pub static CELL%d: std::sync::Mutex<Vec<Kind>> = std::sync::Mutex::new(Vec::new());',
     '{ M::CELL%d.lock().unwrap().push(M::Kind::Small); format!("{:?}", M::CELL%d.lock().unwrap()) }', '[Small]'),
    ('#[repr(C)] #[derive(Clone, Copy)] pub union Un%d { pub a: u32, pub b: [u8; 4] } pub unsafe trait Ut%d { const K: u8 = %d; } unsafe impl<T: ?Sized> Ut%d for T {}',
     'format!("{} {}", unsafe { M::Un%d { a: 1 }.a }, <u8 as M::Ut%d>::K)', '1 %d'),
    ('macro_rules! make%d { ($n:ident) => { pub fn $n() -> &\'static str { stringify!($n) } } } make%d!(made%d); make%d! { made_b%d } make%d![made_c%d];',
     'format!("{}{}{}", M::made%d(), M::made_b%d(), M::made_c%d())', 'made%dmade_b%dmade_c%d'),
    ('use self::inner%d::deep as deep%d; pub use self::inner%d::*; mod inner%d { pub(in super) fn deep() -> u8 { %d } pub struct Glob%d; } pub(self) use std::fmt::Write as _; pub fn w%d() -> String { let mut s = String::new(); write!(s, "{}", deep%d()).unwrap(); s }',
     '{ let _ = M::Glob%d; M::w%d() }', '%d'),
    ('extern crate std as renamed%d; pub fn ren%d() -> i32 { renamed%d::cmp::max(%d, 0) }', 'M::ren%d().to_string()', '%d'),
    ('pub enum Disc%d { A = 5, B = 1 << 4 } #[non_exhaustive] pub struct Ne%d {} pub fn disc%d() -> (isize, Ne%d) { (Disc%d::B as isize, Ne%d {}) }',
     'M::disc%d().0.to_string()', '16'),
    ('pub trait Ga%d { type It<\'a>: Iterator<Item = &\'a u8> where Self: \'a; fn it(&self) -> Self::It<\'_>; } impl Ga%d for Vec<u8> { type It<\'a> = std::slice::Iter<\'a, u8>; fn it(&self) -> Self::It<\'_> { self.iter() } }',
     '{ use M::Ga%d; vec![1u8, 2].it().sum::<u8>().to_string() }', '3'),
]

# names of schema files that some rewriting of paths would change; each has a decoy at the rewritten name
ODD = [('a\\b.xsd', 'a/b.xsd'), ('sp ace.xsd', 'space.xsd'), (' lead.xsd', 'lead.xsd'), ('trail.xsd ', 'trail.xsd'), ('%41.xsd', 'A.xsd'), ('q?x.xsd', 'q'),
       ('h#x.xsd', 'h'), ('größe.xsd', 'grosse.xsd'), ('$HOME.xsd', 'HOME.xsd'), ('~.xsd', 'tilde.xsd'), ('noext', 'noext.xsd'), ('Case.XSD', 'case.xsd'), ('dot.', 'dot'),
       ("q'uote.xsd", 'quote.xsd'), ('q"uote.xsd', 'qu.xsd'), ('a+b.xsd', 'a b.xsd'), ('x:y.xsd', 'y.xsd'), ('file:/z.xsd', 'z.xsd'), ('plus&amp;.xsd', 'plus&.xsd'),
       ('d.xsd/in.xsd', 'in.xsd'), ('...', 'dots'), ('*.xsd', 'star.xsd'), ('{a}.xsd', 'a.xsd'), ('e\u0301.xsd', '\u00e9.xsd')]


def fill(t, n):
    return t(n) if callable(t) else t.replace('%d', str(n))


def case(r, i, crate, odd=None):
    """(source line(s), [(label, expression, expected)])"""
    name = r.choice(['m%d', 'r#mod%d', 'M%d', 'größe%d']) % i
    checks, body = [], []
    inner = r.choice(['', '', '', '#![allow(dead_code)]', '//! inner doc\n', '#![allow(non_snake_case)] #![cfg(not(any()))]'])
    chosen = r.sample(range(len(ITEMS)), r.randint(0, 6))
    for k in chosen:
        it, ex, want = ITEMS[k]
        n = r.randint(1, 60)
        body.append(fill(it, n))
        checks.append((ex, fill(want, n), n))
    if 'non_snake_case' in inner:
        body.append('pub fn CamelCaseFn() -> u8 { let X = 1; X }')
        checks.append(('M::CamelCaseFn().to_string()', '1', 0))
    before = [a for a in ('/// docs\n', '#[allow(dead_code)]', '#[doc(hidden)]', '#[cfg(not(any()))]', '#[cfg_attr(all(), allow(unused_imports))]')
              if r.random() < .2]
    after = [a for a in ('/** docs */', '#[allow(unused_imports)]', '#[cfg(not(any()))]', '#[allow(clippy::all)]', '#[rustfmt::skip]')
             if r.random() < .2]
    path = r.choice(['schemas/s.xsd', './schemas/s.xsd', 'schemas/../schemas/s.xsd', '../%s/schemas/s.xsd' % crate[1],
                     os.path.join(crate[0], crate[1], 'schemas/s.xsd')])
    arg = r.choice(['schema = "%s"', 'schema="%s",', 'schema = r"%s"', 'schema = r#"%s"#', 'schema   =  "%s"']) % path
    if odd is not None:
        path = 'schemas/odd/' + odd
        arg = 'schema = ' + ('r#"%s"#' % path if r.random() < .4 else '"%s"' % path.replace('\\', '\\\\').replace('"', '\\"'))
    arg = arg.replace('s.xsd', 's\\u{2e}xsd') if r.random() < .2 and 'r"' not in arg and 'r#' not in arg else arg
    features = [inner, name.split('%')[0][:2], arg[:9], str(before), str(after)] + [str(k) for k in sorted(chosen)]
    if r.random() < .15:
        # a second macro on the same module
        after.append('#[xsd::all(schema = "schemas/second.xsd")]')
        checks.append(('format!("{:?}", M::Second::from_xml("<Second v=\\"1\\"/>"))', 'Ok(Second { v: true })', 0))
        features.append('stacked')
    checks.append(('format!("{:?}", M::Root::from_xml(DOC).unwrap())', 'Root { n: 7, k: Some([Small, BigOne]), id: Some("i") }', 0))
    vis = r.choice(['', 'pub', 'pub(crate)', 'pub(self)'])
    k = r.random()
    src = '%s #[xsd::all(%s)] %s %s mod %s { %s %s }' % (' '.join(before), arg, ' '.join(after), vis, name, inner, ' '.join(body))
    pathto = name
    if k < .15:
        o = 'outer%d' % i
        vis2 = 'pub(super)'
        src = 'mod %s { %s }' % (o, src.replace(' %s mod %s ' % (vis, name), ' %s mod %s ' % (vis2, name)))
        pathto = o + '::' + name
        features.append('nested')
    elif k < .3:
        # cfg: the module itself is removed, together with everything in it
        removed = '#[xsd::all(schema = "schemas/s.xsd")] #[cfg(any())] mod %s { pub const C: u8 = 1; }' % name
        src = removed + ' ' + src if r.random() < .5 else src + ' ' + removed
        features.append('cfg')
    elif k < .4:
        src = '#[macro_use] ' + src.replace(' mod %s { ' % name, ' mod %s { macro_rules! exported%d { () => { "ex" } } ' % (name, i)) \
            if not inner else src
        if '#[macro_use]' in src:
            checks.append(('exported%d!().to_string()' % i, 'ex', 0))
            features.append('macro_use')
    if 'M' != name[0] and 'größe' not in name:
        pass
    src = src.replace('\n', '\n')
    out = []
    for ex, want, n in checks:
        ex = fill(ex, n).replace('DOC', DOC)
        import re
        ex = re.sub(r'\bM::', pathto + '::', ex)
        out.append((ex, want))
    return src, out, tuple(features) + (vis,)


def positive(c, rnd):
    ws = harness.Workspace('c19')
    crates = 4
    members = ['c%d' % i for i in range(crates)]
    ws.prepare(members)
    everything = []
    lines_of = {}
    for ci, m in enumerate(members):
        r = c.rng('pos', rnd, ci)
        write(os.path.join(ws.dir, m, 'schemas/s.xsd'), SCHEMA)
        write(os.path.join(ws.dir, m, 'schemas/second.xsd'), SECOND)
        for odd, decoy in ODD:
            write(os.path.join(ws.dir, m, 'schemas/odd', odd), SCHEMA)
            write(os.path.join(ws.dir, m, 'schemas/odd', decoy), DECOY)
        for decoy in (m + '/src/schemas', 'schemas', m + '/src'):
            write(os.path.join(ws.dir, decoy, 's.xsd'), DECOY)
        src = ['#![allow(uncommon_codepoints, mixed_script_confusables, dead_code, unused_imports, unused_macros, non_snake_case, confusable_idents)]']
        calls = []
        for i in range(c.pick(45, 120)):
            s, checks, feat = case(r, i, (ws.dir, m), ODD[(ci * 15 + i // 3) % len(ODD)][0] if i % 3 == 0 else None)
            first = sum(x.count('\n') + 1 for x in src) + 1
            src.append(s)
            last = first + s.count('\n')
            for l in range(first, last + 1):
                lines_of[(m, l)] = (i, s)
            for ex, want in checks:
                k = len(everything)
                everything.append((m, i, s, ex, want, feat))
                calls.append('println!("{} {:?}", %d, %s);' % (k, ex))
        src.append('fn main() {')
        for x in calls:
            src.append(x)
        src.append('}')
        text = '\n'.join(src) + '\n'
        write(os.path.join(ws.dir, m, 'src/main.rs'), text)
    rc, msgs, err = ws.build()
    errors = rustc_errors(ws, msgs)
    for m in members:
        if errors.get(m):
            e = errors[m][0]
            bad = None
            for l in harness.span_lines(e):
                bad = bad or lines_of.get((m, l))
            c.violate('a module that is valid Rust does not compile with the macro: %s\n%s' % (e['rendered'][:1200], bad and bad[1][:600]),
                      dict(source=bad and bad[1], error=e['rendered']))
    if rc != 0 and not errors:
        raise harness.Inconclusive('the crates do not build: ' + err[-1500:])
    for m in members:
        if errors.get(m):
            continue
        p = subprocess.run([ws.bin(m)], capture_output=True, text=True, timeout=60)
        got = {}
        for line in p.stdout.splitlines():
            k, v = line.split(' ', 1)
            got[int(k)] = v
        for k, (m2, i, s, ex, want, feat) in enumerate(everything):
            if m2 != m:
                continue
            c.seen('pos', feat, ex)
            c.count('items of modules used from outside')
            w = rust_debug(want)
            if got.get(k) != w:
                c.violate('an item of the module does not work as written: %s gives %s instead of %s\n%s'
                          % (ex, got.get(k) or p.stderr[-300:], w, s[:600]), dict(source=s, expression=ex, got=got.get(k), expected=w))
            else:
                c.sample(dict(module=s[:400], expression=ex, result=w), 3)
        c.count('modules', len({(e[0], e[1]) for e in everything if e[0] == m}))


def rust_debug(s):
    out = ''
    for ch in s:
        out += {'\n': '\\n', '"': '\\"', '\\': '\\\\', '\t': '\\t'}.get(ch, ch)
    return '"' + out + '"'


def rustc_errors(ws, msgs):
    out = {}
    for m in msgs:
        if m.get('reason') == 'compiler-message' and m['message'].get('level', '').startswith('error'):
            pid = m.get('package_id', '')
            name = pid.split('#')[0].rstrip('/').rsplit('/', 1)[-1]
            out.setdefault(name, []).append(m['message'])
    return out


# (label, extra files, source with the macro at line 2, words that some error has to contain)
def negatives(r):
    ok = '#[xsd::all(schema = "s.xsd")]'
    j = r.randint(100, 999)
    odd = 'dir%d/no such é.xsd' % j
    elem = lambda x: ('<xs:schema %s>\n\n<xs:element name="Root">\n<xs:complexType><xs:sequence>\n%s\n</xs:sequence></xs:complexType></xs:element></xs:schema>' % (XS, x))
    out = [
        ('no arguments', {}, '#[xsd::all]\nmod m {}', ['schema', 'required']),
        ('empty arguments', {}, '#[xsd::all()]\nmod m {}', ['schema', 'required']),
        ('unknown argument', {}, '#[xsd::all(file%d = "s.xsd")]\nmod m {}' % j, ['unsupported property']),
        ('second argument unknown', {}, '#[xsd::all(schema = "s.xsd", element%d = "Root")]\nmod m {}' % j, ['unsupported property']),
        ('first argument unknown', {}, '#[xsd::all(root%d = "Root", schema = "s.xsd")]\nmod m {}' % j, ['unsupported property']),
        ('similar argument', {}, '#[xsd::all(Schema = "s.xsd")]\nmod m {}', ['unsupported property']),
        ('number as schema', {}, '#[xsd::all(schema = %d)]\nmod m {}' % j, ['expected string literal']),
        ('no value', {}, '#[xsd::all(schema)]\nmod m {}', ['expected `=`']),
        ('only a string', {}, '#[xsd::all("s.xsd")]\nmod m {}', []),
        ('missing file', {}, '#[xsd::all(schema = "%s")]\nmod m {}' % odd, [odd]),
        ('missing file next to the crate', {}, '#[xsd::all(schema = "near%d.xsd")]\nmod m {}' % j, ['near%d.xsd' % j]),
        ('a folder', {'d/x': ''}, '#[xsd::all(schema = "d")]\nmod m {}', ['/d']),
        ('empty path', {}, '#[xsd::all(schema = "")]\nmod m {}', []),
        ('file is empty', {'e%d.xsd' % j: ''}, '#[xsd::all(schema = "e%d.xsd")]\nmod m {}' % j, ['e%d.xsd' % j]),
        ('not well-formed', {'w.xsd': '<xs:schema %s>\n\n<a></b>\n</xs:schema>' % XS}, '#[xsd::all(schema = "w.xsd")]\nmod m {}', ['w.xsd', '3']),
        ('not UTF-8', {'u.xsd': b'<xs:schema \xff\xfe'}, '#[xsd::all(schema = "u.xsd")]\nmod m {}', ['u.xsd']),
        ('not a schema', {'n.xsd': '<html/>'}, '#[xsd::all(schema = "n.xsd")]\nmod m {}', ['n.xsd', 'html']),
        ('unsupported construct', {'g.xsd': elem('<xs:group ref="g"/>')}, '#[xsd::all(schema = "g.xsd")]\nmod m {}', ['g.xsd', 'group', '5']),
        ('unsupported attribute', {'g.xsd': elem('<xs:element name="a" type="xs:int" nillable="true"/>')},
         '#[xsd::all(schema = "g.xsd")]\nmod m {}', ['g.xsd', 'nillable', '5']),
        ('unknown builtin', {'g.xsd': elem('<xs:element name="a" type="xs:nope%d"/>' % j)}, '#[xsd::all(schema = "g.xsd")]\nmod m {}',
         ['g.xsd', 'nope%d' % j, '5']),
        ('undeclared prefix', {'g.xsd': elem('<xs:element name="a" type="q:T"/>')}, '#[xsd::all(schema = "g.xsd")]\nmod m {}', ['g.xsd', '5']),
        ('included file is missing', {'g.xsd': '<xs:schema %s>\n<xs:include schemaLocation="gone%d.xsd"/></xs:schema>' % (XS, j)},
         '#[xsd::all(schema = "g.xsd")]\nmod m {}', ['gone%d.xsd' % j]),
        ('imported file is faulty', {'g.xsd': '<xs:schema %s>\n<xs:import namespace="urn:b" schemaLocation="p/h.xsd"/></xs:schema>' % XS,
                                     'p/h.xsd': '<xs:schema %s targetNamespace="urn:b">\n\n\n<xs:notation name="x"/></xs:schema>' % XS},
         '#[xsd::all(schema = "g.xsd")]\nmod m {}', ['h.xsd', 'notation', '4']),
        ('dangling type', {'g.xsd': elem('<xs:element name="a" type="Missing%d"/>' % j)}, '#[xsd::all(schema = "g.xsd")]\nmod m {}', ['Missing%d' % j]),
        ('dangling ref', {'g.xsd': elem('<xs:element ref="Missing%d"/>' % j)}, '#[xsd::all(schema = "g.xsd")]\nmod m {}', ['Missing%d' % j]),
        ('dangling attribute type', {'g.xsd': '<xs:schema %s><xs:element name="Root"><xs:complexType><xs:attribute name="a" type="Missing%d"/>'
                                     '</xs:complexType></xs:element></xs:schema>' % (XS, j)}, '#[xsd::all(schema = "g.xsd")]\nmod m {}', ['Missing%d' % j]),
        ('dangling base', {'g.xsd': '<xs:schema %s><xs:element name="Root"><xs:complexType><xs:complexContent><xs:extension base="Missing%d">'
                           '<xs:sequence/></xs:extension></xs:complexContent></xs:complexType></xs:element></xs:schema>' % (XS, j)},
         '#[xsd::all(schema = "g.xsd")]\nmod m {}', ['Missing%d' % j]),
        ('element of a missing type', {'g.xsd': '<xs:schema %s><xs:element name="Root" type="Missing%d"/></xs:schema>' % (XS, j)},
         '#[xsd::all(schema = "g.xsd")]\nmod m {}', ['Missing%d' % j]),
        ('on a struct', {}, ok + '\nstruct S;', ['mod']),
        ('on a function', {}, ok + '\nfn f() {}', ['mod']),
        ('on an enum', {}, ok + '\nenum E { A }', ['mod']),
        ('on a use', {}, ok + '\nuse std::fmt;', ['mod']),
        ('private module used outside', {}, 'mod outer { %s\nmod inner {} }\nfn f() { let _ = outer::inner::Root::from_xml(""); }' % ok, ['private']),
        ('private item of the module used outside', {}, '%s\npub mod m { fn hidden%d() {} }\nfn f() { m::hidden%d() }' % (ok, j, j), ['hidden%d' % j, 'private']),
        ('deny attribute of the module', {}, '%s #[deny(unused_variables)]\npub mod m { pub fn f() { let unused%d = 1; } }' % (ok, j), ['unused%d' % j]),
        ('inner deny attribute', {}, '%s\npub mod m { #![deny(unused_variables)] pub fn f() { let unused%d = 1; } }' % (ok, j), ['unused%d' % j]),
        ('deprecated module', {}, '%s #[deprecated]\npub mod m { pub const X: u8 = 1; }\n#[deny(deprecated)] fn f() -> u8 { m::X }' % ok, ['deprecated']),
        ('removed module', {}, '%s #[cfg(any())]\npub mod m%d {}\nfn f() { let _ = m%d::Root::from_xml(""); }' % (ok, j, j), ['m%d' % j]),
        ('compile_error in the module', {}, '%s\nmod m { compile_error!("mine%d"); }' % (ok, j), ['mine%d' % j]),
        ('type error in the module', {}, '%s\nmod m { pub fn f() -> u8 { "text%d" } }' % (ok, j), ['mismatched types']),
        ('own item with the name of a generated one', {}, '%s\nmod m { pub struct Root; }' % ok, ['Root', 'multiple times']),
        ('wrong field', {}, '%s\nmod m {}\nfn f(r: m::Root) -> i32 { r.nope%d }' % (ok, j), ['nope%d' % j]),
    ]
    return out


def negative(c, rnd):
    r = c.rng('neg', rnd)
    ws = harness.Workspace('c19n')
    neg = negatives(r)
    members = ['n%d' % i for i in range(len(neg))]
    ws.prepare(members)
    for m, (label, files, src, words) in zip(members, neg):
        write(os.path.join(ws.dir, m, 's.xsd'), SCHEMA)
        if label.startswith('missing file'):
            # a file of that name in other folders that are close is not the one that was asked for
            for decoy in ('', m + '/src', os.path.basename(ws.dir)):
                write(os.path.join(ws.dir, decoy, words[0]), SCHEMA)
        for p, t in files.items():
            p = os.path.join(ws.dir, m, p)
            if isinstance(t, bytes):
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, 'wb') as f:
                    f.write(t)
            else:
                write(p, t)
        write(os.path.join(ws.dir, m, 'src/main.rs'), '#![allow(dead_code)]\n' + src + '\nfn main() {}\n')
    rc, msgs, err = ws.build()
    errors = rustc_errors(ws, msgs)
    built = {m['package_id'].split('#')[0].rstrip('/').rsplit('/', 1)[-1] for m in msgs if m.get('reason') == 'compiler-artifact'
             and m.get('package_id')}
    if not errors and not any(m in built for m in members):
        raise harness.Inconclusive('nothing was built: ' + err[-1500:])
    for m, (label, files, src, words) in zip(members, neg):
        es = errors.get(m, [])
        c.seen('neg', label)
        c.count('compile errors expected')
        text = '\n'.join(e['rendered'] for e in es)
        msgtext = [e['message'] + ' ' + ' '.join(s.get('label') or '' for s in e.get('spans', [])) + ' ' +
                   ' '.join(k['message'] for k in e.get('children', [])) for e in es]
        if not es:
            bad = 'it compiles' if m in built else 'no error is reported: ' + err[-300:]
        elif 'panicked' in text:
            bad = 'the macro panics: ' + text[:600]
        elif words and not any(all(w in t for w in words) for t in msgtext):
            bad = 'the errors do not say %s: %s' % (words, text[:800])
        elif not any(l >= 2 for e in es for l in harness.span_lines(e)):
            bad = 'the errors do not point at the module: ' + text[:600]
        else:
            bad = None
        if bad:
            c.violate('%s: %s\n%s' % (label, bad, src), dict(source=src, files={k: str(v) for k, v in files.items()}, errors=text))
        else:
            c.count('faults reported at the module')
            c.sample(dict(fault=label, source=src[:200], message=es[0]['message'][:200]), 6)


def c19(c):
    for rnd in pipe.rounds(c, 1, 300):
        positive(c, rnd)
        if rnd < 2:
            negative(c, rnd)
