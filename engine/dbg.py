"""Parser for Rust's {:?} output and comparison with expected values."""
import math
import re
from decimal import Decimal
from inst import round32

TOK = re.compile(r'''\s*(?:
 (?P<str>"(?:[^"\\]|\\.|\\u\{[0-9a-f]+\})*") |
 (?P<num>[-+]?(?:\d[\d_]*(?:\.\d+)?(?:[eE][-+]?\d+)?|inf|NaN)(?![\w])) |
 (?P<id>[^\W\d]\w*) |
 (?P<p>[{}()\[\],:]) )''', re.X)
ESC = re.compile(r'\\(u\{([0-9a-fA-F]+)\}|x([0-9a-fA-F]{2})|.)', re.S)
MAP = {'n': '\n', 't': '\t', 'r': '\r', '0': '\0', '\\': '\\', '"': '"', "'": "'"}


def unescape(s):
    def rep(m):
        if m.group(2):
            return chr(int(m.group(2), 16))
        if m.group(3):
            return chr(int(m.group(3), 16))
        return MAP[m.group(1)]
    return ESC.sub(rep, s)


class DbgError(Exception):
    pass


def tokens(s):
    pos = 0
    out = []
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m or m.end() == pos:
            if s[pos:].strip() == '':
                break
            # non-ASCII identifiers etc.
            raise DbgError('cannot tokenize at %d: %r' % (pos, s[pos:pos + 40]))
        out.append((m.lastgroup, m.group(m.lastgroup)))
        pos = m.end()
    return out


def parse(s):
    t = tokens(s)
    t.append((None, None))
    i = 0

    def peek():
        return t[i][1] if t[i][0] == 'p' else None

    def expect(p):
        nonlocal i
        if t[i] != ('p', p):
            raise DbgError('expected %s at token %d, got %r' % (p, i, t[i]))
        i += 1

    def val():
        nonlocal i
        k, v = t[i]
        if k == 'str':
            i += 1
            return ('str', unescape(v[1:-1]))
        if k == 'num':
            i += 1
            return ('num', v)
        if k == 'id':
            i += 1
            if peek() == '{':
                i += 1
                fs = []
                while peek() != '}':
                    name = t[i][1]
                    i += 1
                    expect(':')
                    fs.append((name, val()))
                    if peek() == ',':
                        i += 1
                expect('}')
                return ('struct', v, fs)
            if peek() == '(':
                i += 1
                args = []
                while peek() != ')':
                    args.append(val())
                    if peek() == ',':
                        i += 1
                expect(')')
                return ('call', v, args)
            return ('id', v)
        if v == '[':
            i += 1
            xs = []
            while peek() != ']':
                xs.append(val())
                if peek() == ',':
                    i += 1
            expect(']')
            return ('list', xs)
        if v == '(':
            i += 1
            expect(')')
            return ('nil',)
        raise DbgError('unexpected token %r' % (t[i],))
    r = val()
    if t[i][0] is not None:
        raise DbgError('trailing %r' % (t[i],))
    return r


def lit_eq(kind, exp, got):
    if kind == 'str':
        return got == ('str', exp)
    if kind == 'bool':
        return got == ('id', 'true' if exp else 'false')
    if got[0] != 'num':
        return False
    g = got[1]
    if kind in ('i32', 'i64', 'u64'):
        return re.fullmatch(r'-?\d+', g) is not None and int(g) == exp
    if kind == 'dec':
        return Decimal(g) == Decimal(exp)
    if kind == 'f32':
        gv = round32(g) if re.match(r'-?\d', g) else float(g)
        return gv == exp or (math.isnan(gv) and math.isnan(exp))
    raise AssertionError(kind)


def diff(exp, got, names=True, path='value'):
    """None if the decoded value `got` (parsed debug) is the expected one,
    otherwise a description of the first difference."""
    k = exp[0]
    if k == 'lit':
        if not lit_eq(exp[1], exp[2], got):
            return '%s: expected %r, got %r' % (path, exp[2], got)
        return None
    if k == 'nil':
        return None if got == ('nil',) else '%s: expected (), got %r' % (path, got)
    if k == 'none':
        return None if got == ('id', 'None') else '%s: expected None, got %s' % (path, short(got))
    if k == 'some':
        if got[0] != 'call' or got[1] != 'Some' or len(got[2]) != 1:
            return '%s: expected Some(..), got %s' % (path, short(got))
        return diff(exp[1], got[2][0], names, path)
    if k == 'list':
        if got[0] != 'list':
            return '%s: expected a list, got %s' % (path, short(got))
        if len(got[1]) != len(exp[1]):
            return '%s: expected %d entries, got %d' % (path, len(exp[1]), len(got[1]))
        for n, (a, b) in enumerate(zip(exp[1], got[1])):
            d = diff(a, b, names, '%s[%d]' % (path, n))
            if d:
                return d
        return None
    if k == 'unit':
        return None if got in (('id', exp[1]), ('num', exp[1])) else '%s: expected variant %s, got %s' % (path, exp[1], short(got))
    if k == 'variant':
        if got[0] != 'call' or got[1] != exp[1] or len(got[2]) != 1:
            return '%s: expected variant %s, got %s' % (path, exp[1], short(got))
        return diff(exp[2], got[2][0], names, path + '.' + exp[1])
    if k == 'tuple':
        if got[0] != 'call' or len(got[2]) != len(exp[2]) or (names and got[1] != exp[1]):
            return '%s: expected %s(..), got %s' % (path, exp[1], short(got))
        return diff(exp[2][0], got[2][0], names, path + '.0')
    if k == 'struct':
        fs = got[2] if got[0] == 'struct' else [] if got[0] == 'id' else None
        if fs is None or (names and got[1] != exp[1]):
            return '%s: expected struct %s, got %s' % (path, exp[1], short(got))
        if len(fs) != len(exp[2]):
            return '%s: expected fields %s, got %s' % (path, [n for n, _ in exp[2]], [n for n, _ in fs])
        for (en, ev), (gn, gv) in zip(exp[2], fs):
            if names and en != gn:
                return '%s: expected field %s, got %s' % (path, en, gn)
            d = diff(ev, gv, names, path + '.' + en)
            if d:
                return d
        return None
    raise AssertionError(k)


def short(g):
    s = repr(g)
    return s if len(s) < 160 else s[:160] + '…'
