"""Reference naming rules: how XML names become Rust identifiers.

`snake`/`pascal` describe the case conversion users see (that of the Inflector
crate), `ident` the escaping of what Rust does not accept as an identifier.
"""
import unicodedata


def _alnum(c):
    # char::is_alphanumeric: Alphabetic or Numeric (Nd, Nl, No)
    if c.isascii():
        return c.isalnum()
    cat = unicodedata.category(c)
    return cat[0] == 'L' or cat in ('Nd', 'Nl', 'No') or (cat in ('Mn', 'Mc') and c.isalpha())


def _trim(s):
    e = len(s)
    while e and not _alnum(s[e - 1]):
        e -= 1
    return s[:e]


def _aup(c):
    return c.upper() if c.isascii() else c


def _alow(c):
    return c.lower() if c.isascii() else c


def snake(s):
    first = True
    out = []
    boff = 0
    for c in _trim(s):
        if not _alnum(c):
            if not first:
                first = True
                out.append('_')
        elif not first and c == _aup(c) and _adj_lower(s, boff):
            first = False
            out.append('_')
            out.append(_alow(c))
        else:
            first = False
            out.append(_alow(c))
        boff += len(c.encode())
    return ''.join(out)


def _adj_lower(s, i):
    n = s[i + 1] if i + 1 < len(s) else 'A'
    p = s[i - 1] if i - 1 < len(s) else 'A'
    return n.islower() or p.islower()


def pascal(s):
    new_word = True
    last = ' '
    found = False
    out = []
    for c in _trim(s):
        if not _alnum(c) and found:
            new_word = True
        elif not found and not _alnum(c):
            continue
        elif unicodedata.category(c) in ('Nd', 'Nl', 'No'):
            found = True
            new_word = True
            out.append(c)
        elif new_word or (last.islower() and c.isupper() and last != ' '):
            found = True
            new_word = False
            out.append(_aup(c))
        else:
            found = True
            last = c
            out.append(_alow(c))
    return ''.join(out)


RAW = set("""abstract as async await become box break const continue do dyn else enum extern false
final fn for gen if impl in let loop macro match mod move mut override priv pub ref return static
struct trait true try type typeof unsafe unsized use virtual where while yield""".split())
SUFFIXED = {'crate', 'self', 'Self', 'super'}


def ident(name):
    """The identifier as Rust's Debug shows it (raw prefix removed)."""
    if name in SUFFIXED:
        return name + '_'
    if name in RAW:
        return name
    s = ''.join(c if (c == '_' or _alnum(c)) else '_' for c in name)
    if s == '' or s == '_' or not (s[0] == '_' or s[0].isidentifier()):
        s = '_' + s
    if s == '_':
        s += '_'
    return s


def raw(name):
    """The identifier as it has to be written in Rust source."""
    return 'r#' + name if name in RAW else name


def derive(names, shorten=False):
    """Name of a type (or field) the schema does not name itself."""
    names = list(names)
    if shorten:
        p = _mutual(names, False)
        s = _mutual(names, True)
        if p and s:
            return p if len(p.encode()) > len(s.encode()) else s
        if p:
            return p
        if s:
            return s
    return ''.join((_aup(n[0]) + n[1:]) if n else '' for n in names)


def _mutual(names, rev):
    if not names:
        return ''
    acc = names[0]
    for n in names[1:]:
        a, b = snake(acc), snake(n)
        if rev:
            a, b = a[::-1], b[::-1]
        out = []
        for x, y in zip(a, b):
            if x != y or x == '_':
                break
            out.append(x)
        acc = ''.join(out)
        if rev:
            acc = acc[::-1]
    return acc


def enum_variants(values):
    """[(variant ident, value)] for an enumeration, in schema order."""
    seen = {}
    res = []
    unknown = 0
    for v in values:
        n = pascal(''.join('_' if c in '_-' else c for c in v if c in '_-' or _identchar(c)))
        if n and not n[0].isalpha():
            n = 'V' + n
        while n == '' or n in seen:
            unknown += 1
            n = 'Variant%d' % unknown
        seen[n] = v
        res.append((ident(n), v))
    return res


def _identchar(c):
    return c == '_' or (c.isascii() and c.isalnum()) or (not c.isascii() and _alnum(c) and ('a' + c).isidentifier())
