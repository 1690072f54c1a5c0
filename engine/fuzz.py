"""Hostile text: mutations of documents on the level of characters, tokens and trees."""
import re

DICT = ['<', '>', '/', '</', '/>', '<!--', '-->', '<![CDATA[', ']]>', '<?', '?>', '<?xml version="1.0"?>', '&', '&amp;', '&lt;',
        '&#0;', '&#x0;', '&#xD800;', '&#x110000;', '&#65;', '&#xFFFE;', '&bogus;', '"', "'", '=', ' ', '\t', '\n', '\r', '\r\n',
        '\0', '\x01', '\x7f', '\x80', '\x85', '\ufeff', '\ufffe', '\uffff', '\u2028', '\ud7ff', '\ue000', '\U0001f600',
        '\U0010ffff', 'é', '日本', '\u0301', '<!DOCTYPE a>', '<!DOCTYPE a [<!ENTITY b "c">]>', '<!ENTITY', 'xmlns=""',
        'xmlns:p=""', 'xmlns:xml="a"', 'xmlns:xmlns="a"', ' xmlns="urn:q"', 'xml:lang="x"', 'p:', ':', '::', '-', '--', '.',
        '0', '1', '-1', '99999999999999999999999999', '1e400', '-0', 'NaN', 'INF', '-INF', 'inf', 'nan', 'infinity', 'true',
        'TRUE', '0.0000000000000000000000000000000001', '1' * 60, '9' * 400, '1.' + '0' * 300, 'e', '+', '+1', '%', '{}', '{0}',
        '\\', '\\u0041', '٣', '１', '½', '²', '\u00a0', '\u2003', ' 5', '5 ', '\u00a05']
BOMB = ('<?xml version="1.0"?><!DOCTYPE lolz [<!ENTITY lol "lol">' +
        ''.join('<!ENTITY l%d "%s">' % (i, ('&l%d;' % (i - 1) if i else '&lol;') * 10) for i in range(9)) +
        ']><Root>&l8;</Root>')
TOK = re.compile(r'<!--.*?-->|<!\[CDATA\[.*?\]\]>|<[^<>]*>|[^<>]+|.', re.S)


def chars(r, s, n=None):
    """character level"""
    for _ in range(n or r.choice([1, 1, 2, 3, 8])):
        k = r.randrange(8)
        p = r.randint(0, len(s))
        if k == 0:
            s = s[:p] + s[p + r.choice([1, 1, 2, 5, 20]):]
        elif k == 1:
            s = s[:p] + r.choice(DICT) + s[p:]
        elif k == 2:
            s = s[:p] + chr(r.choice([r.randrange(32, 127), r.randrange(0x20, 0xd7ff), r.randrange(0x10000, 0x10ffff)])) + s[p + 1:]
        elif k == 3:
            q = min(len(s), p + r.choice([1, 4, 16, 64]))
            s = s[:p] + s[p:q] * r.choice([2, 2, 3, 10]) + s[q:]
        elif k == 4:
            q = r.randint(0, len(s))
            a, b = min(p, q), max(p, q)
            s = s[:a] + s[b:] if b - a < 60 else s
        elif k == 5:
            # replace a run of digits / letters
            m = list(re.finditer(r'[0-9]+|[A-Za-z]+', s))
            if m:
                t = r.choice(m)
                s = s[:t.start()] + r.choice(DICT) + s[t.end():]
        elif k == 6:
            s = s[:p] + r.choice(DICT) * r.choice([1, 3, 50]) + s[p + 1:]
        else:
            s = s.replace(r.choice(['=', '"', ' ', 'a', 'e', '0', ':', '/']), r.choice(DICT), r.choice([1, -1]))
    return s


def tokens(r, s, other=None):
    """markup level: keeps most of the document well-formed"""
    t = TOK.findall(s)
    for _ in range(r.choice([1, 1, 2, 4])):
        if not t:
            break
        k = r.randrange(7)
        p = r.randrange(len(t))
        if k == 0:
            del t[p]
        elif k == 1:
            t.insert(p, r.choice(t))
        elif k == 2:
            q = r.randrange(len(t))
            t[p], t[q] = t[q], t[p]
        elif k == 3 and not t[p].startswith('<'):
            t[p] = r.choice(DICT).replace('<', '&lt;') if r.random() < .7 else ''
        elif k == 4 and t[p].startswith('<') and '=' in t[p]:
            t[p] = re.sub(r'="[^"]*"', lambda m: '="%s"' % r.choice(DICT).replace('<', '&lt;').replace('"', '&quot;')
                          if r.random() < .5 else m.group(0), t[p])
        elif k == 5:
            t[p] = t[p] * r.choice([2, 3, 30])
        elif k == 6 and other:
            o = TOK.findall(other)
            a = r.randrange(len(o) or 1)
            t[p:p] = o[a:a + r.choice([1, 2, 5, 20])]
    return ''.join(t)


def subtree(r, s):
    """duplicates, removes or nests a whole element"""
    m = list(re.finditer(r'<([\w:.-]+)(?:\s[^<>]*)?>', s))
    r.shuffle(m)
    for t in m[:5]:
        end = s.find('</%s>' % t.group(1), t.end())
        if end < 0:
            continue
        end += len(t.group(1)) + 3
        el = s[t.start():end]
        k = r.randrange(4)
        if k == 0:
            return s[:t.start()] + s[end:]
        if k == 1:
            return s[:t.start()] + el * r.choice([2, 3, 20]) + s[end:]
        if k == 2:
            return s[:t.end()] + el + s[t.end():]
        q = r.choice(m)
        return s[:q.start()] + el + s[q.start():]
    return s


def mutate(r, s, other=None):
    k = r.random()
    if k < .35:
        s = chars(r, s)
    elif k < .65:
        s = tokens(r, s, other)
    elif k < .85:
        s = subtree(r, s)
    elif k < .97:
        s = subtree(r, tokens(r, s, other))
        if r.random() < .3:
            s = chars(r, s, 1)
    else:
        s = ''.join(r.choice(DICT) for _ in range(r.randint(0, 30)))
    return s.encode('utf-8', 'ignore').decode('utf-8', 'ignore')[:300000]
