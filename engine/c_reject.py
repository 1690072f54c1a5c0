"""C04: documents that violate the schema are rejected with an error that says what is wrong."""
import re
import pipe
import docs
import dbg
import giant
import harness
import mutate


def expected_error(case):
    q = case.res
    d = pipe.crashed(q)
    if d:
        return d
    kind, fields = case.v
    label = 'fault "%s", expected %s %s' % (case.kind, kind, fields)
    if 'err' not in q:
        return '%s: the invalid document is accepted as %s' % (label, q.get('dbg', '')[:400])
    err = q['err']
    if kind == 'Xml':
        return None if err.startswith('Xml(') else '%s, got %s' % (label, err)
    try:
        p = dbg.parse(err)
    except dbg.DbgError:
        return '%s, got %s' % (label, err[:400])
    if p[0] != 'struct' or p[1] != kind:
        return '%s, got %s' % (label, err[:400])
    got = dict(p[2])
    for k, v in fields.items():
        want = ('id', 'None') if v is None else ('str', v)
        have = got.get(k)
        if k == 'namespace' and v is not None:
            want = ('call', 'Some', [('str', v)])
        if have != want:
            return '%s, got %s' % (label, err[:400])
    named = fields.get('name') or fields.get('received') or fields.get('value')
    if named and named not in q['msg']:
        return '%s: the message does not mention it: %s' % (label, q['msg'][:300])
    if q['again'] != err:
        return 'the same document is rejected differently the second time: %s / %s' % (err, q['again'])
    return None


def c04(c):
    c.distinct_features = set()
    prof = [dict(attrs=.8, enums=.5), dict(names='cased', group=.4, attrs=.5), dict(names='hostile', attrs=.5),
            dict(ext=.5, attrs=.7, named_types=5), dict(ns='qual', multifile=.4), dict(ns='unq', multifile=.4),
            dict(group=.5, choice_top=.4, all_top=.2), dict(rec=.4)]
    for rnd in pipe.rounds(c, 1):
        b = harness.Batch('c04')
        ss = pipe.schemas(c, rnd, c.pick(220, 260), prof, b)
        gs = giant.schemas(b)
        pipe.build(c, b)
        cases = []
        for i, s in enumerate(ss):
            r = c.rng('docs', rnd, i)
            for k in range(36):
                x, v = pipe.instance(s, r, huge=.03)
                if k % 9 == 8:
                    d = mutate.malform(r, docs.Noisy(r, r.choice([0, .3])).doc(x))
                    if d is None:
                        continue
                    try:
                        docs.parse_xml(d)
                        continue        # the fault ended up inside of a comment
                    except docs.XmlError:
                        pass
                    cases.append(pipe.Case(s, x, ('Xml', {}), d, s.mod + ':Root', 'not well-formed'))
                    continue
                cand = mutate.candidates(x, r)
                kinds = sorted({q[0] for q in cand})
                kind = r.choice(kinds)
                kind, do, exp = r.choice([q for q in cand if q[0] == kind])
                do()
                # whitespace before a child element would be text content of its parent
                d = docs.Noisy(r, 0 if kind == 'element instead of text' else r.choice([0, 0, .3]), shuffle_all=True, extras=False).doc(x)
                if kind == 'element instead of text':
                    # comments and processing instructions are no text
                    d = re.sub(r'<(?=(\w+:)?nested\b)', r.choice(['', '<!-- x -->', '<?pi x?>', '<!----><?a?>']) + '<', d)
                cases.append(pipe.Case(s, x, exp, d, s.mod + ':Root', kind))
            # fixed values and enumerations: everything that is almost right
            x, v = pipe.instance(s, r)
            for do, undo, exp in mutate.near_misses(x, r, c.pick(30, 60)):
                do()
                d = docs.Noisy(r, 0, shuffle_all=True, extras=False).doc(x)
                undo()
                cases.append(pipe.Case(s, x, exp, d, s.mod + ':Root', 'almost the ' + exp[0]))
        pipe.run(c, b, cases)
        for k in cases:
            if k.res is not None:
                c.count('fault: ' + k.kind)
        pipe.judge(c, cases, [expected_error])
        giant.faults(c, rnd, b, gs, expected_error)
    pipe.finish(c)
