"""Which function decides which property."""
import json
import os
import sys
import core
import harness


def table():
    import c_codec
    import c_reject
    import c_total
    import c_direct
    import c_api
    import c_front
    import c_ns
    import c_indep
    import c_macro
    import c_node
    return {
        'C12': (c_ns.c12, 'schemas of all form defaults over one to four namespaces; documents with random prefixes and default namespaces '
                'decoded and encoded; elements and attributes moved to other namespaces; counted: distinct (schema, document) pairs', []),
        'C19': (c_macro.c19, 'modules with random items, attributes, visibilities and spellings of the argument, compiled with the macro and used '
                'from outside; modules, arguments and schemas that must not compile, one crate each; counted: distinct (features, '
                'expression) pairs and faults', []),
        'C21': (c_indep.c21, 'valid and faulty documents and schemas, processed in several orders, several processes and on 16 threads at once; '
                'every result compared with that of the sequential run; counted: distinct (order, case) pairs and cases run on threads', []),
        'C15': (c_front.c15, 'each random schema parsed several times, in processes with other hash seeds and other histories, in other '
                'spellings, orders and folders; the generated items compared as a set, token by token; counted: distinct '
                '(variation, schema, path)', []),
        'C16': (c_front.c16, 'each global element of random schemas generated on its own and all with a shared set in two orders; compared with '
                'the reachability closure over the items of the whole schema; counted: distinct (element, closure)', []),
        'C18': (c_front.c18, 'random documentation attached to random declarations; doc attributes of every item and field compared with the '
                'text intended for it; counted: distinct (place, text) pairs', []),
        'C20': (c_front.c20, 'schemas split over several files by include, with additional links (diamonds, cycles, self links), other orders and '
                'path spellings, compared with the unsplit schema item by item; one faulty file among several; counted: distinct '
                '(variation, schema)', []),
        'C09': (c_front.c09, 'valid schemas of one to four files with one unsupported or invalid construct injected at a random place; '
                'the error has to be an XSD error that names the file and the line; counted: distinct (construct, schema) pairs', []),
        'C08': (c_api.c08, 'every Rust keyword, prelude name and hostile XML name in every naming position, enumerations of every '
                'printable character, random schemas with hostile names; compiled with rustc, then run; counted: distinct '
                '(name, position) pairs and schemas', []),
        'C11': (c_api.c11, 'every builtin type in every position, with a table of valid and invalid literals rotated through all '
                'positions plus random literals; counted: distinct (schema, document) pairs', []),
        'C13': (c_api.c13, 'random enumerations; every declared literal, near misses and pairs through FromStr, as_str, Display, '
                'equality; documents decoded and encoded; counted: distinct (enumeration, literal) pairs and documents', []),
        'C17': (c_api.c17, 'random schemas; code that names every promised item, member and type is compiled against the module; '
                'counted: distinct item descriptions and documents', []),
        'C01': (c_codec.c01, 'random schemas compiled by the real macro; random documents decoded, encoded and decoded '
                'again; counted: distinct (schema, document) pairs of more than 40 bytes', []),
        'C02': (c_codec.c02, 'random schemas and valid documents in noisy spellings; decoded value compared field by field '
                'with the value the document generator intended; counted: distinct (schema, document) pairs', []),
        'C03': (c_codec.c03, 'random schemas; the encoder output is parsed with expat and compared with the intended '
                'infoset; counted: distinct (schema, document) pairs', []),
        'C04': (c_reject.c04, 'valid documents with exactly one injected fault (missing, renamed, moved element; missing '
                'attribute; wrong literal, enumeration or fixed value; not well-formed); the error kind and the culprit it '
                'names are compared with the injected fault; counted: distinct (schema, document) pairs', []),
        'C05': (c_total.c05, 'mutated, malformed, large and deep documents decoded twice under a counting allocator and a CPU '
                'watchdog; counted: distinct (schema, document) pairs of more than 40 bytes', []),
        'C10': (c_total.c10, 'mutations of generated and of the repository\'s own schemas, file system oddities, large and deep '
                'schemas; parsed and turned into code under a counting allocator and a CPU watchdog; counted: distinct schemas '
                'that are well-formed XML', []),
        'C06': (c_direct.c06, 'random documents and random scripts of cursor operations, every single result compared with a '
                'list model; counted: distinct (script, document) pairs with more than five operations', []),
        'C07': (c_direct.c07, 'random trees of writer contexts and virtual contexts, output parsed with expat and compared with '
                'the intended tree, then again with a write error injected at a random byte; counted: distinct scripts', []),
        'C22': (c_node.c22, 'random documents written together with the byte ranges and scopes of everything in them, and random calls of the '
                'functions that find elements, attributes, text and namespaces in them; every answer and every error compared with the tree; '
                'counted: distinct (document, call) pairs', []),
        'C14': (c_codec.c14, 'schemas dense in choices, nested sequences, xs:all, extensions, optional and repeated '
                'particles; decode, encode and round trip compared with the intended value', []),
    }


def main(args):
    if not args:
        print(__doc__)
        return 2
    if args[0] == 'setup':
        return setup()
    if args[0] == 'replay':
        return replay(args[1])
    if len(args) > 1:
        os.environ['VERIF_TIER'] = args[1]
    t = table()
    fn, rule, assume = t[args[0]]
    return core.main(args[0], fn, rule, assume)


def replay(path):
    with open(path) as f:
        r = json.load(f)
    print(r['property'], r['what'])
    if 'doc' in r and 'files' in r:
        b = harness.Batch('replay')
        m = b.add(r['files'], types=[r['type']])
        b.build()
        print('compile error' if b.broken else 'compiled', b.broken.get(m, ''))
        print(json.dumps(b.run([(m + ':' + r['type'], r['doc'])]), indent=1, ensure_ascii=False))
    elif 'op' in r:
        print(json.dumps(harness.Driver(r.get('src', 'driver')).build().run([(r['op'], r['input'])]), indent=1, ensure_ascii=False))
    return 0


def setup():
    """Build the dependencies once, so that the checks only rebuild what depends on /repo."""
    b = harness.Batch('setup')
    b.add({'main.xsd': '<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema"><xs:element name="Root" type="xs:string"/>'
                       '</xs:schema>'})
    b.build()
    harness.Driver().build()
    print('ready')
    return 0
