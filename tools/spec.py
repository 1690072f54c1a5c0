#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after editing)."""
import json
import os

D, L = 'xsd/src/decode.rs', 'xsd/src/lib.rs'
AST = 'xsd-internal/src/ast/'
P = 'xsd-internal/src/xsd/parse/'
X = 'xsd-internal/src/xsd/'
GEN = [AST + f for f in ('leaf.rs', 'leaf_definition.rs', 'leaf_content.rs', 'literal_type.rs', 'root.rs', 'element_content.rs',
                         'element_definition.rs', 'attribute.rs')]


def prop(id, title, statement, over, text, tests, files, mechanism, observe, technique, note):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=tests,
                anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mechanism], observe_at=observe, hook_needed=None),
                technique=technique, note=note)


SUPPORTED = ('A supported schema uses elements, refs, attributes, the 17 builtin types, simple types with restrictions, complex types with '
             'sequence/choice/all, simpleContent and complexContent extensions, includes and imports.')
T_CODEC = ('The repository has 23 schemas with one to three documents each; the guarantee is over all combinations of constructs and all '
           'documents.')
TRUST = ('Trusted: the schema model and document generator in engine/ (written from the XSD rules and the README, not from the generated code), '
         'expat, rustc. Random exploration: says nothing about constructs the generator does not produce (listed in DESIGN.md).')

PROPS = [
    prop('C01', 'Values survive encoding and decoding (round trip)',
         'For every supported schema and every valid document, decoding it, encoding the value with to_xml and decoding the result gives an equal '
         'value. Encoding never fails or panics on a decoded value, and the clone of a value and an equal value are encoded to the same bytes.',
         ['inputs', 'programs'], 'all supported schemas, all valid documents', T_CODEC, GEN + [L, D],
         [('generated from_xml / to_xml', AST), ('writer context', L)], ['T::from_xml', 'T::to_xml', 'PartialEq, Clone of T'],
         'runtime monitor: round-trip oracle over generated schemas and documents',
         'Random schemas compiled by the real macro, random documents decoded, encoded and decoded again; equality and byte-identical re-encoding. ' + TRUST),
    prop('C02', 'Decoding gives exactly the values the document contains',
         'For every supported schema, every valid document is accepted and each field, variant, list element and attribute of the decoded value is the '
         'value at that place of the document, in document order; absent optional parts are None. Spelling that carries no information (prefixes, '
         'comments, processing instructions, CDATA, character references, whitespace between elements, attribute order, quotes, XML declaration) has no '
         'influence.',
         ['inputs', 'programs'], 'all supported schemas, all valid documents, all equivalent spellings of them', T_CODEC, GEN + [D],
         [('generated from_xml', AST), ('cursor', D)], ['T::from_xml', 'Debug of T'],
         'runtime monitor: decoded value compared with the generator\'s intended value',
         'The document generator knows the intended value; the Debug output of the decoded one is parsed and compared field by field. ' + TRUST),
    prop('C03', 'Encoded documents are well-formed and conform to the schema',
         'For every supported schema and every value decoded from a valid document, to_xml writes a well-formed, namespace-well-formed UTF-8 document with '
         'exactly the elements (name, namespace, order), attributes and texts that the schema prescribes for the value: nothing is lost, added, '
         'duplicated or misplaced, and special characters are escaped.',
         ['inputs', 'programs'], 'all supported schemas, all values', T_CODEC, GEN + [L],
         [('generated to_xml', AST), ('writer context', L)], ['bytes written by T::to_xml'],
         'runtime monitor: encoder output parsed by an independent parser and compared with the intended infoset',
         'Output parsed with expat (independent of roxmltree and xml-rs) and compared with the intended tree. ' + TRUST),
    prop('C04', 'Invalid documents are rejected with an error that names the culprit',
         'A document that is not well-formed, lacks a required (single) element or attribute, has elements in the wrong order, name or namespace, or has an invalid '
         'literal, enumeration or fixed value, or an element where text is expected, is rejected. The error says which kind of fault it is '
         '(Xml, MissingElement, MissingAttribute, MissingVariant, InvalidVariant, FixedMismatch, ParseType, TextExpected) and names the element, attribute, '
         'type or value at fault, in Debug and Display; it is never decoded into some other value.',
         ['inputs', 'programs'], 'all supported schemas, all documents with one fault', 'Only a handful of rejected documents is tested.', GEN + [D],
         [('try_child, try_attribute, text', D), ('literal parsing', AST + 'literal_type.rs')], ['Err of T::from_xml'],
         'runtime monitor: fault injection into valid documents, error compared with the injected fault',
         'One fault is injected into a valid document; the error kind and the named culprit must match it. ' + TRUST),
    prop('C05', 'Decoding is total, deterministic and bounded',
         'from_xml returns Ok or Err for every string: it never panics, overflows the stack (documents nested up to 500 levels), loops, or uses memory out of '
         'proportion to the input (more than 64 MB + 4000 bytes per input byte). The same input gives the same result every time, memory is given back when the result is dropped, and re-encoding whatever was accepted '
         'does not panic either.',
         ['inputs'], 'all strings, including hostile ones', 'Tests decode well-behaved documents only.', GEN + [D, L],
         [('Result-returning decoder', D)], ['T::from_xml, T::to_xml', 'allocator', 'CPU time'],
         'runtime monitor: counting allocator, CPU watchdog and panic/abort observer over mutated documents',
         'Mutated, malformed, large and deep documents under a counting allocator and a CPU-time watchdog; AddressSanitizer in the thorough tier.'),
    prop('C06', 'The node cursor finds exactly the children it should',
         'For every document and every sequence of calls on xsd::decode nodes: peek_child tells whether the next unread child element has the given name and namespace, without consuming it; next_child and try_next_child consume the next unread child element exactly if it matches; child and try_child find and consume the first unread child element that matches, wherever it is. attribute and try_attribute return the value of the attribute without namespace, and text returns the text up to the first child element with comments and processing instructions left out (an error if an element comes before any text). Calls that find nothing change nothing, and the try_ variants say what was expected.',
         ['inputs', 'histories'], 'all documents, all call sequences', 'Generated code in tests exercises only the call sequences of few schemas.', [D],
         [('Node, Document', D)], ['xsd::decode::{decode, Document, Node}'],
         'runtime monitor: every call of random call sequences compared with a reference model',
         'Random scripts of cursor calls; each single result is compared with a list model of the document. Trusted: the model and expat-like reading of the generated documents.'),
    prop('C07', 'The writer context produces the intended elements and declarations',
         'For every nesting of elements written through xsd::Context, directly or through wrapped (virtual) contexts of the same element, the output is one start tag per element, with the name, attributes and namespace declarations set on the context or its wrappers before the first start, and one matching end tag. Further starts and the end of a wrapper write nothing. An error of the underlying writer is returned to the caller and never swallowed.',
         ['inputs', 'fault_sequences'], 'all context trees, all points at which the writer fails', 'No test uses contexts directly or lets a writer fail.', [L],
         [('Context', L)], ['bytes written', 'io errors returned'],
         'runtime monitor: written bytes parsed and compared with the intended tree; write faults injected at random bytes',
         'Random context trees; output parsed with expat; a write error injected at every kind of position.'),
    prop('C08', 'Generated code compiles whatever the names in the schema are',
         'For every supported schema whose names do not collide, the generated module compiles, whatever the names of types, elements, attributes and '
         'enumeration values are: Rust keywords, prelude names such as Option, Result, String, Vec, Some or Ok, names that start with digits or contain '
         'dots, dashes, underscores or non-ASCII letters, and enumeration values of arbitrary characters. The code then decodes and encodes under the '
         'original XML names.',
         ['programs', 'inputs'], 'all XML names in all positions', 'Tests use ordinary names.',
         [X + 'mod.rs', AST + 'name.rs', AST + 'root.rs', X + 'schema.rs'], [('escape_ident, name derivation', 'xsd-internal/src'),
                                                                                      ('absolute paths in quotes', AST)], ['rustc on the generated module'],
         'runtime monitor: real macro and rustc run over hostile names in every position; compiled code then exercised',
         'Every keyword and prelude name in every naming position, enumerations over all printable ASCII and many other characters, random hostile schemas. Known name collisions are recorded as findings.'),
    prop('C09', 'Unsupported schema constructs are rejected, not silently ignored',
         'A schema with a construct that changes which documents are valid and that the crate does not support is rejected: e.g. group, attributeGroup, any, anyAttribute, list, union, key, assert, mixed content, nillable, abstract, substitutionGroup, qualified attributes, unsupported builtin types, undeclared prefixes, several global declarations of one name, invalid occurrence numbers or facets, missing required XSD attributes, unknown XSD elements, and unknown attributes of element, attribute, type, sequence, choice and all. The error names the file, the line and the construct, in whichever included or imported file and at whatever depth it is.',
         ['inputs', 'programs'], 'all schemas with one unsupported construct anywhere in any of their files', 'Tests reject two or three constructs at one place.',
         [X + 'schema.rs', X + 'node.rs', X + 'error.rs'] + [P + f for f in ('element.rs', 'complex_type.rs', 'simple_type.rs', 'attribute.rs', 'sequence.rs')],
         [('prevent_unvisited_attributes / children', X + 'node.rs')], ['Err of Schema::parse_file'],
         'runtime monitor: unsupported constructs injected into valid schemas, error compared with the place of injection',
         'About 190 kinds of injections at random places of random schemas; the error must be an XSD error naming file and line.'),
    prop('C10', 'The schema front end is total and bounded',
         'Parsing a schema file, string or node and generating code returns Ok or Err for every input: malformed or hostile XML, missing, '
         'unreadable, circular or self-including files, recursive types, circular aliases, huge or deep schemas. It never panics, hangs or uses memory out of proportion, '
         'and every error has a message; code that is generated parses as Rust.',
         ['inputs', 'configurations'], 'all byte strings as schemas, all file trees', 'Tests parse valid schemas.',
         [X + 'schema.rs', X + 'context.rs', X + 'node.rs'], [('SchemaError', X + 'schema.rs'), ('files already parsed', X + 'schema.rs')],
         ['Schema::{parse, parse_file, parse_schema, generate_all}', 'allocator', 'CPU time'],
         'runtime monitor: counting allocator, CPU watchdog and panic/abort observer over mutated schemas',
         'Mutations of generated and of the repository\'s schemas; file system oddities in a scratch folder.'),
    prop('C11', 'Builtin types accept and reject the right literals',
         'Each builtin type maps to its Rust type (string-like to String, boolean to bool, int to i32, integer and long to i64, nonNegativeInteger and '
         'positiveInteger to u64, decimal to Decimal, float to f32) as element, attribute, text content, list item, choice alternative and restriction base. Every XSD literal in the range of the Rust '
         'type is decoded to its value, with surrounding whitespace, signs, leading zeros, 1/0, INF, -INF and NaN; every other literal is rejected with the type and the literal. FromStr and Display of '
         'the types of named simple types do the same.',
         ['inputs'], 'all literals of all builtin types in all positions', 'One or two literals per type are tested.',
         [AST + 'literal_type.rs', X + 'context.rs'], [('literal parsing and writing', AST + 'literal_type.rs')], ['T::from_xml', 'T::to_xml'],
         'runtime monitor: literal table and random literals through every position, compared with a reference evaluation',
         'Boundary tables and random literals for each type in each position; reference values computed in Python. Ranges are those of the Rust type (0 as positiveInteger and -0 as unsigned are not judged).'),
    prop('C12', 'Namespaces and forms of elements and attributes are respected',
         'Elements are recognised and written with exactly the namespace that targetNamespace, elementFormDefault, form, refs, includes and imports give them, '
         'independent of prefixes and default namespaces in schema or document. An element of the same local name in another namespace, or an attribute in any '
         'namespace, is never taken for the declared one; what is written is valid again when schemas with different forms and namespaces are combined.',
         ['inputs', 'programs'], 'all combinations of forms and namespaces over several files, all prefixes', 'Tests have one qualified and few unqualified schemas with one prefix each.',
         [X + 'context.rs', AST + 'namespaces.rs', AST + 'name.rs', X + 'schema.rs', D, L], [('get_xml_element_name, quote_xml_namespace', X + 'context.rs')],
         ['T::from_xml', 'T::to_xml'], 'runtime monitor: namespace-aware oracles over multi-namespace schemas; namespace faults injected',
         'Schemas with all form defaults over up to four files and namespaces; decode, encode and fault oracles. ' + TRUST),
    prop('C13', 'Enumerations map one to one between literals and variants',
         'For every enumeration type each declared literal parses to a variant of its own, as_str, Display and to_xml give exactly the literal back, and '
         'every other string is rejected with InvalidVariant naming it. Variants are declared in the order of the schema.',
         ['inputs', 'programs'], 'all enumerations, all strings', 'Tests use two enumerations with ordinary values.',
         [AST + 'root.rs', P + 'simple_type.rs'], [('FromStr, as_str, Display', AST + 'root.rs')], ['FromStr, as_str, Display, PartialEq of the enum', 'T::from_xml'],
         'runtime monitor: bijection checked over random enumerations, literals and near misses',
         'Random enumerations, every literal, near misses and all pairs.'),
    prop('C14', 'The content model decides which documents are read and how',
         'Sequences, choices and xs:all in any nesting, with optional, repeated and unbounded elements and groups, and extensions of base types, read '
         'every valid arrangement of elements: each element goes to the field or variant of its own particle, repeated ones keep their order and number, xs:all accepts any order, extensions '
         'read the base content first. Writing produces the elements in schema order again.',
         ['inputs', 'programs'], 'all content models of the supported kinds, all valid arrangements', 'Each construct is tested alone, in one arrangement.',
         [AST + f for f in ('element_content.rs', 'leaf.rs', 'root.rs')] + [P + f for f in ('sequence.rs', 'choice.rs', 'complex_content.rs')],
         [('lookahead of optional groups', AST + 'element_content.rs'), ('variant selection', AST + 'root.rs')], ['T::from_xml', 'T::to_xml'],
         'runtime monitor: decode, encode and round-trip oracles over schemas dense in groups',
         'Schemas dense in nested groups, six profiles; value, infoset and round trip compared. Only deterministic content models (as XSD demands).'),
    prop('C15', 'Equal schemas give equal code',
         'The code generated from a schema, or the error it is rejected with, depends only on what the schema says: it is the same, in the same order, in every run and '
         'every folder, and (up to the order of items) for every spelling of the schema (attribute order, quotes, whitespace, comments, prefixes and where they are declared, attributes and elements of other namespaces); the order of global declarations changes '
         'neither types nor members.',
         ['histories', 'configurations', 'inputs'], 'all schemas, all runs, all equivalent spellings', 'Tests generate code once per schema.',
         [X + 'schema.rs', X + 'context.rs', AST + 'namespaces.rs', AST + 'root.rs'], [('ordered collections', AST)], ['token stream of generate_all'],
         'runtime monitor: differential observation of generated items over runs, spellings, orders and folders',
         'The generated items of each schema are compared token by token over several processes, hash seeds, spellings and folders; schemas with several faults are parsed repeatedly and the errors compared.'),
    prop('C16', 'Generating one element brings along all it needs, once',
         'Generating the code of a global element together with its dependencies gives every type that its members mention, directly or indirectly, with all its '
         'implementations, each once and identical to what the whole schema gives. Names in the set of already generated names are left out, a shared set '
         'never yields a type twice in whatever order elements are requested, and an unknown name is reported as not found.',
         ['inputs', 'histories'], 'all schemas, all elements, all request orders', 'No test uses this entry point with dependencies.',
         [X + 'schema.rs', X + 'context.rs'], [('dependency closure', X + 'schema.rs'), ('discover_type', X + 'context.rs')],
         ['Schema::{elements, generate_element_and_dependencies}'], 'runtime monitor: dependency closure of generated items compared with reachability over the whole schema',
         'Every element of random schemas alone and with a shared set in two orders; closure recomputed from the generated items.'),
    prop('C17', 'The generated API has the promised names, types and shapes',
         'Each global element and named or nested complex type becomes a public struct (choices become enums) in PascalCase with public snake_case fields for attributes, elements and groups; '
         'optional parts are Option, repeated ones Vec, optional repeated ones Option<Vec>; references to named types use that type. All generated types are Debug, Clone and '
         'PartialEq, and elements have from_xml and to_xml.',
         ['programs'], 'all supported schemas', 'Tests name the items of few schemas.', [X + 'schema.rs', AST + 'leaf.rs', AST + 'root.rs', AST + 'root.rs', AST + 'element_content.rs'],
         [('declarations', AST)], ['rustc: code that names every item, member and type'],
         'runtime monitor: compile-time assertions naming every promised item, plus run of the compiled code',
         'For each random schema, code that names each promised item, member and type is compiled with the module. Trusted: the naming rules in engine/model.py.'),
    prop('C18', 'Documentation of the schema becomes documentation of the code',
         'The first xs:documentation of a global declaration, element, attribute or type appears, with whitespace normalised and nothing but markup left out, as doc comment of the '
         'struct, enum, field or variant it belongs to, and nowhere else; what has no documentation gets none. Documentation of any content never breaks the code.',
         ['inputs', 'programs'], 'all documentation texts at all places', 'One documented schema is tested.', [P + 'mod.rs', X + 'schema.rs', AST + 'leaf.rs'],
         [('parse_annotation', P + 'mod.rs')], ['#[doc] attributes of generated items'],
         'runtime monitor: doc attributes of generated items compared with the intended texts',
         'Random documentation, including hostile characters, markup, comments and empty texts, at random places; each generated item, field and variant compared.'),
    prop('C19', 'The macro keeps the module as written and reports faults at it',
         'The attribute macro keeps name, visibility, attributes (outer and inner) and all items of the module it is applied to and only adds the generated items; the schema path is '
         'relative to the crate\'s manifest folder. A missing or unknown argument, a missing, malformed or unsupported schema, a dangling reference or a target that '
         'is no module is a compile error at that place with the reason (file and line for schema faults), never a panic or silent success.',
         ['programs', 'configurations'], 'all modules, all arguments, all faults', 'Tests apply the macro to empty modules only.',
         ['xsd-derive/src/lib.rs', 'xsd-derive/src/generator.rs'], [('all, generate', 'xsd-derive/src')], ['rustc messages', 'behaviour of module items'],
         'runtime monitor: compiled modules exercised from outside; compiler messages of faulty ones compared',
         'Random modules compiled and their items executed; 41 kinds of faulty uses, one crate each, with the expected message.'),
    prop('C20', 'Includes and imports merge files into one schema',
         'A schema split over several files by include and import gives the same items as the unsplit one, whatever the folders, the spelling of paths, the order '
         'of links, and whether files are reached once, several times or in cycles. Paths are relative to the including file; a missing or '
         'faulty file is reported with its own path and line.',
         ['inputs', 'configurations'], 'all ways to split a schema, all link graphs', 'Tests have one include and one import.',
         [X + 'schema.rs', X + 'context.rs'], [('shared context', X + 'context.rs'), ('files already parsed', X + 'schema.rs')], ['Schema::parse_file'],
         'runtime monitor: differential observation of split against unsplit schemas; faults injected into one file',
         'Random splits with diamonds, cycles, self links and path spellings compared item by item with the unsplit schema.'),
    prop('C21', 'Calls do not influence each other, across threads or history',
         'What from_xml, to_xml and code generation return depends only on their arguments: not on earlier calls, failed calls, other schemas in the same process, or calls on other '
         'threads at the same time. All generated types are Send and Sync.',
         ['schedules', 'histories'], 'all call histories and interleavings', 'Tests call each function once on one thread.', [D, L, X + 'schema.rs'],
         [('no shared mutable state', 'whole crate')], ['results per call on many threads and in many orders'],
         'runtime monitor: results on threads and in shuffled histories compared with a sequential run; ThreadSanitizer (thorough)',
         'Each call repeated in several orders, processes and on 8 (16) threads; overlapping calls counted. ThreadSanitizer with an instrumented standard library in the thorough tier.'),
    prop('C22', 'Navigating a schema document answers what the document says',
         'For every document that schemas are read from (also one they are embedded in, through xsd::internal): child, children filters (element, namespace, attribute, in any '
         'combination and order) and remove find exactly the child elements whose local name, namespace and attribute match, the first ones first, each at most once; an element below '
         'xmlns="" has no namespace; attribute gives the value of the attribute without a namespace, whatever prefixed attributes say; prefixes and namespaces resolve in the scope of '
         'the node; text is that of an element that contains only text. What is missing is reported with its name and the range of the element searched; '
         'prevent_unvisited_attributes and prevent_unvisited_children report the first thing in document order that nobody asked for, with its own range, and nothing otherwise.',
         ['inputs'], 'all documents and all sequences of calls', 'Tests only reach a few of the functions, through whole schemas.', [X + 'node.rs'],
         [('filters', X + 'node.rs'), ('visited attributes', X + 'node.rs')], ['xsd::internal::xsd::node'],
         'runtime monitor: every answer of the navigation compared with the tree the document was written from',
         'Documents written together with the byte ranges and scopes of everything in them; random calls on random elements, near misses included.'),
]

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({k: v for k, v in p.items() if k not in ('technique', 'note')}, ensure_ascii=False) + '\n')
for p in PROPS:
    for q in p['anchors']['files']:
        if not os.path.exists('/repo/' + q):
            print('missing', q)
man = dict(version=1, setup_cmd='python3 check.py setup', checks=[
    dict(property=p['id'], quick_cmd='python3 check.py %s quick' % p['id'], thorough_cmd='python3 check.py %s thorough' % p['id'],
         evidence_file='evidence/%s.json' % p['id'], technique=p['technique'], level='exploration', level_note=p['note']) for p in PROPS],
    not_applicable=[], notes='No hooks are needed in /repo: everything is observed through the public API, the generated code and the token stream. '
                             'Defects are listed in known-findings.txt.')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write('\n')
