#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json.  A property is claimed when checks/props/cNN.py exists."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AT, LIB, MT, AN, AD, NW, ER = ['src/%s.rs' % x for x in
                               ('attribute_type', 'lib', 'media_type', 'anonymizer', 'address', 'network', 'error')]
ALL = [LIB, AT, MT, AN, AD, NW, ER]
P = []


def prop(id, title, statement, over, why, files, mech, technique, level, note, observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, why=why, files=files, mech=mech,
                  technique=technique, level=level, note=note, observe=list(observe)))


AI = 'abstract interpretation of MIR (intervals, difference bounds, variant sets, string terms)'
TM = 'abstract interpretation of MIR over line templates (symbolic identifiers and numbers), compared with a grammar table'
TD = 'abstract interpretation of MIR over description templates, compared with a reference model of the grammar'
TN = ('Decides a finite set of line and description forms; each form stands for all identifiers and numbers of its class. Forms the analysis '
      'cannot resolve are counted as undetermined and never alarmed on, so this is not a proof over all strings.')
TRUST = ('Sound for the code as compiled, given rustc\'s MIR and the std models in engine/models.py. ')

prop('C01', 'Parsing never panics',
     'For every string and line number, parsing a whole description, a single line, a typed value, or a vector of '
     'already parsed lines returns a value or an error: it never panics, indexes out of bounds, slices inside a '
     'character, overflows an integer or unwraps an absent value.',
     ['inputs'], 'Quantifies over all strings; the tests parse a few hundred fixed lines.',
     ALL, [('length checks before indexing, ? on number parsing', AT)],
     AI + ': every reachable panic site must be infeasible', 'proof',
     TRUST + 'Inputs under 2 GiB; allocation failure and stack exhaustion are not modelled.',
     ['parse_sdp', 'parse_sdp_line', 'FromStr impls'])
prop('C02', 'Printing, building, querying and anonymizing never panic',
     'For every value a caller can construct through public fields and constructors, printing it, anonymizing it, '
     'querying it, editing it with the builder functions or converting it never panics, and printing never fails for a '
     'reason of its own.',
     ['inputs'], 'Quantifies over all constructible values including empty lists and extreme numbers.',
     ALL, [('Display impls', AT), ('masked_clone', AN), ('SdpMedia editing functions', MT)],
     AI + ': every reachable panic site must be infeasible; Display impls return only the formatter\'s error', 'proof',
     TRUST + 'Vectors under 2^31 elements; collections built by the caller are arbitrary.',
     ['Display', 'AnonymizingClone', 'SdpMedia/SdpSession methods'])
prop('C03', 'Every operation terminates',
     'For every finite input, parsing, printing, anonymizing and editing finish: every loop consumes its input or '
     'exhausts a finite collection, and nothing recurses without bound on untrusted input.',
     ['inputs'], 'A test cannot show that some other input does not loop.',
     ALL, [('iterator-driven loops', AT), ('media section loop', MT)],
     'loop progress-edge analysis over MIR SCCs plus call-graph acyclicity', 'proof',
     'Every cycle of every control-flow graph must contain an edge that consumes a finite iterator or shrinks a vector; '
     'std functions are trusted to terminate.')
prop('C04', 'Results depend only on the arguments',
     'The result of every operation is a function of its arguments alone: no environment, clock, file, network, thread, '
     'randomness, hidden mutable state, address or hash-iteration order can influence it, and it has no side effect '
     'besides diagnostics.',
     ['inputs', 'histories', 'configurations'], 'No finite set of runs shows the absence of hidden inputs or state.',
     ALL, [('pure code; hash map used for lookup only', AN)],
     'effect analysis over the resolved call graph, type and static inventory', 'proof',
     'Allow/deny decision on every std/foreign function mentioned by the crate after type resolution.')
prop('C05', 'Memory safety and thread-portable types',
     'No program written in safe Rust can cause undefined behaviour through this crate, in any feature configuration, '
     'and its public data types can be sent to and shared between threads.',
     ['programs', 'configurations'], 'Undefined behaviour and auto traits are not observable by tests on samples.',
     ALL, [('no unsafe code', LIB)],
     'rustc lint forbid(unsafe_code) in every configuration plus type-level Send/Sync witnesses and a compile-fail twin', 'proof',
     'Decided by rustc itself; std, url, log, serde trusted.')
prop('C06', 'Strict and lenient parsing policy',
     'A malformed line or wrong structure makes parsing fail in both modes; an unsupported line makes parsing fail exactly '
     'when the caller asked to fail on warnings, and otherwise is recorded as a warning of the returned session, in order, '
     'with nothing else lost.',
     ['inputs'], 'Quantifies over every mixture and order of good, unsupported and bad lines.',
     [LIB], [('error and warning lists in parse_sdp', LIB)],
     TD, 'other', TN)
prop('C07', 'Errors are classified and located faithfully',
     'A failed line reports the original text and number of that line together with the error that stopped it; '
     'unsupported-feature errors are reported as such and every other error as a malformed line, and no error is swallowed '
     'or replaced.',
     ['inputs'], 'Every error path of every line type has to carry this; tests look at a few.',
     [LIB, ER], [('error mapping at the end of parse_sdp_line', LIB)],
     TD, 'other', TN)
prop('C08', 'No accepted line is lost, duplicated or reordered',
     'Every bandwidth, connection, timing, attribute and media line accepted into a session or media '
     'section is present exactly once in the result, in input order, in the section it was written in '
     '(dtls-message in a media section is ignored by design).',
     ['inputs', 'histories'], 'Quantifies over all sequences of lines.',
     [LIB, MT], [('session vector parsing', LIB), ('media vector parsing', MT)],
     TD, 'other', TN)
prop('C09', 'Document structure is enforced',
     'A description is accepted only with version, origin and session name first and in this order and a '
     'timing line; a second origin, version or session name, a second connection line in the same section, '
     'and any attribute or other line at the wrong level, is refused.',
     ['inputs'], 'Quantifies over all line sequences.',
     [LIB, MT], [('line order checks', LIB), ('media section line dispatch', MT)],
     TD, 'other', TN)
prop('C10', 'Attributes only at their allowed level',
     'An attribute is accepted at session level or in a media section exactly when its defining specification allows it '
     'there, through parsing and through the builder functions alike, so no session or media section ever holds a '
     'misplaced attribute.',
     ['inputs', 'programs'], '46 attribute kinds x 2 levels x several entry points.',
     [AT, LIB, MT], [('allowed_at_session_level / allowed_at_media_level', AT), ('add_attribute guards', MT)],
     TD, 'other', TN)
prop('C11', 'Cross-line rules are enforced',
     'An accepted session has timing, a connection for every media section or a session-level one, no extmap at both '
     'levels, rtcp-mux wherever rtcp-mux-only is used, rid payload types declared in their media section, and simulcast '
     'ids defined by rids of the same direction; a session that meets the rules is not refused for them.',
     ['inputs'], 'Quantifies over combinations of lines across sections.',
     [LIB], [('sanity check of the session', LIB)],
     TD, 'other', TN)
prop('C12', 'Numeric fields stay in their specified range',
     'Every number accepted by the parser is stored with the value written in the text, and a field with a specified '
     'range (ports, payload types, pacing, profile ids, levels, ordered pairs, aspect ratios) is accepted exactly for '
     'the values inside it; no number is ever truncated, wrapped or replaced silently.',
     ['inputs'], 'Boundary values and overflow are quantified over all numbers.',
     [AT, MT, LIB], [('range checks after parse', AT)],
     TM, 'other', TN)
prop('C13', 'A fingerprint matches its hash algorithm',
     'Every fingerprint accepted by the parser, the octet reader or the checked constructor has exactly the number of bytes of its hash '
     'algorithm, each byte as written, and the algorithm the text names.',
     ['inputs'], 'All hash names x all lengths.',
     [AT], [('length check against the hash type', AT)],
     TM, 'other', TN)
prop('C14', 'Attribute names and kinds agree everywhere',
     'The name an attribute is printed with, the name its kind is printed with, and the name under which the parser '
     'accepts it are the same one its specification assigns, for all attribute kinds, and asking for an attribute by kind '
     'returns only that kind.',
     ['inputs'], '46 kinds in four hand-written tables.',
     [AT], [('Display, FromStr, kind conversion tables', AT)],
     TM, 'other', TN)
prop('C15', 'Keyword vocabularies agree between parser and printer',
     'For every enumerated value (directions, setup roles, group semantics, hash names, transports, candidate types, '
     'protocols, media kinds, feedback kinds, bandwidth kinds, network and address types) the printed keyword is the one '
     'its specification assigns and parsing it yields the same value back.',
     ['inputs'], 'All keywords x both directions.',
     [AT, MT, LIB, AD], [('Display and parse tables', AT)],
     TM, 'other', TN)
prop('C16', 'Case-insensitive recognition of names and keywords',
     'Names, types and keywords are recognised in any mixture of upper and lower case and give the same result, while '
     'identifiers and free text keep their case.',
     ['inputs'], '2^n case variants of every keyword.',
     [AT, MT, LIB, AD, NW], [('lower-casing before comparison', AT)],
     TM, 'other', TN)
prop('C17', 'Printing a parsed value and parsing it again gives the same value',
     'For every shape of line value (every variant, optional field present or absent, short lists), the printed form is '
     'accepted again by the parser and every field comes back in its own place with its own value.',
     ['inputs'], 'All values of all fields; tests use fixed literals.',
     ALL, [('Display impls', AT), ('parse functions', AT)],
     'symbolic-free template flow: type-directed shapes with opaque field tokens are printed to a template and the '
     'parser is evaluated on the template by abstract interpretation', 'other',
     'Decides positional and keyword agreement for shapes with lists up to length 2 and fields made of separator-free '
     'tokens; not full equality over all strings. An fmtp attribute whose parameters all have their '
     'defaults is printed without them.')
prop('C18', 'Omitted defaults are the defaults',
     'A parameter that the printer leaves out because it has its default value is given exactly that value by the parser '
     'when it is absent.',
     ['inputs'], 'Any default may drift in one of the two places.',
     [AT], [('maybe_print_param defaults, initial parameter record', AT)],
     TM, 'other', TN)
prop('C19', 'Named parameters reach their own field',
     'Each named parameter of fmtp, rid, candidate, extmap, imageattr and similar attributes sets the field of that name '
     'and no other, with the value written, and an unknown parameter never changes a known field.',
     ['inputs'], 'About 60 parameters, any pair of which can be swapped.',
     [AT], [('parameter dispatch in the parsers', AT)],
     TM, 'other', TN)
prop('C20', 'Printed descriptions are well formed',
     'Printing a session or media section gives lines of the form type=value, each ended by CR LF, '
     'beginning with version, origin and session name, in the order the grammar prescribes, each media '
     'section led by its media line, and never an empty or unterminated line.',
     ['inputs'], 'All values with all combinations of absent parts.',
     [LIB, MT, AT], [('Display of session and media', LIB)],
     TD, 'other', TN)
prop('C21', 'Anonymization reaches every sensitive field',
     'In an anonymized session none of the following is copied from the original, each being replaced by the anonymizer\'s '
     'mask of it, at session and media level, in every attribute that carries one: origin user name and address, connection '
     'addresses, candidate addresses, related addresses and ports, remote candidate addresses and ports, rtcp addresses, ICE '
     'user fragments and passwords, fingerprints, and ssrc cnames.',
     ['inputs'], 'All values of all attributes; a forgotten field leaks silently.',
     [AN, AT, LIB, MT], [('masked_clone impls', AT)],
     'provenance analysis: abstract interpretation of every masked clone on symbolic values, the mask functions cut, against a list '
     'of sensitive fields', 'other', TN)
prop('C22', 'Anonymization is consistent and collision free',
     'One anonymizer maps equal inputs of a category (user names, host names, IPv4, IPv6, ports, ICE user names and passwords, '
     'certificate fingerprints, cnames) to equal masks and different inputs to different masks, as long as a category has fewer than '
     '2^32 values; masks keep the kind of the address, and a mask once given never changes.',
     ['inputs', 'histories'], 'Quantifies over sequences of mask calls.',
     [AN], [('lookup before insert, counter increment', AN)],
     'abstract interpretation of MIR with functional maps: every mask function on call histories and an inductive step over an '
     'arbitrary reachable anonymizer', 'other', TN)
prop('C23', 'Anonymization changes nothing else',
     'Every part of a session that is not sensitive is the same in the anonymized copy: same number and order of media '
     'sections, attributes and bandwidths, same variants, and equal non-sensitive fields; only the warnings recorded while '
     'parsing are left out.',
     ['inputs'], 'All values of all fields.',
     [AN, AT, LIB, MT], [('masked_clone impls', AT)],
     'provenance analysis: abstract interpretation of every masked clone on symbolic values; each other field must be the original '
     'term, each list mapped element by element', 'other', TN)
prop('C24', 'Optional features do not change behaviour',
     'Building with or without the serialization, debugging or assertion features gives the same parsing, printing and '
     'anonymizing behaviour.',
     ['configurations'], 'Tests run in one configuration.',
     ALL, [('cfg_attr derives only', LIB)],
     'canonical MIR comparison of every function across four configurations', 'translation_validation',
     'Bodies must be equal up to renaming of compiler-assigned ids; overflow checks are normalised.')
prop('C25', 'Builder and query functions do what they say',
     'Constructors, getters, setters, add and remove functions of sessions, media sections and attributes store and '
     'return exactly the given values, touch nothing else, and removing or setting an attribute affects exactly the '
     'attributes of that kind.',
     ['programs', 'inputs'], 'All receivers and arguments, including repeated edits.',
     [LIB, MT, AT], [('SdpSession/SdpMedia methods', MT)],
     'abstract interpretation of each function on symbolic receivers and arguments, compared with its contract', 'other', TN)
prop('C26', 'Errors describe themselves completely',
     'Every error value prints its kind, its message or contained error, its line text and its line number, serializes them under '
     'their names (with the serialize feature), gives its cause as source, and a library error converted into it is kept.',
     ['inputs', 'configurations'], 'All variants x all contents.',
     [ER], [('Display, Error and Serialize impls of the errors', ER)],
     'abstract interpretation of Display, source, From and Serialize on symbolic error values: every field of every variant flows '
     'to the output', 'other', TN)
prop('C27', 'Flags take no value and valued attributes need one',
     'An attribute defined as a flag is refused when a value is attached, an attribute defined with a value is refused '
     'without one, and an unknown attribute is never accepted as a known one.',
     ['inputs'], 'All attribute names x presence of a value.',
     [AT], [('FromStr of the attribute', AT)],
     TM, 'other', TN)
prop('C28', 'Typed addresses agree with their type',
     'An explicitly typed address is accepted only when a literal IP address is of the declared family, it reports the '
     'family it was declared with, and printing it shows that same family; equality compares family and address.',
     ['inputs'], 'All addresses x both families.',
     [AD, NW, LIB], [('TryFrom of the typed address', AD)],
     TM, 'other', TN)
prop('C29', 'Copies are equal and comparisons mean equality',
     'Cloning any value gives a value with the same variant and the same fields, for every data type of the crate, and where a type '
     'has an equality it holds exactly when variants and all fields are equal, host names being compared without case.',
     ['inputs'], 'All values of about 60 types.',
     ALL, [('derived and hand-written Clone and PartialEq', AT)],
     'abstract interpretation of every Clone and PartialEq impl on symbolic values of every shape: field-wise identity of clones, '
     'field-complete comparison', 'other', TN)
prop('C30', 'Serialization is complete and faithful',
     'With the serialize feature, the serialized form of a session, media section or attribute holds every field under its own '
     'name with its own value, every list element in order, the variant of every enumeration by name, and nothing else.',
     ['inputs', 'configurations'], 'All values of all fields; the test suite does not serialize attribute contents.',
     ALL, [('derived and hand-written Serialize impls', AT), ('Serialize for SdpParserError', ER)],
     'abstract interpretation of the Serialize impls, instantiated with a tree-building serializer, on symbolic values: the tree '
     'must mirror the value', 'other', TN)

NA = [
    dict(id='C90', title='Parse of print is the identity on all text',
         statement='For every session value reachable by parsing, printing it and parsing the text gives an equal session, '
                   'for all free-text contents.',
         over=['inputs'], why='Quantifies over all strings in all fields.', files=ALL, mech=[('Display and parsers', AT)],
         reason='full string equality of a composed printer and parser quantifies over run-time string contents (tokens '
                'containing separators, trimming, Unicode); no sound static argument in reach bounds them. The '
                'positional/keyword part is claimed as C17, defaults as C18, keywords as C15.'),
    dict(id='C91', title='Every valid description is accepted',
         statement='Every description that conforms to the specifications the crate supports is accepted, apart from '
                   'documented unsupported lines.',
         over=['inputs'], why='Quantifies over the whole grammar.', files=ALL, mech=[('parse functions', AT)],
         reason='needs language inclusion between the RFC grammars and the accepted language of hand-written string code; '
                'not decidable by the dataflow analyses used here. Ranges, keywords and levels are claimed separately.'),
    dict(id='C92', title='Parsing takes time linear in the input',
         statement='Time and memory for parsing are bounded by a small multiple of the length of the input.',
         over=['inputs'], why='Adversarial inputs.', files=ALL, mech=[('vector removal from the front', MT)],
         reason='a cost bound over run-time lengths (the code removes from the front of vectors in places) is a timing '
                'property; termination is claimed as C03.'),
]


def main():
    out = open(os.path.join(V, 'properties.jsonl'), 'w')
    checks, na = [], []
    for p in P + NA:
        out.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                  quantifier=dict(over=p['over'], text=p['why']),
                                  why_tests_cant=p['why'],
                                  anchors=dict(files=p['files'],
                                               mechanism=[dict(name=a, where=b) for a, b in p['mech']],
                                               observe_at=p.get('observe') or ['public API'], hook_needed=None))) + '\n')
        if p in NA:
            na.append(dict(property=p['id'], reason=p['reason']))
        elif os.path.exists(os.path.join(V, 'checks', 'props', p['id'].lower() + '.py')):
            c = 'python3 checks/run.py ' + p['id']
            checks.append(dict(property=p['id'], quick_cmd=c, thorough_cmd=c, evidence_file='evidence/%s.json' % p['id'],
                               technique=p['technique'], level=p['level'], level_note=p['note']))
        else:
            na.append(dict(property=p['id'], reason='no check built yet'))
    json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
                   notes='static analysis of rustc MIR; see DESIGN.md'),
              open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)


main()
