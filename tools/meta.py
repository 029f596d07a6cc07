#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run after editing it)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa import registry

S = 'src/aaf2/'
P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na, state=state, observe=observe))


prop('C01', 'A file opened read-only is never modified',
     'No operation on a file opened for reading writes to the underlying file or alters its length. '
     'Attempts to change a property, a collection or a property stream of an object of such a file are refused with an error before the object changes, and nothing is ever queued for writing.',
     ['histories', 'inputs'], 'every operation sequence on a read-only file, every property kind and collection method',
     'Tests try a few setters on read-only files; the guarantee is about every mutating entry point, including later added ones.',
     [S + 'properties.py', S + 'core.py', S + 'file.py', S + 'cfb.py'],
     [('writeonly guard on every mutator', S + 'properties.py'), ('container close returns early when read only', S + 'cfb.py'), ('file mode normalisation', S + 'file.py')],
     'path-sensitive effect analysis: every state-changing public operation is dominated by the writeable guard; mode-specialised walks of open, save and close show no reachable write for read-only modes',
     'Effects are attribute/collection/stream writes seen by the interpreter; code outside the package that pokes attributes is out of scope.')

prop('C02', 'Every change to an attached object is scheduled for the next save',
     'Whenever a property value, reference, collection element or stream link of an object that belongs to a file changes, the object is part of the next save. '
     'No mutating operation can complete normally and leave the changed object out of it.',
     ['histories', 'inputs'], 'every mutating method of every property kind, on every path on which it completes',
     'Tests check a handful of edits survive; a missing notification shows only when that method is the last change before saving and the object was loaded, not created.',
     [S + 'properties.py', S + 'core.py', S + 'file.py'],
     [('mark_modified after each mutator', S + 'properties.py'), ('queue of modified objects', S + 'file.py')],
     'path-sensitive must-call analysis: a change of property state is followed by registration with the modified queue on every normally ending path',
     'Public mutating entry points only; helpers are judged through their callers.')

prop('C03', 'Directory record attributes are stored at their place and written back',
     'Every attribute of a directory record (name, kind, colour, sibling and child links, class id, flags, times, start sector, size) reads back the value it was given, from the byte position the compound file format assigns to it. '
     'Changing one marks the record so that it is written to the file, and never disturbs another attribute.',
     ['inputs', 'histories'], 'every attribute, value and record',
     'Tests write and re-read typical entries; a wrong offset, width or missing dirty mark shows only for particular values or edit orders.',
     [S + 'cfb.py', S + 'utils.py'], [('attribute accessors over the 128 byte record', S + 'cfb.py'), ('modified record table', S + 'cfb.py')],
     'symbolic byte-range analysis of accessor pairs against the format table, plus must-mark-modified dataflow',
     'Trusts struct and slice assignment semantics.')

prop('C04', 'Container header and sector tables are read exactly as they are written',
     'The container header, the sector allocation table, its index sectors and the mini sector table are written with the fields, widths, byte order and terminators of the compound file format, and the reader takes every field from the same place. '
     'All tables are linked completely: no allocation sector is left out of the index.',
     ['inputs', 'histories'], 'every file size and table shape, including index sectors that only appear in files of many megabytes',
     'Test files are small, so most of the index sector code is never run; round trips cannot show an error that reader and writer share.',
     [S + 'cfb.py'], [('header, DIFAT, FAT and miniFAT writers and readers', S + 'cfb.py')],
     'field-sequence extraction from writer and reader paths compared with each other and with the format',
     'Bulk tables are compared symbolically (count, stride, position); loop trip counts are taken from the loop bounds.')

prop('C05', 'Object streams, indexes and reference tables are read as they are written',
     'The property stream of an object, the index streams of its collections, weak references and the table of weak reference targets are written with the fields, widths, order, byte order and terminators of the stored format, and read back from the same layout. '
     'Rewriting a shorter value never leaves the tail of an older, longer one in the stream.',
     ['inputs', 'histories'], 'every property kind, key size, element count and host byte order',
     'Tests round trip common shapes; reader and writer errors that cancel, 32 byte keys, big endian hosts and shrinking rewrites stay unseen.',
     [S + 'properties.py', S + 'core.py', S + 'file.py', S + 'utils.py'], [('index readers and writers', S + 'properties.py'), ('property stream', S + 'core.py'), ('referenced properties', S + 'file.py')],
     'field-sequence extraction from writer and reader paths compared with the stored format; class-specialised walks for index dispatch',
     'Trusts struct/array/BytesIO semantics.')

prop('C06', 'Saving and closing write everything, in an order that makes it consistent',
     'Saving writes the weak reference table and every modified object; closing a writable file additionally writes the header, sector tables and directory so that the file on disk describes exactly the final in-memory state. '
     'Nothing that allocates or frees space runs after the table describing it has been written, a save can be repeated, and the file handle is closed at the end.',
     ['histories', 'inputs'], 'every history of edits before and between saves, every order of pending changes',
     'Order mistakes only corrupt files when a late step allocates space, which depends on sizes the tests do not reach.',
     [S + 'cfb.py', S + 'file.py'], [('container close sequence', S + 'cfb.py'), ('object save loop', S + 'file.py')],
     'event-order (typestate) analysis over all paths of save and close with allocation effects propagated through calls',
     'Order obligations cover the paths of close/save, not interruption by external faults.')

prop('C07', 'A sector or directory record is never owned twice',
     'Allocating a sector, mini sector or directory record yields one that is free, takes it out of the free pool at once, and never yields one outside the file or in the reserved range around the 2 GiB range-lock position. '
     'Every allocation is linked into exactly one chain which ends with the end mark.',
     ['histories', 'inputs'], 'every interleaving of growth, shrinking, overwriting and deletion; every file size',
     'Double allocation needs a particular history of frees; the range lock sector only exists beyond 2 GiB.',
     [S + 'cfb.py'], [('free lists and allocators', S + 'cfb.py')],
     'path-sensitive ownership analysis of the allocators and of every table assignment',
     'Loops are walked zero and one (two where stated) times; list contents are tracked symbolically.')

prop('C08', 'Cached sectors never go stale',
     'A read always returns the bytes last written to that position of the container, whichever route wrote them. '
     'Any write of file content drops or refreshes the cached copies it overlaps.',
     ['histories'], 'every interleaving of reads and writes through streams, tables and directory records',
     'Staleness needs a read before and after a write of the same sector with the cache still warm.',
     [S + 'cfb.py'], [('sector cache', S + 'cfb.py')],
     'must-invalidate dataflow: every file write reaches cache invalidation of the written range before the next read',
     'Single-threaded use.')

prop('C09', 'Storage names are unique, looked up consistently, and listings stay true',
     'A storage never holds two entries whose names the format considers equal, an entry that exists is found, and listing, lookup and traversal agree after every create, move and remove. '
     'Creating an existing name, removing or opening a missing one, and replacing a storage by a stream are refused without changing anything.',
     ['histories', 'inputs'], 'every sequence of directory operations and every name',
     'Tests do ordinary sequences; sibling order errors need particular name sets and cached listings need particular histories.',
     [S + 'cfb.py'], [('directory tree, name ordering, listing caches', S + 'cfb.py')],
     'finite-domain folding of the name order, guard-before-effect and cache-update dataflow over all directory operations',
     'Tree shape and balance are not decided (see C31).')

prop('C10', 'Removing, overwriting and truncating give storage back exactly once',
     'Space of removed, overwritten or truncated content returns to the pool of the table it was taken from, once, and the entry no longer refers to it. '
     'Content of other entries is never freed.',
     ['histories', 'inputs'], 'every history of rewrites across the small/large stream threshold',
     'Leaks and wrong-table frees are invisible until the space is reused.',
     [S + 'cfb.py'], [('free chains', S + 'cfb.py')],
     'ownership dataflow: which chain is freed under which size condition, and that the reference is cleared',
     'As C07.')

prop('C11', 'Stream positions map to the right bytes of the container',
     'Byte n of a stream is always read from and written to the same place, computed from its sector chain with the right sector size for small and large streams. '
     'Reads never run past the end of the stream, writes past the end extend it, and crossing the small-stream threshold moves the content unchanged.',
     ['inputs', 'histories'], 'every position, length, size and growth history',
     'Boundary arithmetic at sector edges and threshold crossings is sampled at a few sizes.',
     [S + 'cfb.py'], [('stream geometry', S + 'cfb.py')],
     'symbolic polynomial comparison of address computations, bounds and thresholds on every path',
     'Arithmetic is compared as polynomials over the path terms, without a solver.')

prop('C12', 'An object has at most one owner, and refusals change nothing',
     'Adding an object to a property or collection is refused when it has the wrong type, already has a place in a file, or belongs to another file. '
     'A refused operation leaves property, collection and object as they were. An object that is replaced or removed loses its place, whether or not it was in memory.',
     ['inputs', 'histories'], 'every ownership-taking operation and every combination of wrong arguments, including failures half way through a list',
     'Tests cover append; the guarantee spans every setter, insertion, extension and item assignment, and what is left behind after a refusal.',
     [S + 'properties.py'], [('type, root and attachment guards', S + 'properties.py')],
     'guard-before-effect dataflow over all operations that take ownership',
     'Type compatibility is the result of the schema test the code calls; the schema itself is C17.')

prop('C13', 'Collection members never share a key or a storage name',
     'Every element added to a strong collection gets a local key no other element of it has or had since the collection was emptied, also after reload; one that replaces an element takes over its key. '
     'Elements of keyed sets are stored under their own unique key, and changing that key moves the element or is refused when the key is taken.',
     ['histories', 'inputs'], 'every order of insertions, removals, reloads and key changes',
     'A collision needs removal and insertion across a save; tests insert once.',
     [S + 'properties.py'], [('next free key', S + 'properties.py'), ('unique key swap', S + 'properties.py')],
     'dataflow on key generation: each new key comes from the counter which is advanced before reuse, stored and restored',
     'Assumes files on disk have consistent counters.')

prop('C14', 'Detaching, attaching and copying cover every kind of property',
     'Detaching an object tree takes every owned object and stream out of the file, attaching puts every one in, and copying duplicates every property with all state that saving needs. '
     'No property kind is left out, and a copy shares no owned object with its original.',
     ['programs', 'histories'], 'every kind of property at every depth of an object tree',
     'Tests copy common objects; a kind or a field missed by one of the dispatches is silent until that combination is used.',
     [S + 'core.py', S + 'properties.py'], [('dispatch over property kinds', S + 'core.py'), ('per kind copy, attach and detach', S + 'properties.py')],
     'class-specialised path walks (one per property kind) and state-coverage comparison of copy against what writing and reading use',
     'State is the set of attributes the class writes; values are compared symbolically.')

prop('C15', 'Copying definitions into another file keeps them complete',
     'Class, property and type definitions copied between files keep identity, name and every attribute that determines how data is encoded, and are registered so that a second copy finds the first. '
     'Property numbers chosen by one file are translated for the other.',
     ['inputs', 'histories'], 'every kind of type definition and every order of copies',
     'Tests copy a few extension definitions; attributes missing from a copy matter only for types that use them.',
     [S + 'types.py', S + 'metadict.py', S + 'core.py'], [('definition copy methods', S + 'types.py')],
     'state-coverage comparison of copy methods, registration dataflow', 'As C14.')

prop('C16', 'Every stored property format is handled by the matching kind',
     'Each property format code of the stored format is read and created with the one behaviour that fits it, and every declared property type resolves to exactly one format. '
     'No type of the built-in model leads to an unhandled format.',
     ['inputs', 'programs'], 'every type of the built-in model and every format code',
     'Tests touch the common types; the dispatch is over the whole model.',
     [S + 'properties.py', S + 'types.py', S + 'model/typedefs.py'], [('format table', S + 'properties.py'), ('store format of types', S + 'types.py')],
     'constant evaluation of the dispatch tables against the stored format and the model tables', 'Trusts the model tables as data (they are read from source).')

prop('C17', 'The built-in model is closed and unambiguous',
     'Every class, property and type the built-in model mentions is defined, identifiers and names are unique, property numbers do not collide along an inheritance chain, and parents exist without cycles. '
     'The entries keep the identifiers, numbers, types and flags the AAF object specification gives them.',
     ['inputs', 'programs'], 'every entry of the model tables',
     'The tables hold thousands of entries and are looked up lazily, so tests load only those they use.',
     [S + 'model/classdefs.py', S + 'model/typedefs.py', S + 'metadict.py'], [('model tables', S + 'model/')],
     'constant evaluation of the model tables from source and referential-integrity rules over all entries', 'Complete over the tables.')

prop('C18', 'Object classes agree with the model they stand for',
     'Every object class of the package is registered under the identifier the model gives that class, and every property it reads or writes, by name or by number, exists in the model for that class. '
     'Objects it creates by class name are classes that exist and can be created.',
     ['programs', 'inputs'], 'every object class and every property name used',
     'A wrong name fails only when that line runs.',
     [S + 'core.py', S + 'mobs.py', S + 'components.py', S + 'essence.py', S + 'dictionary.py', S + 'content.py', S + 'misc.py', S + 'file.py'], [('class identifiers and named property access', S)],
     'cross-reference lint: property-name constants in class bodies against the evaluated model', 'Receivers are resolved by class; dynamic names are out of scope.')

prop('C19', 'Dynamic property numbers are unique and stay in their range',
     'A property that has no fixed number gets one from the dynamic range that no other property of the file uses, or the request is refused when the range is exhausted. '
     'Registering an already known property or class returns the existing definition.',
     ['histories', 'inputs'], 'every history of registrations, copies and reloads',
     'The range is large and tests register a few.',
     [S + 'metadict.py', S + 'types.py'], [('next free property number', S + 'metadict.py')],
     'dataflow on the allocation: result range, membership test and registration on every path', 'As C07.')

prop('C20', 'A failed session leaves no half-written save and no open handle',
     'When a with-block fails, pending object changes are not saved and the file handle is closed even if closing the container fails. '
     'Saving a closed file is refused, and an object whose writing failed stays queued for the next save.',
     ['fault_sequences', 'histories'], 'every exception at every point of a session or save',
     'Tests raise one exception in one place.',
     [S + 'file.py', S + 'core.py'], [('context manager exit, save loop', S + 'file.py')],
     'exception-path analysis: every call may raise; obligations at each exceptional exit', 'An error of the operating system while writing is an exception of the call.')

prop('C21', 'Weak references keep pointing at the same target table entry',
     'The number a weak reference stores always denotes the same target path: entries are only ever added at the end of the file\'s table, equal paths share one entry, and the table is written on every save. ',
     ['histories'], 'every order of reference creation, save and reload',
     'Index shifts need several target kinds created in a particular order across saves.',
     [S + 'file.py', S + 'properties.py'], [('weak reference table', S + 'file.py')],
     'effect analysis of every use of the table (append-only) and must-write ordering in save', 'As C05.')

prop('C22', 'Corrupt containers are refused or end, never loop',
     'Reading any byte sequence as a container either succeeds or raises an error; cyclic or out-of-range chains and malformed headers cannot make opening or walking run forever or read outside the tables silently. ',
     ['inputs'], 'every byte sequence',
     'The tests contain a few valid files and hardly any malformed ones.',
     [S + 'cfb.py', S + 'core.py'], [('cycle checks and header validation', S + 'cfb.py')],
     'loop progress analysis (bounded counter, visited set or cycle detector on every data-driven loop) and header guard checks', 'Termination of loops over finite Python collections is taken as given.')

prop('C23', 'Identifiers keep one byte order, and equality, hashing and ordering agree',
     'Identifiers built from text, integers, raw bytes, other identifiers or fields denote the same value as what they were built from, in the byte order of the stored format, and own their bytes. '
     'Each form (text, integer, big endian bytes, fields, dictionary) reads back what it was set to; every field accessor reads exactly the bytes its writer sets. '
     'Equal identifiers, a standard library UUID included, have equal hashes; different ones are not equal; every ordering operator orders by the same key. '
     '(A mob id whose label ends in 0 and whose material number reads 060e2b34.7f7f in either half has two text forms; the text form cannot tell those apart.)',
     ['inputs'], 'every identifier and every accessor pair',
     'Tests compare some identifiers with the standard library.',
     [S + 'auid.py', S + 'mobid.py', S + 'utils.py'], [('byte order conversions', S + 'auid.py'), ('field accessors and text form', S + 'mobid.py')],
     'bit-provenance abstract interpretation: every input is a vector of named bits; constructors, accessors and their compositions must be the prescribed permutation of them', 'Trusts uuid and struct.')

prop('C24', 'Incomplete or unknown objects are never created or saved silently',
     'An object lacking a required property is reported when it is saved, and neither an unknown nor an abstract class can be instantiated. '
     'The report names every missing property of the whole inheritance chain.',
     ['inputs', 'histories'], 'every class and every set of missing properties',
     'Tests leave out single properties of single classes.',
     [S + 'core.py', S + 'file.py', S + 'types.py'], [('validation before writing', S + 'core.py'), ('object factory', S + 'file.py')],
     'guard-before-effect dataflow on saving and creation', 'Model data is C17.')

prop('C25', 'Definitions of each kind live in their own collection',
     'Every kind of definition (data, container, codec, parameter, operation, interpolation, tagged value) is registered in, looked up from and merged into the one dictionary collection meant for it, by identifier, by name (in any case, with or without its DataDef_ or ContainerDef_ prefix) and by the object itself. '
     'A name that is not there is reported with an error, an unknown identifier gives nothing. Merging a dictionary into another copies what is missing, once, and keeps what is there; operations of both get the parameters they lack, from their own dictionary. '
     'An object made with a media kind, an operation, a parameter or an interpolation refers to the definition of that kind and name; an operation group made without a media kind takes the one of its operation. '
     'Class and type definitions are found by name, by identifier and by the object itself, each among its own kind.',
     ['inputs', 'programs'], 'every definition kind and lookup route',
     'Tests look up data and operation definitions.',
     [S + 'dictionary.py', S + 'metadict.py'], [('dictionary accessors', S + 'dictionary.py')],
     'abstract interpretation of the dictionary over a heap of collections that record what is put into them', 'Collections are abstract: what a property does to store them is C12-C14. Plug-in and KLV data definitions are not covered.')

prop('C26', 'Values decode to what was encoded, at the width of their type',
     'For every data type (integers, enumerations, extensible enumerations, fixed and variable arrays, sets, strings, records, identifiers, rationals, dates and times, renamed and indirect types), decoding reverses encoding: '
     'element widths, byte order, signedness, field order and lengths agree between the two directions. Numbers are little endian in the width and signedness of their type. '
     'Encoding to a fixed-size type yields exactly that size: short lists are filled with zeros, too long ones are refused; names that are no element of an enumeration are refused. '
     'Rationals keep numerator and denominator as given, unreduced. The helpers that read and write single values agree in width and byte order.',
     ['inputs'], 'every kind of type, every element type and width, every value in its range',
     'Round trips in tests use a few types and small values.',
     [S + 'types.py', S + 'rational.py', S + 'utils.py'], [('encode and decode of type definitions', S + 'types.py'), ('single value helpers', S + 'utils.py')],
     'bit-provenance abstract interpretation of encode and decode of type definitions given by their stored properties: every input is a vector of named bits and must come back as the prescribed permutation of them',
     'Value ranges outside the type are the caller\'s concern; lengths of lists are enumerated, not arbitrary. Trusts struct, uuid, datetime and the UTF-16 codec.')

prop('C27', 'Slots, clips, masters, sources and essence are linked to each other consistently',
     'A slot created in a mob gets a number no other slot of that mob has; an explicitly asked number is used, and one already in use is refused, leaving nothing behind. A source clip made from a mob names that mob and slot, with the start asked for and a length that defaults to what is left of the source slot; mobs, slots and essence are found again from the clips, and essence from the mob, by those identifiers. Creating or importing essence (PCM wave, DNxHD streams, raw video; embedded or offline) makes a source mob, its slot, a descriptor of the right kind and essence data carrying the mob\'s own identifier, all added to the file; the essence bytes are written once, complete and in order, and slot, clip and descriptor lengths agree with what was written. Linking an MXF file adds each package not already known once, with its tracks as slots, its clips and components in their order, and its descriptors, locators and comments. ',
     ['inputs', 'histories'], 'every way of creating slots and essence, over all small slot-number sets and symbolic field values',
     'Tests create one or two slots per mob.',
     [S + 'mobs.py', S + 'mobslots.py', S + 'essence.py', S + 'mxf.py', S + 'components.py', S + 'content.py'], [('slot creation and essence import', S + 'mobs.py'), ('MXF metadata objects and their link methods', S + 'mxf.py')],
     'abstract interpretation of the creating, importing and linking code over a heap of model-typed objects and stub essence; every path must leave the stated ties', 'Essence bytes are opaque chunks; ama.create_media_link (driven by external ffprobe metadata) is not covered.')

prop('C28', 'No operation fails on an undefined name or attribute',
     'Every name the code uses is defined on every path that uses it, calls pass arguments the callee accepts, and attributes used on package objects exist. ',
     ['inputs', 'programs', 'histories'], 'every path of every function',
     'Rarely used branches are never run by the tests, so a wrong name in them survives.',
     [S], [('the whole package', S)],
     'definite-assignment, name-resolution, call-signature and attribute-existence analysis', 'Attributes are checked only for receivers whose class is certain.')

prop('C29', 'Generated storage names fit the container',
     'Every storage name generated for a property, collection, index or member fits the length limit of the container and consists of characters it allows, for any property name and key. ',
     ['inputs'], 'every property name length and local key up to 32 bits',
     'Names near the limit need long extension property names or large keys.',
     [S + 'core.py', S + 'properties.py', S + 'utils.py'], [('name mangling', S + 'utils.py')],
     'length-interval analysis of generated names against the limit', 'As C03.')

prop('C30', 'Files opened while importing essence are closed on every path',
     'Every operating system file the package opens is closed, or handed to the caller, on every path including those that end in an error. ',
     ['fault_sequences', 'inputs'], 'every exit of every function that opens a file',
     'Handle leaks do not fail tests.',
     [S + 'essence.py', S + 'mobs.py', S + 'ama.py', S + 'mxf.py', S + 'file.py'], [('file opening sites', S)],
     'resource typestate analysis over all paths', 'Handles owned by objects with a close operation count as handed over.')

prop('C31', 'Directory trees stay balanced',
     'The sibling tree of every storage stays balanced, so lookup takes logarithmic time in the number of entries. ',
     ['histories'], 'every sequence of insertions and removals', 'Tests insert some hundreds of names.',
     [S + 'cfb.py'], [('red-black insertion', S + 'cfb.py')],
     na='Red-black balance is an invariant of linked structures of unbounded depth; deciding it needs shape analysis or induction over heaps, beyond a sound dataflow analysis here. The order and guard part is C09, loop progress is C22.')
prop('C32', 'Any object tree reads back equal after saving and reopening',
     'Whatever objects and values are written, reopening the file yields an equal tree. ',
     ['inputs', 'histories'], 'every object tree', 'Tests round trip particular trees.',
     [S], [('the whole write and read path', S)],
     na='End-to-end equality quantifies over run-time values and heap contents; the static parts of it are decided separately (C02, C04, C05, C06, C11, C13, C14, C26), their composition is not a static argument in reach.')
prop('C33', 'A crash while saving leaves the previous file readable',
     'Interrupting a save at any write leaves a file that opens with either the old or the new content. ',
     ['crash_points'], 'every write of a save', 'No test interrupts a save.',
     [S + 'cfb.py', S + 'file.py'], [('in-place update', S + 'cfb.py')],
     na='The design updates the container in place and promises no crash atomicity, so this is not a property of the system; kept here to say it was considered.')
prop('C34', 'Interpolated and converted numbers are numerically right',
     'Interpolated control-point values, timecode conversions and rational arithmetic are correct to the stated precision. ',
     ['inputs'], 'every number', 'Tests compare sample curves.',
     [S + 'interpolation.py', S + 'rational.py'], [('interpolation', S + 'interpolation.py')],
     na='Floating point accuracy over all inputs is a numeric question no dataflow analysis here can bound.')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'].strip(),
                'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}) + '\n')
    checks, na = [], []
    for p in P:
        if p['na']:
            na.append({'property': p['id'], 'reason': p['na']})
        elif p['id'] in registry.RULES:
            checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'],
                           'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                           'evidence_file': 'evidence/%s.json' % p['id'],
                           'technique': 'static analysis: ' + p['technique'], 'level': 'other',
                           'level_note': 'Decided from source on every path the interpreter distinguishes (loops unrolled 0/1 times unless stated); shapes it does not recognise are reported as undecided in the evidence, not as alarms. ' + p['note']})
        else:
            na.append({'property': p['id'], 'reason': 'no check built yet: ' + p['technique'] + ' is planned'})
    json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    print(len(P), 'properties', len(checks), 'checks', len(na), 'not applicable')
    for p in P:
        assert len(p['title']) <= 80, p['title']


main()
