#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one place to edit the statements)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))

D, E, C, U, X, T = ('ebmlite/decoding.py', 'ebmlite/encoding.py', 'ebmlite/core.py', 'ebmlite/util.py',
                    'ebmlite/xml_codecs.py', 'ebmlite/threaded_file.py')

p('C01', 'Element IDs and size descriptors survive encoding and decoding',
  'Every element size from 0 to 2^56-2 encodes to the shortest EBML size descriptor that can hold it (or to exactly the requested width of 1 to 8 bytes) and reads back as the same size and width, and every valid EBML ID encodes to its own big-endian bytes and reads back unchanged. '
  'A size that does not fit the requested width, or a width outside 1 to 8 (1 to 4 for IDs), for known and unknown sizes, is rejected with an exception instead of being written as some other size. '
  'Reading an ID or size consumes exactly the descriptor, an all-ones size of any width reads as "unknown" (and only that does), and a first byte that announces an ID longer than four bytes is refused.',
  ['inputs'], 'all sizes 0..2^56-2 x widths {default,1..8}, all valid EBML IDs, all descriptor byte strings followed by arbitrary bytes',
  'The tests sample about a dozen sizes and IDs and never ask for a width too small for the value; the domain has 2^56 sizes with edges at every 7-bit boundary.',
  [D, E], [('encodeSize, encodeId, getLength', E), ('readElementID, readElementSize, decodeIntLength, decodeIDLength', D)],
  ['ebmlite.encoding.encodeSize/encodeId', 'ebmlite.decoding.readElementID/readElementSize'])

p('C02', 'Integer payloads round-trip at every length and never wrap',
  'Every unsigned integer below 2^64 and every signed integer in [-2^63, 2^63) encodes to the shortest big-endian (two\'s complement) byte string that represents it (at least one byte), or, when a length of 1 to 8 is requested, to that many bytes with sign or zero padding, and reads back as the same integer. '
  'Reading any payload of 0 to 8 bytes yields exactly the big-endian value of those bytes (0 when empty) and consumes exactly that many bytes. '
  'A negative unsigned value, a value beyond 64 bits, or a value that does not fit the requested length is rejected with an exception and never truncated or wrapped.',
  ['inputs'], 'all 64-bit integers, signed and unsigned, all requested lengths, all payloads of 0..8 bytes',
  'The tests enumerate one byte position at a time with fixed low bytes; sign-extension and shortest-form mistakes live at other bit patterns and lengths (3, 5, 6, 7 bytes).',
  [D, E, C], [('encodeInt, encodeUInt', E), ('readInt, readUInt', D), ('IntegerElement, UIntegerElement', C)],
  ['ebmlite.encoding.encodeInt/encodeUInt', 'ebmlite.decoding.readInt/readUInt', 'Element.encode / Element.value'])

p('C03', 'Float and date payloads round-trip exactly',
  'Every non-zero double (infinities and NaN included) reads back bit-for-bit the value encoded with the default or an 8-byte length, every single-precision value does with a 4-byte length, and zero encodes by default to an empty payload that reads as 0.0. '
  'Every naive datetime within the range of signed 64-bit nanoseconds around 2001-01-01 encodes to exactly 8 bytes holding its nanosecond offset and reads back equal to the microsecond, and any 8-byte date payload reads as 2001-01-01 plus its offset rounded down to the microsecond. '
  'Any other payload or requested length (floats: 0, 4, 8; dates: 8) and any date out of range is rejected with an exception in both directions.',
  ['inputs'], 'all IEEE doubles and singles, all datetimes in 64-bit nanosecond range, all 8-byte date payloads, all lengths',
  'The tests use five float constants and two dates, all after 2001 and with no sub-second part below zero.',
  [D, E, C], [('encodeFloat, encodeDate', E), ('readFloat, readDate', D), ('FloatElement, DateElement', C)],
  ['ebmlite.encoding.encodeFloat/encodeDate', 'ebmlite.decoding.readFloat/readDate'])

p('C04', 'Text and binary payloads round-trip, pad and truncate predictably',
  'Any printable-ASCII string, any NUL-free Unicode string and any byte string reads back unchanged after encoding; in an ASCII string each unencodable or non-printable character becomes exactly one "?". '
  'With a requested length the payload has exactly that length: shorter values are padded with trailing NUL bytes, which readers of text drop (text ends at the first NUL), longer text is cut to a prefix of the value, and longer binary data is rejected with an exception. '
  'Values of the wrong type are rejected with an exception.',
  ['inputs'], 'all strings, byte strings and requested lengths; all payload byte strings for reading',
  'The tests use six short literals and lengths 2 and 20; character classes, embedded NULs, lengths at and around the exact size are not covered.',
  [D, E, C], [('encodeString, encodeUnicode, encodeBinary, STRING_CHARACTERS', E), ('readString, readUnicode', D), ('StringElement, UnicodeElement, BinaryElement', C)],
  ['ebmlite.encoding.encode*', 'ebmlite.decoding.readString/readUnicode', 'Element.encode / Element.value'])

p('C05', 'Encoded elements are correctly framed, ordered and complete',
  'For any schema and any value accepted for one of its elements, encoding yields the element ID, a size descriptor whose value is exactly the number of payload bytes that follow, and the payload, byte for byte what an independent EBML writer produces. '
  'Children are written in the order given, whether a master\'s contents are a dictionary or a list of (name, value) pairs and whether elements are named by name or by ID; a list given for a repeatable element yields one element per item in order. '
  'Requested payload lengths (by call or by the schema), requested size-descriptor widths and the "infinite" flag are honoured at every level they apply to. Encoding to a stream writes the same bytes to it and returns it.',
  ['inputs', 'configurations'], 'all schemata, all value trees accepted by the encoder, all length/lengthSize/infinite arguments, default header on/off',
  'The tests encode three single-element examples; nesting, payloads over 126 bytes, lists, pairs, fixed lengths and header generation are unexercised.',
  [C, E], [('Element.encode, MasterElement.encode/encodePayload, Document.encode/_createHeaders', C), ('Schema.encode/encodes', C), ('encodeSize', E)],
  ['Schema.encodes/encode', 'Element.encode'])

p('C06', 'Parsing reports exactly the elements present in the bytes',
  'For every well-formed EBML byte string and every schema, loading it and walking it yields exactly the elements an independent reading of the bytes gives: the same tree in the same order, with the same IDs, names, types, offsets, header lengths, payload sizes and values, each value of the Python type its data type stands for. '
  'This holds for every legal width of size descriptor, any nesting depth, empty elements, zero-length values, IDs absent from the schema (reported as unknown elements carrying their ID and bytes), Void elements (contents ignored), and schema-level pre-caching on or off. '
  'Loading from a file, a path, an in-memory buffer or any object with read, seek and tell gives the same result.',
  ['inputs', 'configurations'], 'all well-formed EBML documents x all schemata x all stream kinds',
  'The tests walk one IDE and one MKV file; descriptor widths, unknown IDs, precache overrides and deep nesting take only the values those files happen to contain.',
  [C, D], [('MasterElement.parseElement/__iter__, Document.__iter__, Element.value', C), ('read*', D)],
  ['Schema.load/loads, iteration, Element attributes and value'])

p('C07', 'Encoding then dumping a document returns the same data',
  'For any schema and any data tree that conforms to it (repeatable elements as lists, others at most once), loading the encoded bytes and dumping the document gives back the same nested names and values, and encoding the dump again gives the same bytes. '
  'Values of repeatable elements come back as lists in file order even when there is only one, and values of other elements come back bare. '
  'Editing any value in a dump and re-encoding changes that value and nothing else.',
  ['inputs'], 'all schemata, all conforming data trees, all single edits',
  'No test calls dump on an encoded tree of more than one element; the example program relies on it for configuration files.',
  [C], [('MasterElement.dump, Document.encode, MasterElement.encodePayload', C)], ['Schema.encodes', 'Document.dump'])

p('C08', 'Unknown-size masters parse like their sized equivalents',
  'A document in which any set of master elements carries the "unknown" size parses to the same tree (names, order, values, element offsets consistent with the bytes) as the same document written with definite sizes, provided each unknown-size element is followed, inside or after its parent, by end of file or by an element that is not one of its valid children. '
  'The element ends right before the first element that is neither declared as its child in the schema nor global, and its reported size, length and raw bytes cover exactly its contents. '
  'This holds for unknown-size elements nested in each other and for children declared as global elements.',
  ['inputs', 'configurations'], 'all schemata with child/global structure, all documents, all subsets of masters written with unknown size of any descriptor width',
  'One test compares two fixed MKV files with a single unknown-size element.',
  [C], [('MasterElement.size, _isValidChild, __iter__, __len__; Schema.children/globals', C), ('readElementSize', D)],
  ['iteration, Element.size, len, getRaw of the master'])

p('C09', 'Access order and caching never change what is read',
  'For any history of operations on a document and its elements (iterating partly or fully, interleaving several iterators, indexing, len, value, dump, raw reads, equality tests, clearing caches recursively or not, and outside seeks of the shared stream), every result equals what a fresh load of the same bytes reports. '
  'Clearing caches only causes values to be read again, and reports the number of cached values cleared on an element (at least one if it held a cached value). '
  'Repeated reads of an element return equal values.',
  ['histories', 'inputs'], 'all operation histories over all documents',
  'Tests read each element once, front to back; order-dependent faults of lazy loading, a shared stream position and cached lengths need specific histories.',
  [C], [('Element.value/gc, MasterElement.__len__/__iter__/gc, Document.__getitem__/__len__', C)],
  ['value, iteration, len, getRaw, getRawValue, gc'], [dict(name='_value, _length, _size', meaning='per-element caches', where=C), dict(name='stream', meaning='shared read position', where=C)])

p('C10', 'Truncated or damaged input never loses or alters intact elements',
  'When a document is cut at any byte offset, or followed or overwritten from some offset on by arbitrary bytes, every element that ends before that offset is still reported, in order, with the same ID, offset, size and value, before any error or end of iteration. '
  'Iterating over any byte string whatsoever terminates: each step either yields an element located after the previous one, ends, or raises an exception. '
  'An element whose complete header precedes the damage is reported with the ID, offset and size its header states, or an exception is raised; it is never silently left out.',
  ['crash_points', 'inputs', 'fault_sequences'], 'all documents x all cut offsets x all overwriting bytes; all byte strings',
  'No test opens a truncated or corrupt file; recorders lose power mid-write, so every cut point occurs in practice.',
  [C, D], [('MasterElement.__iter__, Document.__iter__ end-of-file handling', C), ('readElementID/readElementSize', D)],
  ['Schema.loads, iteration'])

p('C11', 'EBML to XML and back preserves the document',
  'For any schema and any well-formed document with values XML can carry, converting to XML with IDs (required for unknown elements) and types on or off, sizes and offsets on or off, and any lossless binary codec, serialising, re-parsing and converting back gives a document with the same tree: same element IDs and names in the same order with equal values. '
  'With sizes on, each non-master element also keeps its payload size, Void elements included. '
  'The XML tree mirrors the element tree one to one, with attributes stating the actual ID, type, offset, size and value.',
  ['inputs', 'configurations'], 'all schemata (from file or string, with or without a name), all sources, targets and encodings of XML and EBML, all documents (all types, non-ASCII text, infinities/NaN, zero-length values, unknown IDs, unknown sizes), all toXml option combinations and codecs',
  'The tests convert one MKV and one IDE file and compare only IDs, sizes and offsets (element equality ignores content); dates, non-ASCII text and empty values never occur.',
  [U, X, C], [('toXml', U), ('xmlElement2ebml, xml2ebml, loadXml', U), ('BINARY_CODECS', X)],
  ['util.toXml, util.xml2ebml, util.loadXml'])

p('C12', 'XML to EBML conversion writes well-framed output and reports its size',
  'Converting any XML tree over a schema produces EBML that an independent reader parses completely into that tree, or raises an exception; edited or absent size information, and size-descriptor widths requested by argument or by attribute, never lead to a wrong size in the output, and widths requested by attribute are used as given. '
  'The returned number is the number of bytes written; comments are skipped; a default EBML header is written first exactly when requested, defined by the schema and not present in the XML. '
  'An element whose name is not in the schema is written with its stated ID when unknown elements are allowed and refused at any depth when they are not, and converting one document never affects later parsing or conversion.',
  ['inputs', 'configurations', 'histories'], 'all XML trees over all schemata, stale/absent/explicit size attributes, all sizeLength/headers/unknown arguments, sequences of conversions',
  'The tests feed only machine-generated XML with matching sizes back in, with default arguments, and never check the return value.',
  [U, E], [('xmlElement2ebml, xml2ebml, loadXml', U), ('encodeSize', E)], ['util.xml2ebml, util.xmlElement2ebml, util.loadXml'])

p('C13', 'Binary text codecs are lossless under every formatting option',
  'For any byte string, column count (including none), word width, offset column, starting offset and whitespace indentation, text produced by the base64 and hex codecs decodes to the same bytes; decoding never depends on the options used for encoding. '
  'Writing to a stream produces the same text as returning it, and the returned count is the amount written, for encoding and for decoding. '
  'Line lengths follow the requested columns, and the "ignore" codec yields nothing in both directions.',
  ['inputs', 'configurations'], 'all byte strings x all codec options x stream or return',
  'The tests encode one 1024-byte string with default options.',
  [X], [('Base64Codec, HexCodec, IgnoreCodec', X)], ['codec.encode / codec.decode'])

p('C14', 'A schema contains exactly the elements its XML defines',
  'Loading any valid schema XML, from a file name, an open file or stream of any kind, a string or bytes, in any encoding the XML declares, gives element types with exactly the defined IDs, names, data types, "multiple", "mandatory", "precache", fixed length, documentation text, raw attributes, and parent/child and global relations (as visible in lookup, encoding and parsing), each reachable by ID and by name. '
  'An element re-declared under another parent, by name, by ID or both, is the same type as its first definition and inherits all its attributes; a re-declaration that contradicts the first definition, an element missing its ID or name, an unknown element type or an invalid name is refused with an exception. '
  'An element added to a schema later on by addElement is as if its definition were in the XML, and one that is refused leaves the schema as it was. '
  'Two schemata are equal exactly when the IDs, types and attributes of their elements are, and a schema without a document type takes its name from the given name or its file name; its type and version are the stated defaults, a version that is not a number counting as none.',
  ['inputs', 'configurations'], 'all schema XML documents, valid and invalid, and their sources and encodings',
  'The tests load the bundled schemata only, and check counts and a few lookups.',
  [C], [('Schema.__init__, _parseSchema, addElement, __getitem__/__contains__/get/__eq__', C)], ['loadSchema, parseSchema, Schema lookups'])

p('C15', 'Schema lookup follows the search path and the cache is coherent',
  'A schema given by base name is the first match in the search path (a module in braces resolves to that module\'s directory; entries of EBMLITE_SCHEMA_PATH come after the default ones), one given by path is that file, and the listing of available schemata shows every native-format schema file on the path, the one that would be loaded first in front. '
  'Loading the same schema again, by the same name or another spelling of its path, returns the identical object until a reload is requested, which returns a new, equal one that later loads then return; parsing from a string, bytes or a stream obeys the same rule by name. '
  'A failed load raises and leaves later loads unaffected.',
  ['histories', 'configurations'], 'all search-path contents and orders, all sequences of load/parse/reload/failed load',
  'The tests exercise one load-twice and one reload with the bundled files.',
  [C], [('loadSchema, parseSchema, listSchemata, _expandSchemaPath, SCHEMATA, SCHEMA_PATH', C)], ['loadSchema, parseSchema, listSchemata'],
  [dict(name='SCHEMATA', meaning='cache of loaded schemata', where=C)])

p('C16', 'Documents honour header, offset, indexing and ownership rules',
  'A document\'s info, type and version come from its EBML header wherever reading starts, the header appears as an element exactly when requested, and all other root elements are unaffected by that choice. '
  'Length and indexing agree with iteration for every index (out-of-range and negative indices raise IndexError), however the document was opened and whatever was asked before. A name or size given explicitly is reported as given, and otherwise comes from the named file or in-memory source. '
  'Closing a document, directly or by leaving a with block (also by an exception), closes the file exactly if the document opened it.',
  ['inputs', 'configurations', 'histories'], 'all documents with and without header, all start offsets, all kinds of source, all index values',
  'The tests use one file opened by name with fixed options.',
  [C], [('Document.__init__/__len__/__getitem__/__iter__/close/__exit__/info', C), ('Schema.load/loads/__call__', C)], ['Schema.load, Document API'])

p('C17', 'Raw access is byte-exact and elements tile their parent',
  'For every element of any well-formed document the raw bytes are exactly the slice of the source from its offset to its end, the raw value is exactly its payload, and offset, header length and size agree with that slice. '
  'The raw bytes of the children of a master concatenated in order are exactly its raw value, and those of the root elements are exactly the document; re-loading the raw bytes of any element on their own yields an element with the same content. An element made by hand from its stream, offset, size and payload offset, or parsed directly there, equals the one a walk gives. '
  'Raw reads do not alter cached or later-read values.',
  ['inputs', 'histories'], 'all documents, all elements, any order of raw and decoded reads',
  'One test reads four raw bytes from a hand-made element.',
  [C], [('Element.getRaw/getRawValue, payloadOffset/size', C)], ['getRaw, getRawValue, offset, size, payloadOffset'])

p('C18', 'A thread-aware file behaves as a private file in every thread',
  'Under every interleaving of threads, each thread\'s reads, line reads, seeks, tells and iteration on one shared thread-aware file return exactly what a private read-only file would, starting at position 0 in each new thread, including threads started after others have ended; documents walked concurrently through it give the same elements in every thread. '
  'Closing in one thread closes the file for that thread only, without error; closing all closes it for every thread that used it. '
  'No mode other than a reading mode is accepted however it is passed, writing methods raise, and the file on disk is never created, truncated or changed.',
  ['schedules', 'histories'], 'all interleavings of operation sequences over several threads (including threads that end and are replaced), all open modes',
  'One test uses it from a single thread; position sharing, closing and thread turnover need chosen schedules.',
  [T], [('ThreadAwareFile.getThreadStream/close/closeAll/cleanup/makeThreadAware', T)], ['ThreadAwareFile methods from several threads'],
  [dict(name='threads', meaning='one stream per thread', where=T)])

p('C19', 'ID validation and generation follow the EBML ID classes',
  'An integer is accepted as an element ID exactly when it lies in one of the four class ranges (0x81-0xFE, 0x407F-0x7FFE, 0x203FFF-0x3FFFFE, 0x101FFFFF-0x1FFFFFFE); all others raise ValueError. '
  'Generated IDs are distinct, valid, of the requested class, within the requested minimum and maximum inclusive, absent from the schema and from the exclusion list, and as many as requested whenever that many exist. '
  'An invalid class raises KeyError, and class letters are case-insensitive.',
  ['inputs', 'configurations'], 'all integers; all schemata, classes, exclusions, bounds and counts',
  'The tests check range edges only and one schema; first-byte/length mismatches and bounds combined with exclusions are not covered.',
  [U, D], [('createID, validateID', U), ('decodeIDLength', D)], ['util.createID, util.validateID'])

p('C20', 'Traversal and pretty-printing show every element once, in order',
  'Flat iteration over any document or element yields every descendant exactly once, depth-first in file order, not including the starting element, and with a depth limit exactly those at most that many levels down. '
  'Pretty-printing emits a header and then one entry per element in that same order, starting with the starting element, each with its offset, size, name, ID, indentation for its depth, data type or child count and, unless disabled, its value; binary contents appear only as rendered by the chosen codec and decode back to the element\'s bytes. '
  'Neither changes the document or its values.',
  ['inputs', 'configurations'], 'all documents, all starting elements, all depths, all print options and codecs',
  'One test prints one file and checks nothing about the output; depth limits are untested.',
  [U], [('flatiter, pprint', U)], ['util.flatiter, util.pprint'])

p('C21', 'Command-line tools convert faithfully and never overwrite unasked',
  'For any document, converting with the ebml2xml tool and back with the xml2ebml tool (any binary encoding that is lossless, compact or indented output, minimal or maximal description, to a file or to standard output) yields a document with the same elements and values, and view-ebml prints exactly the library\'s pretty-print of the file. '
  'An existing output file of these three tools is left untouched, with a non-zero exit status, unless overwriting was requested; a missing input or schema gives a non-zero exit status and creates no output, and what was refused is said on standard error. '
  'list-schemata prints every (native-format) schema on the search path, extra paths included, the one that would be loaded first in front.',
  ['inputs', 'configurations'], 'all documents, all command-line option combinations, all states of the output path',
  'The tests run each tool once on one file with fixed options.',
  ['ebmlite/tools/ebml2xml.py', 'ebmlite/tools/xml2ebml.py', 'ebmlite/tools/view_ebml.py', 'ebmlite/tools/list_schemata.py', 'ebmlite/tools/utils.py', U],
  [('main', 'ebmlite/tools/*.py'), ('load_files', 'ebmlite/tools/utils.py')], ['command line: exit status, output file, stdout'])

p('C22', 'Verification accepts exactly the data the schema can parse',
  'Verifying a byte string succeeds for every well-formed document made of elements of the schema with readable values, at any depth. '
  'It raises an exception whenever an element with an ID not in the schema occurs at any depth (also inside sibling or nested masters and after valid elements), or a value cannot be decoded as its declared type (bad float or date length, malformed UTF-8), or an invalid ID byte is met where an element should start. '
  'Its verdict does not depend on values or caches from earlier calls.',
  ['inputs'], 'all well-formed documents; all documents with one injected fault at any position; sequences of calls',
  'The tests verify one 4-byte document and one with an invalid first byte.',
  [C, D], [('Schema.verify', C), ('read*', D)], ['Schema.verify'])

p('C23', 'Invalid data is refused by the encoder at any depth',
  'Encoding raises an exception whenever, at any depth, the data names an element not in the schema, gives a list of several values for an element that is not repeatable, or gives a value of a type or range the element cannot hold (text for a number, number for text or master, negative for unsigned, beyond 64 bits, longer than a fixed length), or is a list of documents. '
  'Requesting an "infinite" size for anything but a master raises. '
  'Encoding has no side effects: it never modifies the data given to it, and a refused call leaves later encoding unaffected.',
  ['inputs', 'histories'], 'all conforming data trees with one injected fault at any position, all fault kinds, sequences of failing and valid calls',
  'The tests cover a few codec-level type errors and no fault inside a tree.',
  [C, E], [('Element.encode, MasterElement.encodePayload, Document.encode', C), ('encode*', E)], ['Schema.encodes, Element.encode'])

p('C24', 'Element equality is consistent and sensitive to content',
  'Elements from two loads of the same bytes with equal schemata compare equal position by position, and equality is reflexive and symmetric over any elements, unknown ones included, and never raises for foreign objects. '
  'Two elements that differ in ID, type, offset, size or schema are unequal (unknown elements: exactly when they differ in ID or value), as are numeric, date and text elements whose values differ; a NaN value equals nothing but itself. '
  'Comparing elements never changes their values.',
  ['inputs'], 'all pairs of elements from pairs of documents, including documents differing in one byte of one value',
  'The tests compare a handful of hand-built elements; the conversion tests rely on equality meaning what it says.',
  [C], [('Element.__eq__ and overrides, UnknownElement.__eq__, Schema.__eq__', C)], ['== and != on elements and schemata'])

p('C25', 'Legacy python-ebml schemata load to equivalent schemata',
  'A schema written in the flat python-ebml table format gives the same elements as the same definitions in the native format: same IDs, names, data types, "multiple", "mandatory", documentation text and raw attributes, and the same parsed trees, values and encodings for every sized document. '
  'An entry with a missing or unknown type, or that contradicts an earlier entry, is refused with an exception. '
  'A root tag that is neither format is refused.',
  ['inputs', 'configurations'], 'all legacy schema tables, all sized documents over them',
  'No test loads a legacy schema.',
  [C], [('Schema._parseLegacySchema, ELEMENT_TYPES', C)], ['Schema, Schema.loads, Schema.encodes'])

p('C26', 'Reading is lazy, cached and of bounded effort',
  'Opening a document and iterating, indexing, counting or flattening it (or printing its structure without values) reads element headers only: of a payload no more than a few bytes are read unless the schema precaches that element (as declared, numbers and dates by default) or its value, raw bytes, dump or XML is asked for, and iteration reads no further into the file than the elements asked for need. '
  'A value once read, or precached, is returned from memory, without touching the stream and even after it was closed, until gc() drops it. '
  'The number of reads for a full walk grows at most with elements times nesting depth, nested "infinite" elements included.',
  ['inputs', 'histories', 'configurations'], 'all documents (sized and unknown sizes), all precache declarations, all histories of reading operations',
  'The tests never look at what is read from the stream; a reader that reads everything at once passes them all.',
  [C, U], [('MasterElement.parseElement/__iter__/__len__/value/size, Element.value/gc', C), ('Document.__init__/__iter__/__getitem__', C), ('flatiter, pprint', U)], ['Schema.load, iteration, value, len, gc, precache'])

p('C27', 'Operations are isolated from one another and from their arguments',
  'What an operation gives depends on its arguments alone: any interleaving of loading, walking, encoding, converting, printing and refused calls over several schemata (also ones that share names and IDs) and documents, in one thread or in several using schemata in common, gives each the result it has alone. '
  'No operation other than loading a schema changes a schema, the base classes, SCHEMA_PATH, the codecs or its arguments (data, XML trees, lists of paths or IDs, codec instances, byte strings), and changing a result does not affect later results.',
  ['inputs', 'histories', 'schedules'], 'all interleavings of operations over several schemata and documents, all thread schedules with documents of their own, all arguments',
  'The tests use one schema and one call at a time and do not look at arguments afterwards.',
  [C, U, X], [('Schema, Document, Element.encode', C), ('toXml, xml2ebml, createID, printSchemata', U), ('BinaryCodec', X)], ['the public API'])

p('C28', 'User-defined handlers and codecs are used as documented',
  'A class or function set as UNKNOWN on a schema (or a subclass of Schema) is called for exactly the elements whose IDs the schema lacks, with their stream, offset, size, payload offset, ID and schema; what it returns (masters included) stands in the document in their place, what it raises is raised, and other elements and schemata are unaffected. '
  'A codec given as an instance, or added to BINARY_CODECS and given by name (in the library or to the tools), renders exactly the binary and unknown elements, getting their contents and offsets; XML is decoded, element by element, by the codec its encoding attribute names, and an unregistered name is refused.',
  ['inputs', 'configurations'], 'all documents, all kinds of handlers and codecs',
  'No test installs a handler or codec.',
  [C, U, X], [('Schema.UNKNOWN, MasterElement.parseElement', C), ('toXml, pprint, xmlElement2ebml', U), ('BINARY_CODECS, BinaryCodec', X)], ['Schema.UNKNOWN, BINARY_CODECS, binary_codec'])

p('C29', 'Failures of a source or output are raised and leave everything usable',
  'When reading from the source of a document, or of a schema, or writing to an output fails at any point, the operation under way (iteration, values, lengths, sizes, indexing, dumping, XML, printing, encoding, conversion, loading a schema) raises that failure, or gives the very result it has without it; a failure is never taken for the end of the data, and no partial result is given or remembered. '
  'Afterwards the same documents, elements, iterators that have not failed, schemata and codecs give what they give without the failure; a schema that failed to load is not registered and replaces none; what had been written is the beginning of the complete output. '
  'Only opening a document may disregard a failure to read its header.',
  ['inputs', 'histories', 'fault_sequences'], 'all documents, histories of operations, and points and kinds of failures of streams',
  'The tests use files and buffers that never fail.',
  [C, D, U, X], [('MasterElement.size/__iter__/__len__/value, Element.value, Document', C), ('parseSchema, Schema.__init__', C), ('readElementID, readElementSize', D), ('toXml, xml2ebml, pprint, printSchemata', U), ('encode, decode with stream', X)], ['Schema.load, iteration, value, len, size, dump, encode, toXml, xml2ebml, pprint'])

p('C30', 'Nothing is made up where data has been cut off',
  'Of a document cut at any byte offset, only elements are reported (by iteration, indexing, dump, info or XML) that the complete document has there, with the same ID, name, offset and size, and whose header is entirely present; the values of elements that are entirely present are right. '
  'A float or date of which a part is missing is refused with an exception, also by printing, XML and verification; of integers, text and binary data at most the part that is present is given; raw bytes are exactly those of the file. '
  'A size descriptor of which bytes are missing is refused.',
  ['inputs', 'crash_points'], 'all documents and all cut points',
  'The tests read complete documents only.',
  [C, D], [('readElementSize, readFloat, readDate, readInt, readUInt, readString, readUnicode', D), ('MasterElement.parseElement/__iter__, Document.__init__', C)], ['Schema.load, loads, verify, iteration, value, dump, info'])

p('C31', 'Equivalent forms of data encode to the same bytes',
  'Data given in another form that the library accepts encode to the very bytes of the plain form: booleans, integral floats and subclasses of int for integers, integers for floats, bytes or bytearray for ASCII strings, text (as UTF-8) or bytearray for binary data, None for empty binary data, zero or an empty master, subclasses of dict, list and str, lists or tuples of pairs in place of a dictionary, and tuples in place of lists. '
  'The data given are not changed and nothing is warned of. '
  'A float with a fraction given for an integer is written as its integer part, with a warning; an infinite, NaN or out-of-range one is refused; bytes that are not printable become "?" in an ASCII string; None for a date is the current time in UTC.',
  ['inputs'], 'all data trees over all schemata, all combinations of forms of their values and containers',
  'The tests encode a few plain values; a conversion lost for one type in one position goes unseen.',
  [C, E], [('Element.encode, MasterElement.encodePayload/encode, Document.encode, _inputTypes', C), ('encodeUInt, encodeInt, encodeFloat, encodeBinary, encodeString, encodeDate', E)], ['Schema.encode, Schema.encodes, Element.encode'])

p('C32', 'The bundled schemata define their formats completely and consistently',
  'The schemata that come with the package (Matroska, MIDE recordings, config UI, manifest) load by name and define each of their elements, by ID and by name, with its type, "multiple", "mandatory", length, whether it is global, and the places it may occur, and the document type and versions of their headers. '
  'Any document over them, sized or of unknown sizes, can be read, walked, verified, encoded from its values, and converted to XML and back without loss; the sample recordings are read to their ends.',
  ['inputs', 'configurations'], 'all elements of the bundled schemata, all documents over them',
  'The tests use two of the schemata, and only the elements that occur in two sample recordings.',
  ['ebmlite/schemata/matroska.xml', 'ebmlite/schemata/mide_ide.xml', 'ebmlite/schemata/mide_config_ui.xml', 'ebmlite/schemata/mide_manifest.xml', C, U],
  [('matroska.xml, mide_ide.xml, mide_config_ui.xml, mide_manifest.xml', 'ebmlite/schemata'), ('loadSchema, Schema._parseSchema', C)], ['loadSchema, Schema.load, Schema.encode, toXml, xml2ebml'])

p('C33', 'Huge documents are read exactly and without reading their contents',
  'Elements of any size a size descriptor can state (up to 2**56 - 2 bytes) and offsets beyond 2 and 4 GiB, in sparse files, raw files, streams and thread-aware files, at any start offset and under masters of known and unknown size, are reported with exact IDs, offsets, sizes, payload offsets, counts and document size by iteration, indexing, len, flat iteration, printing, XML and dumps, and the values and raw bytes of small elements behind or inside them are right. '
  'None of that reads the contents of huge elements, nor does comparing a Void or binary element with one of another size or offset.',
  ['inputs', 'histories'], 'all documents with arbitrarily large payloads, all histories of reading operations',
  'The tests read files of at most a few MB; arithmetic that wraps or loses precision, or a read of a whole payload, goes unseen.',
  [C, U, T], [('MasterElement.parseElement/__iter__/__len__/size, Document', C), ('flatiter, pprint, toXml', U), ('ThreadAwareFile.seek', T)], ['Schema.load, iteration, size, len, flatiter, pprint, toXml'])

p('C34', 'Files the library opens are closed, and outputs named are complete or reported',
  'Every file an operation opens itself (a schema, an XML source, an EBML or text output given by name) is closed by the time the operation returns or raises, without being left to the garbage collector; only a document opened by name keeps its file, until it is closed or its with statement ends. '
  'An output given by name (conversion, loadXml, listing of schemata, the command-line tools) then holds on the disk exactly what the same operation writes to a stream, replacing what was there, or the operation reports a failure, also when the device takes no data. '
  'A stream given by the caller is never closed, and is left positioned behind what was written.',
  ['inputs', 'faults'], 'all documents x ways of naming sources and outputs x faults in the XML, the schema, the output path and the device',
  'The tests convert valid files only and never look at what remains open or at a device that refuses data; CPython closes a dropped file silently, losing the error.',
  [U, C, 'ebmlite/tools/utils.py'], [('xml2ebml, loadXml, printSchemata', U), ('loadSchema, Schema, listSchemata, Document', C), ('load_files', 'ebmlite/tools/utils.py')],
  ['/proc/self/fd, ResourceWarning, the files written, exceptions and exit codes'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
print(len(P))
