NOTES['C01'] = ('Hypothesis PBT + edge enumeration vs reference codec',
  'Enumerates all first bytes and every size within 3 of a power of two at all widths; random search elsewhere. Trusts pbt/ref.py; 0x00 size bytes excluded.')
NOTES['C02'] = ('Hypothesis PBT + edge enumeration vs two\'s complement reference',
  'Enumerates values within 2 of every +-2^k at all lengths and patterned payloads; random search elsewhere. Lengths 1..8.')
NOTES['C03'] = ('Hypothesis PBT vs IEEE/nanosecond reference codec',
  'Random search over bit patterns and dates with edges; NaN payload bits not compared.')
NOTES['C04'] = ('Hypothesis PBT + code point enumeration vs reference codec',
  'Random text and bytes; all code points below U+0300. Known finding K2 (cut inside a character) excluded by construction and counted.')
NOTES['C05'] = ('Hypothesis PBT, byte equality with a reference EBML writer',
  'Random schemata, value trees and arguments. Known finding K1 (explicit length of a master) excluded by construction.')
NOTES['C06'] = ('Hypothesis PBT vs documents of a reference writer',
  'Random schemata, documents, sources; enumerated descriptor-width edges. Payloads up to 2 MB, depth up to 60.')
NOTES['C07'] = ('Hypothesis PBT, round-trip and single-edit relation',
  'Random schemata and conforming data trees; Void and unknown elements carry no data.')
NOTES['C08'] = ('Hypothesis PBT vs reference layout and sized twin document',
  'Random documents and subsets of unknown-size masters satisfying the stated condition.')
NOTES['C09'] = ('Hypothesis PBT of operation histories vs a fresh load',
  'Random operation sequences (iterators, indexing, values, gc, dump, raw, equality, outside seeks) over random documents and sources.')
NOTES['C10'] = ('Hypothesis PBT / fault injection on reference documents, plus raw byte fuzzing',
  'Every cut point of small documents, random overwrites and inserts, arbitrary bytes; oracle = layout of the intact document.')
NOTES['C11'] = ('Hypothesis PBT, EBML-XML-EBML round-trip',
  'Random schemata, documents and conversion options; text XML 1.0 can carry.')
NOTES['C12'] = ('Hypothesis PBT on XML trees vs reference reader',
  'Random edited XML trees; the expected refusal reasons are computed by a model; masters too wide for a requested width may be refused.')
NOTES['C13'] = ('Hypothesis PBT, encode/decode round-trip and line layout model',
  'Random bytes and options; whitespace indentation only.')
NOTES['C14'] = ('Hypothesis PBT: schema model rendered to XML, compared through lookup, encoding and parsing',
  'Random schema models, renderings (order, redeclarations by name/ID), sources; one injected fault per faulty schema.')
NOTES['C15'] = ('Hypothesis PBT of load histories vs a model of search path and cache',
  'Random scratch directories, modules and histories of loads, reloads, failures and listings; one search path per history.')
NOTES['C16'] = ('Hypothesis PBT of operation histories vs reference documents',
  'Random documents, sources, start offsets, index probes, header choices and ways to close.')
NOTES['C17'] = ('Hypothesis PBT of raw read histories vs slices of the source',
  'Random documents with definite and unknown sizes; enumerated payload sizes up to 1 MB.')
NOTES['C18'] = ('Hypothesis PBT of operation histories and schedules of real threads vs private files',
  'Operations serialised one at a time, and harness-chosen switches between lines or bytecodes of the library; native code is not interrupted.')
NOTES['C19'] = ('Hypothesis PBT + enumeration vs the four class ranges and a brute-force model of free IDs',
  'validateID: all integers below 36864 and around every limit, random beyond; createID: random schemata, bounds and exclusions.')
NOTES['C20'] = ('Hypothesis PBT vs reference order and a line-by-line reader of the printed text',
  'Random documents, starts, depth limits, interleaved reads; whitespace indents are excluded where they would be ambiguous.')
NOTES['C21'] = ('Hypothesis PBT of command lines (in process and as real processes) with a watched scratch directory',
  'Random documents, options, spellings and states of the output; POSIX, UTF-8 output; unknown elements need -m.')
NOTES['C22'] = ('Hypothesis PBT / fault injection vs reference documents, in histories of calls',
  'One fault per document, at random depth and place; unknown-size masters included.')
NOTES['C23'] = ('Hypothesis PBT / fault injection in value trees, with later encodings vs a reference writer',
  'One fault per data tree; wrong-typed values from a fixed list of clear mismatches.')
NOTES['C24'] = ('Hypothesis PBT: all pairs of elements of two random documents vs a model of equality',
  'Random documents and edits, equal and different schemata, random states of caching.')
NOTES['C25'] = ('Hypothesis PBT: schema model rendered as legacy table and natively, differential',
  'Random models, renderings and sources; sized documents only; one injected fault per faulty table.')
NOTES['C26'] = ('Hypothesis PBT: histories on a byte-recording stream vs a model of what each operation may read',
  'Random documents and histories; up to 16 bytes of read-ahead are allowed; effort bounded by 40 stream operations per element and level.')
NOTES['C27'] = ('Hypothesis PBT: interleavings over variant schemata, single- and multi-threaded (controlled schedules), vs reference models',
  'Two to four related schemata; threads switched at random lines or bytecodes of the library; documents not shared by threads.')
NOTES['C28'] = ('Hypothesis PBT with recording handlers and codecs vs a model of the calls they get',
  'Random documents; four kinds of callables, three codecs; handlers with the signature of UnknownElement.')
NOTES['C29'] = ('Hypothesis PBT with fault injection: the n-th call of a source or output fails, in histories of operations',
  'Random documents, histories and points of failure; 16 kinds of exceptions; opening may disregard failures.')
NOTES['C30'] = ('Hypothesis PBT + enumeration of cut points vs the reference document',
  'Random documents; cuts near element edges, and every cut of documents up to 120 bytes.')
NOTES['C31'] = ('Hypothesis PBT, metamorphic: data in equivalent forms vs the plain form and a reference writer',
  'Random data trees and a fixed list of forms per type; forms the library refuses are not asked for.')
NOTES['C32'] = ('Enumeration of a frozen table of the bundled schemata + Hypothesis PBT of documents over them vs the reference model',
  'The table was taken from the schemata after repair; additions are allowed, losses and changes are not.')
NOTES['C33'] = ('Hypothesis PBT: histories over sparse documents with holes for payloads vs an independent layout',
  'Payloads up to 2**55 bytes in streams, up to 2**35 in (sparse) files; a limit on bytes read per call and in all.')
NOTES['C34'] = ('Hypothesis PBT with fault injection: operations by name vs the same on streams, open descriptors and unclosed-file warnings',
  'Descriptors of this process, /dev/full as the device that takes no data; ResourceWarning as the sign of a file left to the collector.')
