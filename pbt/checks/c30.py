"""C30: random documents cut at a random (or every) byte offset, in files, in memory and in a stream: what is reported is
compared with the uncut document; elements whose headers are not whole must not appear, cut floats and dates must be refused,
cut integers, text and bytes be what is there; non-trivial = a cut inside of the header or the contents of an element."""
import io

from hypothesis import strategies as st

from .. import gen, ref, scale
from ..lib import check_element, schema
from ..run import Sub, expect, same
from .c06 import Opened
from .c08 import documents, streams
from .c11 import check_xml
from ebmlite import decoding, util
from ebmlite.xml_codecs import BINARY_CODECS

NUMBERS = ('float', 'date')


def attempt(fn):
    """-> (result, exception)"""
    try:
        return fn(), None
    except Exception as e:
        return None, e


def compare(el, n, c):
    """el is reported for the node n of the uncut document; c: where it is cut."""
    expect(n.start <= c, 'an element is reported of whose header a part is missing:', el, 'cut at', c)
    if n.unk:
        same((el.id, el.offset, el.payloadOffset), (n.id, n.offset, n.start), 'element for %r' % n)
    else:
        check_element(el, n, values=False)
    if n.kids is not None:
        return
    if n.end <= c:
        same(ref.canon(el.value), ref.canon(n.value()), 'value of %r' % n)
        return
    value(n, c, *attempt(lambda: el.value))


def value(n, c, v, e, what='value'):
    """What is read of a cut element"""
    if n.t == 'void':
        return
    there = n.payload[:max(0, c - n.start)]
    if n.t in NUMBERS:
        expect(e is not None, what, 'of', n, 'cut at', c, 'is made up:', v)
    elif e is None:
        try:
            want = ref.decode(n.t, there)
        except UnicodeDecodeError:
            want = None
        expect(want is None or ref.canon(v) == ref.canon(want), what, 'of', n, 'cut at', c, 'is', v, 'though', there, 'is there')
        if want is None:
            # malformed, because cut inside a character
            expect(n.value().startswith(v) or v.rstrip('\ufffd') and n.value().startswith(v.rstrip('\ufffd')) or
                   not v.rstrip('\ufffd'), what, 'of', n, 'cut at', c, 'is', v)


def crawl(el, by_offset, c, seen):
    """Iterate as far as it goes."""
    it = iter(el)
    last = -1
    while True:
        e, err = attempt(lambda: next(it, None))
        if err is not None or e is None:
            return
        expect(e.offset > last, 'iteration does not go on', e.offset)
        last = e.offset
        n = by_offset.get(e.offset)
        expect(n is not None, 'an element is reported where there is none:', e)
        seen.append(e)
        compare(e, n, c)
        if n.kids is not None:
            crawl(e, by_offset, c, seen)


def inspect(sch, spec, data, nodes, c, source, note):
    by_offset = {n.offset: n for n in ref.flat(nodes)}
    bad = data[:c]
    with Opened(sch, bad, source) as doc:
        head = nodes[0] if nodes and nodes[0].name == 'EBML' else None
        if head is not None and doc.info:
            facts(doc.info, head.kids, c, 'info')
        seen = []
        crawl(doc, by_offset, c, seen)
        # the same, once more
        again = []
        crawl(doc, by_offset, c, again)
        same([(e.id, e.offset, e.size) for e in again], [(e.id, e.offset, e.size) for e in seen], 'iterated again')
        # other ways to see them
        for k in range(len(nodes) + 1):
            e, err = attempt(lambda: doc[k])
            if err is None:
                compare(e, by_offset.get(e.offset, e), c)
        for e in seen:
            n = by_offset[e.offset]
            v, err = attempt(lambda: e.getRaw())
            if err is None and not n.unk:
                same(bytes(v), bad[n.offset:n.end], 'raw bytes of %r' % n)
            v, err = attempt(lambda: e.getRawValue())
            if err is None and not n.unk:
                same(bytes(v), bad[n.start:n.end], 'raw value of %r' % n)
        for e in [doc] + seen:
            n = by_offset.get(e.offset) if e is not doc else None
            v, err = attempt(lambda: e.dump())
            if err is None:
                if n is not None and n.kids is None:
                    compare(e, n, c)
                else:
                    facts(v, n.kids if n is not None else nodes, c, 'dump')
    note.nt(any(n.offset < c < n.end for n in ref.flat(nodes) if n.kids is None))
    note('inside a float or date', any(n.start < c < n.end and n.t in NUMBERS for n in ref.flat(nodes)))
    note('inside a header', any(n.offset < c < n.start for n in ref.flat(nodes)))


def facts(d, nodes, c, what):
    """A dictionary of the values of nodes (as given by dump() or info)."""
    names = {}
    for n in nodes:
        names.setdefault(n.name, []).append(n)
    for name, v in d.items():
        ns = names.get(name)
        expect(ns, what, 'has', name, '=', v)
        vs = v if ns[0].multiple else [v]
        if ns[0].multiple:
            expect(isinstance(v, list) and len(vs) <= len(ns), what, 'has', len(vs), 'of', len(ns), name)
        else:
            # the last one that can be seen
            ns = [n for n in ns if n.start <= c][-1:]
            expect(ns, what, 'has', name, '=', v, 'of which the header is missing')
        for x, n in zip(vs, ns):
            expect(n.start <= c, what, 'has', name, '=', x, 'of which the header is missing')
            if n.kids is not None:
                facts(x, n.kids, c, what)
            elif n.end <= c:
                same(ref.canon(x), ref.canon(n.value()), '%s of %r' % (what, n))
            else:
                value(n, c, x, None, what)


def check(case, note):
    (lit, trees), where, source = case
    spec = ref.Spec(lit)
    sch = schema(spec)
    data, nodes = ref.write_doc(trees, spec)
    flat = list(ref.flat(nodes))
    for pick, edge, d in where:
        c = 0
        if flat:
            n = flat[pick % len(flat)]
            c = max(0, min(len(data), (n.offset, n.start, n.end, (n.start + n.end) // 2)[edge] + d))
        if c < len(data):
            inspect(sch, spec, data, nodes, c, source, note)
            note('source ' + source)


def all_cuts(case, note):
    lit, trees = case
    spec = ref.Spec(lit)
    sch = schema(spec)
    data, nodes = ref.write_doc(trees, spec)
    step = 1 if len(data) <= 120 else len(data) // 60
    for c in range(0, len(data), step):
        inspect(sch, spec, data, nodes, c, 'loads' if not (nodes and nodes[0].name == 'EBML') else 'bytesio', note)


def converting(case, note):
    """XML, printing and verification of a cut document: refused, or of what is there."""
    (lit, trees), pick, edge, d, codec = case
    spec = ref.Spec(lit)
    sch = schema(spec)
    data, nodes = ref.write_doc(trees, spec)
    flat = list(ref.flat(nodes))
    if not flat:
        return
    n = flat[pick % len(flat)]
    c = max(0, min(len(data) - 1, (n.offset, n.start, n.end, (n.start + n.end) // 2)[edge] + d))
    cut = [k for k in flat if k.kids is None and k.start <= c < k.end]
    doc = sch.load(io.BytesIO(data[:c]), headers=True)
    x, err = attempt(lambda: util.toXml(doc, binary_codec=codec))
    bad = [k for k in cut if k.t in NUMBERS]
    if err is None:
        expect(not bad, 'XML of a document in which', bad, 'is cut at', c)
        offsets = {k.offset: k for k in flat}
        o = dict(ids=True, types=True, offsets=True, sizes=True)
        for e in list(x.iter())[1:]:
            k = offsets.get(int(e.get('offset')))
            expect(k is not None and k.start <= c, 'XML has an element that is not there', e.attrib)
            if k.kids is None and k.end <= c:
                check_xml(e, k, o, BINARY_CODECS[codec])
            elif k.kids is None and k.t in ('bin', 'unknown'):
                same(bytes(BINARY_CODECS[codec].decode(e.text)), k.payload[:c - k.start], 'XML of %r cut at %d' % (k, c))
    out = io.StringIO()
    _, err = attempt(lambda: util.pprint(doc, out=out))
    expect(err is not None or not bad, 'a document in which', bad, 'is cut at', c, 'was printed')
    r, err = attempt(lambda: sch.verify(data[:c]))
    expect(err is not None or not bad, 'a document in which', bad, 'is cut at', c, 'was verified')
    inside = [k for k in cut if k.start < c]
    note('inside the contents', bool(inside))
    note.nt(inside)


# ---------------------------------------------------------------- readers

READ = dict(uint=decoding.readUInt, int=decoding.readInt, float=decoding.readFloat, date=decoding.readDate,
            str=decoding.readString, uni=decoding.readUnicode)


def readers(case, note):
    """The decoders, of which the source ends early."""
    t, payload, tail, c = case
    n = ref.Node()
    n.t, n.payload, n.start, n.end, n.offset, n.id, n.name = t, payload, 0, len(payload), 0, 0x81, t
    c %= len(payload) + 1
    f = io.BytesIO(payload[:c])
    v, e = attempt(lambda: READ[t](f, len(payload)))
    if c < len(payload):
        value(n, c, v, e)
    else:
        expect(e is None, 'reading', payload, 'raised', e)
        same(ref.canon(v), ref.canon(n.value()), 'value')
    note(t)
    note.nt(0 <= c < len(payload))


def descriptors(case, note):
    """Sizes, of which the source ends early."""
    v, w, c = case
    d = ref.size_bytes(v, w) if v is not None else ref.unknown_bytes(w)
    c %= len(d) + 1
    r, e = attempt(lambda: decoding.readElementSize(io.BytesIO(d[:c])))
    if c < len(d):
        expect(e is not None, 'size', d[:c], 'of which', len(d) - c, 'bytes are missing is read as', r)
    else:
        same(r, (v, w), 'size')
    note.nt(0 < c < len(d))


DOCS = st.one_of(gen.docs(max_nodes=16), gen.docs(max_nodes=16), documents(), streams(), documents(header=True))
WHERE = st.lists(st.tuples(st.integers(0, 50), st.integers(0, 3), st.integers(-3, 3)), min_size=1, max_size=4)
SRC = st.sampled_from(['bytesio', 'bytesio', 'stream', 'stream', 'path', 'file', 'threaded'])
SIZES = st.one_of(st.tuples(gen.SIZES, st.integers(1, 8)).map(lambda x: (x[0], max(x[1], ref.size_width(x[0])))),
                  st.tuples(st.none(), st.integers(1, 8)))
PAYLOADS = st.one_of(
    *[st.tuples(st.just(t), st.binary(min_size=1, max_size=8)) for t in ('uint', 'int')],
    st.tuples(st.just('float'), st.one_of(st.binary(min_size=4, max_size=4), st.binary(min_size=8, max_size=8))),
    st.tuples(st.just('date'), st.integers(-2**62, 2**62).map(lambda v: v.to_bytes(8, 'big', signed=True))),
    st.tuples(st.just('str'), st.binary(min_size=1, max_size=20)),
    st.tuples(st.just('uni'), gen.UNI.map(lambda s: s.encode('utf-8') or b'a')))
SUBS = [
    Sub('cut', check, st.tuples(DOCS, WHERE, SRC), quick=1600, thorough=40000, shards=4, rule='cuts near element edges'),
    Sub('every-cut', all_cuts, DOCS, quick=200, thorough=6000, shards=4, rule='every cut of small documents, 60 of larger ones'),
    Sub('converting', converting, st.tuples(gen.docs(max_nodes=12, text=gen.XUNI), st.integers(0, 50), st.integers(0, 3),
                                            st.integers(-3, 3), st.sampled_from(['hex', 'base64'])),
        quick=1500, thorough=30000, shards=3, rule='XML, text and verification of cut documents'),
    Sub('readers', readers, st.tuples(PAYLOADS, st.binary(max_size=3), st.integers(0, 100)).map(
        lambda x: (x[0][0], x[0][1], x[1], x[2])), quick=2000, thorough=30000, shards=2, rule='cut payloads'),
    Sub('descriptors', descriptors, st.tuples(SIZES, st.integers(0, 8)).map(lambda x: x[0] + (x[1],)),
        quick=1000, thorough=10000, shards=1, rule='cut sizes'),
    scale.sub(scale.cut, [(s, b) for s in scale.SMALL for b in (0, 1, 2, 30)]),
]
ASSUMPTIONS = ['of cut integers, text and binary elements the part that is there may be given']
