"""C17: raw bytes of every element of random documents (unknown sizes included), read in random order among other reads,
against the slices of the source; tiling and re-loading of slices; non-trivial = a nested element, a non-minimal or unknown
size, or a read of raw bytes between two reads of a value."""
import io

from hypothesis import strategies as st

from .. import gen, ref, scale
from ..lib import MasterElement, check_element, content, schema
from ..run import Sub, expect, same
from .c06 import Opened, SOURCES, visible
from .c08 import admissible, flagged, streams


def everything(els, nodes, out):
    els = list(els)
    same([e.id for e in els], [n.id for n in nodes], 'IDs')
    for e, n in zip(els, nodes):
        out.append((e, n))
        if n.kids is not None:
            everything(e.value, n.kids, out)
    return out


def slices(e, n, data, base=0):
    raw = e.getRaw()
    expect(isinstance(raw, (bytes, bytearray)), 'getRaw gave', type(raw))
    same(bytes(raw), data[n.offset - base:n.end - base], 'raw bytes of %r' % n)
    rawv = e.getRawValue()
    same(bytes(rawv), data[n.start - base:n.end - base], 'raw value of %r' % n)
    same((e.offset, e.payloadOffset, e.size), (n.offset, n.start, n.end - n.start), 'offset, payloadOffset, size of %r' % n)
    same(len(raw), (e.payloadOffset - e.offset) + e.size, 'length of the raw bytes of %r' % n)
    return bytes(raw), bytes(rawv)


def fresh(doc, nodes, data, base=0):
    """Raw bytes as the first thing read of each root element, and of each child."""
    for e, n in zip(doc, nodes):
        if n.offset % 2:
            same(bytes(e.getRawValue()), data[n.start - base:n.end - base], 'raw value of the new %r' % n)
        slices(e, n, data, base)
        for c, m in zip(e if n.kids is not None else (), n.kids or ()):
            slices(c, m, data, base)


def tiles(els, what, whole):
    same(b''.join(bytes(e.getRaw()) for e in els), whole, what)


def check(case, note):
    (lit, trees), source, ops, prefix = case
    spec = ref.Spec(lit)
    sch = schema(spec)
    data = ref.write_doc(trees, spec)[0]
    base = 0
    if source == 'offset':
        base = len(prefix)
        _, nodes = ref.write_doc(trees, spec, base)
        f = io.BytesIO(prefix + data)
        f.seek(base)
        doc = sch.load(f, headers=True)
        fresh(doc, nodes, data, base)
        examine(doc, nodes, data, base, sch, spec, ops, note)
    else:
        _, nodes = ref.write_doc(trees, spec)
        o = Opened(sch, data, source)
        with o as doc:
            whole = data
            if visible(nodes, o.shows_header) is not nodes:
                nodes = visible(nodes, o.shows_header)
                whole = data[nodes[0].offset:] if nodes else b''
            if source in ('stream', 'tempfile', 'unbuffered', 'threaded', 'loads', 'bytesio', 'path', 'pathlib', 'file', 'document', 'call'):
                same(bytes(doc.getRaw()), data, 'raw bytes of the document')
                same(bytes(doc.getRawValue()), whole, 'raw value of the document')
            fresh(doc, nodes, data)
            tiles(doc, 'root elements', whole)
            examine(doc, nodes, data, 0, sch, spec, ops, note)
    note('source ' + source)
    d = gen.depth(trees)
    note('depth >= 3' if d > 2 else 'depth < 3')
    note.nt(d > 1 or any(n.unk or n.start - n.offset - len(ref.id_bytes(n.id)) > ref.size_width(n.size)
                         for n in ref.flat(nodes)))


def examine(doc, nodes, data, base, sch, spec, ops, note):
    els = everything(doc, nodes, [])
    if not els:
        return
    want = [ref.value_tree([n])[0] for _, n in els]
    its = []
    for op, i in ops:
        j = i % len(els)
        e, n = els[j]
        if op == 'raw':
            slices(e, n, data, base)
        elif op == 'value':
            same(content([e]), [want[j]], 'value of %r' % n)
        elif op == 'gc':
            e.gc(recurse=bool(i % 3))
        elif op == 'edit' and isinstance(e.value, bytearray):
            # what a reader does to a value is no matter of the source
            e.value.extend(b'edited')
            e.value[0] ^= 0xFF
            slices(e, n, data, base)
            e.gc()
        elif op == 'tiles' and n.kids is not None:
            tiles(e, 'children of %r' % n, bytes(e.getRawValue()))
        elif op == 'reload':
            raw = bytes(e.getRaw())
            again = list(sch.load(io.BytesIO(raw), headers=True))
            same(content(again), [want[j]], 'content of the reloaded bytes of %r' % n)
            same(bytes(again[0].getRaw()), raw, 'raw bytes of the reloaded %r' % n)
            note('reloaded')
        elif op == 'explicit':
            # the element made by hand, from where it is
            kw = dict(eid=e.id, schema=sch) if n.t == 'unknown' else {}
            size = None if n.unk and i % 2 else e.size
            if i % 3:
                by = type(e)(doc.stream, e.offset, size, e.payloadOffset, **kw)
            else:
                by = type(e)(stream=doc.stream, offset=e.offset, size=size, payloadOffset=e.payloadOffset, **kw)
            slices(by, n, data, base)
            expect(by == e and e == by, 'made by hand and not equal', by, e)
            same(content([by]), [want[j]], 'content of the %r made by hand' % n)
            # ... and read from there
            doc.stream.seek(n.offset)
            parent = doc if i % 2 else next(m for m, _ in els + [(doc, 0)] if isinstance(m, MasterElement))
            by, end = parent.parseElement(doc.stream, i % 5 > 2) if i % 7 else parent.parseElement(doc.stream)
            same(end, n.end, 'end of the parsed %r' % n)
            expect(type(by) is type(e) and by == e, 'parsed directly and not equal', by, e)
            check_element(by, n)
            note('by hand')
        elif op == 'iterate' and n.kids is not None:
            its.append((iter(e), n, 0))
        elif op == 'step' and its:
            it, m, k = its.pop(i % len(its))
            c = next(it, None)
            if c is None:
                same(k, len(m.kids), 'number of children of %r' % m)
            else:
                check_element(c, m.kids[k])
                slices(c, m.kids[k], data, base)
                its.append((it, m, k + 1))
        elif op == 'seek':
            doc.stream.seek(i % (len(data) + base + 1))
    for j, (e, n) in enumerate(els):
        if j % 2:
            slices(e, n, data, base)
        check_element(e, n)
        slices(e, n, data, base)
        if isinstance(e, MasterElement):
            tiles(e, 'children of %r' % n, data[n.start - base:n.end - base])
        same(content([e]), [want[j]], 'value of %r after raw reads' % n)


def big(case, note):
    size, width, source = case
    note.nt()
    lit = dict(els=[dict(name='M', id=0x81, t='master'), dict(name='B', id=0x82, t='bin'), dict(name='S', id=0x83, t='uni'),
                    dict(name='P', id=0x84, t='bin', precache=True)], kids={None: ['M'], 'M': ['B', 'S', 'P']})
    spec = ref.Spec(lit)
    kids = [('l', 0x82, bytes(i % 253 for i in range(size)), width), ('l', 0x83, b'text' * (size // 4), None),
            ('l', 0x4090, b'\xee' * size, width), ('l', 0x84, b'\x01\x02' * (size // 2), None)]
    check(((lit, [('m', 0x81, kids, None, False)] + kids), source, [('raw', 0), ('reload', 0)], b'?'), note)


OPS = st.lists(st.tuples(st.sampled_from(['raw', 'raw', 'value', 'gc', 'edit', 'tiles', 'reload', 'explicit', 'iterate', 'step', 'step', 'seek']),
                         st.integers(0, 60)), max_size=14)


@st.composite
def unk_docs(draw):
    lit, trees = draw(gen.docs(spec_kw=dict(min_masters=2, header=False)))
    return lit, admissible(flagged(draw, trees, 6), ref.Spec(lit))


PRE = st.binary(min_size=1, max_size=30)
SRC = st.sampled_from(SOURCES + ['bytesio', 'loads', 'stream', 'offset', 'offset'])
SUBS = [
    Sub('documents', check, st.tuples(gen.docs(max_nodes=30), SRC, OPS, PRE), quick=1800, thorough=40000, shards=5,
        rule='random documents, sources and read histories'),
    Sub('unknown-sizes', check, st.tuples(st.one_of(streams(), unk_docs()), SRC, OPS, PRE), quick=800, thorough=20000,
        shards=2, rule='documents with unknown-size masters'),
    Sub('sizes', big, cases=lambda: [(n, w, s) for n in (126, 127, 128, 255, 256, 4096, 8192, 16383, 16384, 65535, 65536,
                                                         70001, 1 << 20) for w in (None, 8)
                                     for s in ('path', 'bytesio', 'unbuffered') if w is None or n < 65536], shards=2,
        rule='enumerated payload sizes'),
    Sub('deep', check, st.tuples(gen.deep_docs(25), SRC, OPS, PRE), quick=150, thorough=3000, shards=1,
        rule='chains of nested masters'),
    scale.sub(scale.raw, scale.SHAPES),
]
ASSUMPTIONS = ['a slice of a header element is re-loaded with headers shown']
