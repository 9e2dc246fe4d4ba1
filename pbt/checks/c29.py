"""C29: random documents read through a stream whose n-th call fails (once, or a few times in a row) in random histories of
operations, and encoding, conversion and printing to outputs that fail; an operation must raise the very exception or give
what it gives without the fault, and everything must work afterwards; non-trivial = a fault that was hit."""
import io
from xml.etree import ElementTree as ET

from hypothesis import strategies as st

from .. import gen, ref
from ..lib import check_element, check_tree, schema
from ..run import Sub, expect, same
from . import c05
from .c08 import admissible, flagged, streams
from .c11 import check_xml, skip_dates
from .c16 import plain_tree
from ebmlite import core, encoding, util, xml_codecs
from ebmlite.xml_codecs import BINARY_CODECS


class Custom(Exception):
    pass


FAULTS = {
    'EIO': lambda: OSError(5, 'Input/output error'),
    'ESTALE': lambda: OSError(116, 'Stale file handle'),
    'IOError': lambda: IOError('the device is gone'),
    'timeout': lambda: TimeoutError('timed out'),
    'interrupted': lambda: InterruptedError(4, 'Interrupted system call'),
    'blocking': lambda: BlockingIOError(11, 'Resource temporarily unavailable'),
    'connection': lambda: ConnectionResetError(104, 'Connection reset by peer'),
    'type': lambda: TypeError('broken stream'),
    'value': lambda: ValueError('I/O operation on closed file.'),
    'unsupported': lambda: io.UnsupportedOperation('not now'),
    'eof': lambda: EOFError('compressed file ended before the end-of-stream marker was reached'),
    'runtime': lambda: RuntimeError('broken'),
    'memory': lambda: MemoryError(),
    'key': lambda: KeyError('cache'),
    'custom': lambda: Custom(),
    'interrupt': lambda: KeyboardInterrupt(),
}


class Faulty:
    """A source that fails when asked to."""
    def __init__(self, data):
        self._f = io.BytesIO(data)
        self.at, self.times, self.make = None, 0, None
        self.raised = []

    def arm(self, at, times, make):
        self.at, self.times, self.make, self.raised = at, times, make, []

    def disarm(self):
        self.at = None

    def _call(self):
        if self.at is None:
            return
        if self.at > 0:
            self.at -= 1
        elif self.times > 0:
            self.times -= 1
            e = self.make()
            self.raised.append(e)
            raise e

    def read(self, n=-1):
        self._call()
        return self._f.read(n)

    def seek(self, *a):
        self._call()
        return self._f.seek(*a)

    def tell(self):
        self._call()
        return self._f.tell()


def attempt(what, source, fn, ok):
    """Run fn, whose source is armed: it raises what the source raised, or gives the right result."""
    try:
        r = fn()
    except BaseException as e:
        if any(e is x for x in source.raised):
            return True
        if isinstance(e, (AssertionError, KeyboardInterrupt)):
            raise
        # (Exceptions of other types, as long as they tell of the failure.)
        expect(source.raised, what, 'raised', e, 'though nothing failed')
        c, seen = e, []
        while c is not None and len(seen) < 10:
            seen.append(c)
            c = c.__cause__ or c.__context__
        expect(any(c is x for c in seen for x in source.raised), what, 'raised', e, 'for', source.raised)
        return True
    finally:
        source.disarm()
    try:
        ok(r)
    except AssertionError as e:
        expect(not source.raised, what, 'hid the failure', source.raised, ':', e)
        raise
    return False


class World:
    def __init__(self, spec, sch, nodes, data, headers):
        self.spec, self.sch, self.data = spec, sch, data
        self.s = Faulty(data)
        self.doc = sch.load(self.s, headers=headers)
        head = nodes[0] if nodes and nodes[0].name == 'EBML' else None
        self.roots = nodes[1:] if head and not headers else nodes
        self.handles = []
        self.its = []

    def add(self, els, nodes):
        for e, n in zip(els, nodes):
            if len(self.handles) < 60 and not any(h[0] is e for h in self.handles):
                self.handles.append((e, n))

    def operation(self, op, a, b):
        """-> (function of no arguments, check of its result)"""
        el, nodes, n = self.doc, self.roots, None
        hs = self.handles if op in ('value', 'raw', 'rawvalue', 'dump', 'xml', 'print', 'size', 'attrs') else \
            [h for h in self.handles if h[1].kids is not None]
        if hs and (a % 4 or op in ('value', 'raw', 'rawvalue', 'size', 'attrs')):
            el, n = hs[a % len(hs)]
            nodes = n.kids
        if op == 'iter':
            def ok(r):
                check_tree(r, nodes)
                self.add(r, nodes)
            return lambda: list(el), ok
        if op == 'part':
            k = 1 + b % (len(nodes) + 1)

            def part():
                out = []
                for e in el:
                    out.append(e)
                    if len(out) == k:
                        break
                return out

            def ok(r):
                same([(e.id, e.offset) for e in r], [(x.id, x.offset) for x in nodes[:k]], 'elements')
                self.add(r, nodes)
            return part, ok
        if op == 'walk':
            def walk(els, out):
                for e in els:
                    out.append((e.id, e.offset, e.size))
                    if e.dtype is list:
                        walk(e, out)
                return out
            return lambda: walk(el, []), lambda r: same(r, [(x.id, x.offset, x.size) for x in ref.flat(nodes)], 'walk')
        if op == 'flat':
            return (lambda: list(util.flatiter(el)),
                    lambda r: same([(e.id, e.offset) for e in r], [(x.id, x.offset) for x in ref.flat(nodes)], 'flatiter'))
        if op == 'len':
            return lambda: len(el), lambda r: same(r, len(nodes), 'len')
        if op == 'index' and nodes:
            i = b % len(nodes)

            def ok(r):
                check_element(r, nodes[i])
                self.add([r], nodes[i:])
            return lambda: el[i], ok
        if op == 'dump':
            if n is not None and n.kids is None:
                return lambda: el.dump(), lambda r: same(ref.canon(r), ref.canon(n.value()), 'dump')
            return lambda: el.dump(), lambda r: same(plain_tree(r), ref.dump(nodes), 'dump')
        if op == 'value' and n is not None:
            if n.kids is None:
                return lambda: el.value, lambda r: same(ref.canon(r), ref.canon(n.value()), 'value of %r' % n)

            def ok(r):
                check_tree(r, n.kids)
                self.add(r, n.kids)
            return lambda: el.value, ok
        if op == 'raw' and n is not None:
            return lambda: bytes(el.getRaw()), lambda r: same(r, self.data[n.offset:n.end], 'raw bytes')
        if op == 'rawvalue' and n is not None:
            return lambda: bytes(el.getRawValue()), lambda r: same(r, self.data[n.start:n.end], 'raw value')
        if op == 'size' and n is not None:
            return lambda: el.size, lambda r: same(r, n.size, 'size of %r' % n)
        if op == 'attrs' and n is not None:
            return lambda: repr(el), lambda r: None
        if op == 'xml':
            o = dict(ids=True, types=True, offsets=True, sizes=bool(b & 1))
            codec = ['base64', 'hex'][b >> 1 & 1]

            def ok(r):
                if n is not None:
                    check_xml(r, n, o, BINARY_CODECS[codec])
                else:
                    same([x.tag for x in r], [x.name for x in nodes], 'XML')
                    for x, k in zip(r, nodes):
                        check_xml(x, k, o, BINARY_CODECS[codec])
            return lambda: util.toXml(el, sizes=o['sizes'], binary_codec=codec), ok
        if op == 'print':
            def show():
                out = io.StringIO()
                util.pprint(el, out=out, values=bool(b & 1))
                return out.getvalue()

            def ok(r):
                fresh = io.StringIO()
                d = self.sch.load(io.BytesIO(self.data), headers=True)
                e = next((e for e in util.flatiter(d) if n is not None and e.offset == n.offset), None)
                if e is not None:
                    util.pprint(e, out=fresh, values=bool(b & 1))
                    same(r, fresh.getvalue(), 'printed')
            return show, ok
        return None


def reading(case, note):
    lit, trees, headers, ops = case
    spec = ref.Spec(lit)
    data, nodes = ref.write_doc(trees, spec)
    w = World(spec, schema(spec), nodes, data, headers)
    hit = 0
    for op, a, b, fault in ops:
        if op == 'gc':
            for e, n in w.handles[a % 3::3]:
                e.gc(recurse=bool(b & 1))
            continue
        if op == 'iterator':        # (kept, and gone on with after failures of other operations)
            w.its.append((iter(w.doc), w.roots, [0]))
            continue
        if op == 'next':
            if w.its:
                it, ns, pos = w.its[a % len(w.its)]
                e = next(it, None)
                if pos[0] < len(ns):
                    expect(e is not None, 'an iterator ended before', ns[pos[0]])
                    check_element(e, ns[pos[0]])
                    w.add([e], ns[pos[0]:])
                    pos[0] += 1
            continue
        o = w.operation(op, a, b)
        if o is None:
            continue
        fn, ok = o
        if fault is None:
            ok(fn())
            continue
        at, times, kind = fault
        w.s.arm(at, times, FAULTS[kind])
        failed = attempt(op, w.s, fn, ok)
        hit += failed
        note('fault in ' + op, failed)
        note('fault ' + kind, failed)
        if failed and b % 3:
            ok(fn())
    # All is as if nothing had happened
    check_tree(iter(w.doc), w.roots)
    same(len(w.doc), len(w.roots), 'len of the document')
    for e, n in w.handles:
        check_element(e, n)
        if n.kids is not None:
            check_tree(iter(e), n.kids)
            same(len(e), len(n.kids), 'len of %r' % n)
            check_tree(e.value, n.kids)
    note('"infinite" elements', any(n.unk for n in ref.flat(nodes)))
    note.nt(hit > 0)


OPS = ['iter', 'iter', 'iter', 'part', 'walk', 'walk', 'flat', 'len', 'len', 'index', 'dump', 'value', 'value', 'raw', 'rawvalue',
       'size', 'attrs', 'xml', 'print', 'gc', 'iterator', 'next', 'next']
FAULT = st.one_of(st.none(), st.tuples(
    st.one_of(st.integers(0, 6), st.integers(0, 6), st.integers(0, 60)), st.sampled_from([1, 1, 1, 2, 99]),
    st.sampled_from(sorted(FAULTS))))


@st.composite
def documents(draw):
    if draw(st.integers(0, 4)) == 0:
        return draw(streams())
    lit = draw(gen.specs(min_masters=draw(st.integers(0, 3))))
    spec = ref.Spec(lit)
    trees = gen.draw_trees(draw, spec, max_nodes=14, skip=('EBML',), text=gen.XUNI)
    if draw(st.booleans()):
        trees = flagged(draw, trees, draw(st.sampled_from([6, 9])))
    if 'EBML' in spec.els and draw(st.booleans()):
        trees = [gen.header_tree(draw, spec)] + trees
    return lit, admissible(trees, spec)


@st.composite
def readings(draw):
    lit, trees = draw(documents())
    ops = draw(st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 40), st.integers(0, 20), FAULT), min_size=1, max_size=14))
    return (lit, trees, draw(st.booleans()), ops)


# ---------------------------------------------------------------- outputs

class Sink:
    """An output of which the n-th call fails."""
    def __init__(self, at, make, text, method):
        self.at, self.make, self.method = at, make, method
        self.out = []
        self.raised = []
        self.zero = '' if text else b''

    def _call(self, method):
        if method == self.method:
            if self.at == 0:
                e = self.make()
                self.raised.append(e)
                raise e
            self.at -= 1

    def write(self, b):
        self._call('write')
        if not isinstance(b, type(self.zero)) and not (isinstance(b, bytearray) and self.zero == b''):
            raise TypeError('wrong type')
        self.out.append(b if isinstance(b, str) else bytes(b))
        return len(b)

    def flush(self):
        self._call('flush')

    def disarm(self):
        self.at = -1

    def all(self):
        return self.zero.join(self.out)


def writing(case, note):
    lit, trees, data, what, at, kind, flush, k = case
    spec = ref.Spec(lit)
    sch = schema(spec)
    raw, nodes = ref.write_doc(trees, spec)
    skip_dates(nodes)
    text = what in ('print', 'codec', 'schemata')
    live = c05.live(spec, None, data)
    doc = sch.load(io.BytesIO(raw), headers=True)
    xml = util.toXml(doc) if what == 'xml2ebml' else None

    def run(out):
        if what == 'encode':
            sch.encode(out, live, headers=bool(k & 1))
        elif what == 'document':
            sch.document.encode(out, live, headers=bool(k & 1))
        elif what == 'xml2ebml':
            return util.xml2ebml([xml, ET.ElementTree(xml), io.BytesIO(ET.tostring(xml, encoding='utf-8'))][k % 3], out, sch)
        elif what == 'print':
            util.pprint(doc, out=out, binary_codec=['ignore', 'hex', 'base64'][k % 3])
        elif what == 'schemata':
            util.printSchemata(out=out)
        elif what == 'codec':
            c = BINARY_CODECS[['hex', 'base64'][k & 1]](cols=[8, 0, 32, 76][k % 4])
            return c.encode(raw, stream=out, offset=3, indent=' ')
        elif what == 'decode':
            return BINARY_CODECS[['hex', 'base64'][k & 1]].decode(BINARY_CODECS[['hex', 'base64'][k & 1]]().encode(raw), out)
    good = Sink(-1, None, text, 'write')
    run(good)
    sink = Sink(at, FAULTS[kind], text, 'flush' if flush else 'write')
    failed = attempt(what, sink, lambda: run(sink), lambda r: same(sink.all(), good.all(), 'output of ' + what))
    if failed:
        expect(sink.raised, what, 'failed')
        expect(good.all().startswith(sink.all()), what, 'wrote', sink.all(), 'before it failed, but', good.all(), 'if it does not')
    else:
        # (An output, unlike a cached source, cannot do without what it failed to write or flush.)
        expect(not sink.raised, what, 'hid the failure', sink.raised)
    again = Sink(-1, None, text, 'write')
    run(again)
    same(again.all(), good.all(), 'output of %s after a failure' % what)
    note(what, failed)
    note.nt(failed)


@st.composite
def writings(draw):
    lit = draw(gen.specs())
    spec = ref.Spec(lit)
    trees = gen.draw_trees(draw, spec, max_nodes=10, skip=('EBML',), text=gen.XUNI)
    data = c05.repair(spec, None, c05.draw_contents(draw, spec, None, 0, gen._Budget(10), root=True))
    return (lit, trees, data, draw(st.sampled_from(['encode', 'encode', 'document', 'xml2ebml', 'xml2ebml', 'print', 'print',
                                                    'codec', 'decode', 'schemata'])),
            draw(st.one_of(st.integers(0, 3), st.integers(0, 30))), draw(st.sampled_from(sorted(FAULTS))),
            draw(st.integers(0, 5)) == 0, draw(st.integers(0, 11)))


# ---------------------------------------------------------------- schemata

class Text:
    """The source of a schema, of which the n-th read fails."""
    def __init__(self, text, at, make, chunk):
        self.f, self.at, self.make, self.chunk, self.raised = io.StringIO(text), at, make, chunk, []

    def disarm(self):
        self.at = -1

    def read(self, n=-1):
        if self.at == 0:
            e = self.make()
            self.raised.append(e)
            raise e
        self.at -= 1
        return self.f.read(self.chunk)


def sources(case, note):
    """A schema whose source fails is not loaded, nor half-loaded."""
    lit, at, kind, chunk, how, k = case
    spec = ref.Spec(lit)
    xml = spec.xml()
    t = Text(xml, at, FAULTS[kind], chunk)
    name = 'pbt-c29'
    before = dict(core.SCHEMATA)

    class Source(io.TextIOBase):
        def read(self, n=-1):
            return t.read(n)

    def ok(r):
        same(set(r.elements), set(spec.by_id), 'elements')
    try:
        if how == 'Schema':
            failed = attempt('Schema', t, lambda: core.Schema(t, name=name), ok)
        else:
            if k & 1:
                first = core.parseSchema('<Schema/>', name=name)
            failed = attempt('parseSchema', t, lambda: core.parseSchema(Source(), name=name, reload=bool(k & 1)), ok)
            if failed and k & 1:
                expect(core.parseSchema(xml, name=name) is first, 'a schema that could not be replaced is gone')
            elif failed:
                expect(name not in core.SCHEMATA, 'a schema that failed to load is registered')
            ok(core.parseSchema(xml, name=name, reload=True))
            ok(core.parseSchema('<nonsense', name=name))
        if failed and how == 'Schema':
            same(core.SCHEMATA, before, 'SCHEMATA')
    finally:
        core.SCHEMATA.pop(name, None)
    note(how, failed)
    note.nt(failed)


SUBS = [
    Sub('reading', reading, readings(), quick=3000, thorough=80000, shards=6,
        rule='random documents and histories, with faults of the source at random calls'),
    Sub('writing', writing, writings(), quick=1200, thorough=30000, shards=4, rule='outputs that fail at a random call'),
    Sub('schemata', sources, st.tuples(gen.specs(), st.integers(0, 6), st.sampled_from(sorted(FAULTS)), st.sampled_from(
        [20, 100, 1000, 100000]), st.sampled_from(['Schema', 'parseSchema']), st.integers(0, 3)),
        quick=400, thorough=8000, shards=2, rule='schema sources that fail at a random read'),
]
ASSUMPTIONS = ['opening a document may disregard failures (documented: they are raised when it is used)',
               'TypeErrors of a source mentioning ord() are not generated: they are how the end of the file shows']
