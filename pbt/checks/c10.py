"""C10: random documents cut, extended or overwritten from an offset on and crawled depth-first: everything whose header
lies before the offset must be reported in order; plus arbitrary bytes, which must be iterated in finitely many reads at
increasing offsets; non-trivial = at least one intact element and one that is damaged (or, for arbitrary bytes, at least
one element yielded)."""
import io

from hypothesis import strategies as st

from .. import gen, ref, scale
from ..lib import MasterElement, check_element, schema
from ..run import DoesNotTerminate, Sub, expect, same
from .c06 import Opened, SOURCES
from .c08 import documents, streams


class Counting:
    """A stream that gives up after a number of reads far above what a step may need."""
    def __init__(self, data):
        self._f, self.n = io.BytesIO(data), len(data)
        self.reset()

    def reset(self):
        self.left = 2000 + 60 * self.n

    def read(self, *a):
        self.left -= 1
        if self.left < 0:
            raise DoesNotTerminate('more than %d reads in one step over %d bytes' % (2000 + 60 * self.n, self.n))
        return self._f.read(*a)

    def seek(self, *a):
        return self._f.seek(*a)

    def tell(self):
        return self._f.tell()


def crawl(doc, stream, limit):
    """Elements depth-first by iteration, then None (regular end) or the exception."""
    stack, seen = [(iter(doc), -1)], 0
    while stack and seen < limit:
        it, prev = stack.pop()
        if isinstance(stream, Counting):
            stream.reset()
        try:
            el = next(it)
        except StopIteration:
            continue
        except Exception as e:
            yield e
            return
        seen += 1
        expect(el.offset > prev, 'iteration yields an element at', el.offset, 'after one at', prev)
        stack.append((it, el.offset))
        yield el
        if isinstance(el, MasterElement):
            stack.append((iter(el), el.offset))
    yield None


def intact(n, c, nxt):
    """Is element n unaffected by damage from offset c on? nxt: the element after it in file order."""
    if n.end > c:
        return False
    # the end of an unknown-size element is only known from what follows
    open_ended = [k for k in n.walk() if k.unk]
    return not open_ended or (nxt is not None and nxt.start <= c)


def inspect(sch, spec, data, nodes, c, damaged, source, note):
    flat = list(ref.flat(nodes))
    after = {}
    for n in flat:
        after[id(n)] = next((m for m in flat if m.offset >= n.end and m is not n), None)
    exp = [n for n in flat if n.start <= c]
    whole = [n for n in exp if intact(n, c, after[id(n)])]
    headers = True
    head = nodes[0] if nodes and nodes[0].name == 'EBML' else None
    if source == 'counting':
        stream = Counting(damaged)
        doc = sch.load(stream, headers=True)
        return walk(doc, stream, flat, exp, whole, c, head, after, damaged, note)
    with Opened(sch, damaged, source) as doc:
        if source in ('loads', 'call') and head is not None:
            if not intact(head, c, after[id(head)]):
                return
            hidden = {id(x) for x in head.walk()}
            exp = [n for n in exp if id(n) not in hidden]
            whole = [n for n in whole if id(n) not in hidden]
        walk(doc, None, flat, exp, whole, c, head, after, damaged, note)


def walk(doc, stream, flat, exp, whole, c, head, after, damaged, note):
    if head is not None and intact(head, c, after[id(head)]) and head in flat:
        same(ref.canon(doc.info), ref.dump(head.kids), 'info of a document with an intact header')
    r, end = 0, None
    for el in crawl(doc, stream, len(exp) + 50):
        if el is None or isinstance(el, Exception):
            end = el
            break
        if r < len(exp):
            n = exp[r]
            same((el.id, el.offset, el.payloadOffset), (n.id, n.offset, n.start), 'element reported for %r' % n)
            if not n.unk:
                same(el.size, n.size, 'size of %r' % n)
            if id(n) in {id(w) for w in whole}:
                check_element(el, n)
        r += 1
    last = max([i for i, n in enumerate(exp) if n.end <= c], default=-1)
    expect(r > last, 'only', r, 'elements reported, the intact', exp[last] if last >= 0 else None,
           'is missing; iteration ended with', end)
    expect(r >= len(exp) or end is not None, 'iteration ended silently before', exp[r] if r < len(exp) else None)
    note('ended with an exception' if end is not None else 'ended regularly')
    note.nt(whole and len(whole) < len(flat))


def damage(data, c, how, junk):
    if how == 'cut':
        return data[:c]
    if how == 'junk':
        return data[:c] + junk
    return data[:c] + junk + data[c + len(junk):]


def check(case, note):
    (lit, trees), how, where, junk, source = case
    spec = ref.Spec(lit)
    sch = schema(spec)
    data, nodes = ref.write_doc(trees, spec)
    if isinstance(junk, tuple):     # looks like an element of the schema, of any size
        pick, size, tail = junk
        junk = ref.id_bytes(lit['els'][pick % len(lit['els'])]['id']) + size + tail
    # offsets drawn relative to the elements: c = some element's start/end plus a small distance
    flat = list(ref.flat(nodes))
    for pick, edge, d in where:
        if not flat:
            c = 0
        else:
            n = flat[pick % len(flat)]
            c = max(0, min(len(data), (n.offset, n.start, n.end, (n.start + n.end) // 2)[edge] + d))
        bad = damage(data, c, how, junk)
        if bad == data and how == 'over':
            continue
        note('damage ' + how)
        inspect(sch, spec, data, nodes, c, bad, source, note)


def all_cuts(case, note):
    lit, trees = case
    spec = ref.Spec(lit)
    sch = schema(spec)
    data, nodes = ref.write_doc(trees, spec)
    step = 1 if len(data) <= 160 else len(data) // 80
    for c in range(0, len(data) + 1, step):
        inspect(sch, spec, data, nodes, c, data[:c], 'counting', note)
    note('documents with every cut' if step == 1 else 'documents with 80 cuts')


DOCS = st.one_of(gen.docs(max_nodes=20), gen.docs(max_nodes=20), documents(), streams(), documents(header=True))


@st.composite
def soup(draw):
    """Bytes made of IDs of the schema, sizes, and anything."""
    if draw(st.booleans()):
        lit, trees = draw(DOCS)
        data = bytearray(ref.write_doc(trees, ref.Spec(lit))[0])
        for _ in range(draw(st.integers(1, 4))):
            if data:
                i = draw(st.integers(0, len(data) - 1))
                how = draw(st.integers(0, 3))
                if how == 0:
                    data[i] = draw(st.sampled_from([0, 1, 2, 8, 0x10, 0x40, 0x7f, 0x80, 0x81, 0xff, data[i] ^ 1]))
                elif how == 1:
                    data[i] ^= 1 << draw(st.integers(0, 7))
                elif how == 2:
                    del data[i:i + draw(st.integers(1, 3))]
                else:
                    data[i:i] = draw(st.binary(min_size=1, max_size=4))
        return (lit, bytes(data))
    lit = draw(gen.specs(max_els=6, min_masters=1))
    ids = [e['id'] for e in lit['els']]
    parts = st.one_of(
        st.sampled_from(ids).map(ref.id_bytes),
        st.sampled_from(ids).map(ref.id_bytes),
        st.integers(0, 30).map(ref.size_bytes), st.integers(0, 4).map(ref.size_bytes),
        st.tuples(gen.SIZES, st.integers(1, 8)).map(lambda x: ref.size_bytes(x[0], max(x[1], ref.size_width(x[0])))),
        st.integers(1, 8).map(ref.unknown_bytes),
        st.binary(max_size=6), st.sampled_from([b'\0', b'\0\0\0', b'\xff', b'\xff\xff', b'\x01', b'\x80']))
    return (lit, b''.join(draw(st.lists(parts, max_size=40))))


def arbitrary(case, note):
    lit, data = case
    spec = ref.Spec(lit)
    stream = Counting(data)
    doc = schema(spec).load(stream, headers=True)
    n = 0
    for el in crawl(doc, stream, 400):
        if isinstance(el, Exception):
            note('ended with an exception')
        elif el is not None:
            n += 1
            expect(0 <= el.offset < len(data), 'element outside of the data', el)
            stream.reset()
            el.size
    note.nt(n > 0)
    note('elements >= 5' if n >= 5 else 'elements < 5')
    # what iteration of the roots gives does not depend on having been asked before
    def roots(d):
        stream.reset()
        out = []
        try:
            for e in d:
                out.append((e.id, e.offset))
                stream.reset()
        except Exception as e:
            out.append(type(e).__name__)
        return out
    same(roots(doc), roots(schema(spec).load(io.BytesIO(data), headers=True)), 'root elements')


JUNK = st.one_of(st.binary(min_size=1, max_size=30), st.sampled_from(
    [b'\0', b'\0' * 16, b'\xff' * 16, b'\x00\x01', b'\x1a\x45\xdf\xa3\xff', b'\x80\x80', b'\x81\xff', b'\xec\x81', b'\x42',
     b'\x81\x01', b'\x10\x00', b'\x0f\xff\xff', b'\xbf\x84\x00\x00']))
JUNK = st.one_of(JUNK, st.tuples(
    st.integers(0, 20), st.one_of(st.tuples(gen.SIZES, st.integers(1, 8)).map(
        lambda x: ref.size_bytes(x[0], max(x[1], ref.size_width(x[0])))), st.integers(1, 8).map(ref.unknown_bytes),
        st.binary(max_size=2)), st.binary(max_size=6)))
WHERE = st.lists(st.tuples(st.integers(0, 50), st.integers(0, 3), st.integers(-3, 3)), min_size=1, max_size=4)
SRC = st.sampled_from(['counting'] * 6 + ['loads', 'bytesio', 'stream', 'path', 'file', 'threaded'])
SUBS = [
    Sub('cut', check, st.tuples(DOCS, st.just('cut'), WHERE, st.just(b''), SRC), quick=1000, thorough=25000, shards=3,
        rule='truncation near element edges'),
    Sub('junk', check, st.tuples(DOCS, st.sampled_from(['junk', 'over']), WHERE, JUNK,
                                 st.sampled_from(['counting'] * 4 + ['loads', 'bytesio', 'stream', 'path', 'unbuffered',
                                                  'threaded'])),
        quick=1400, thorough=40000, shards=3, rule='arbitrary bytes from an offset on'),
    Sub('every-cut', all_cuts, DOCS, quick=240, thorough=8000, shards=3,
        rule='every truncation of small documents, 80 of larger ones'),
    Sub('bytes', arbitrary, soup(), quick=2400, thorough=80000, shards=3, rule='arbitrary byte strings'),
    scale.sub(scale.cut, [(s, b) for s in scale.SMALL for b in (0, 1, 2, 30)]),
]
ASSUMPTIONS = ['values of truncated elements are not judged', 'size and end of an unknown-size element are judged only '
               'if the header of the element that ends it is undamaged']
