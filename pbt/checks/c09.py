"""C09: random documents and random histories of operations on the document and on every element met so far; each
result is compared with the reference layout; non-trivial = at least six operations on elements, of at least four
kinds."""
import io

from hypothesis import strategies as st

from .. import gen, ref, scale
from ..lib import BASES, check_element, kind, schema
from ..run import Sub, expect, same
from .c06 import Opened, visible
from .c08 import documents, streams
from ebmlite import util

OPS = ['iter', 'next', 'next', 'next', 'value', 'value', 'len', 'index', 'size', 'raw', 'rawvalue', 'dump', 'gc', 'gc',
       'gcr', 'eq', 'seek', 'read', 'docindex', 'doclen', 'dociter', 'docvalue', 'docdump', 'attrs', 'again', 'flat',
       'print', 'xml', 'list', 'docgc', 'repr', 'slice', 'contains', 'reversed']


class Handle:
    def __init__(self, el, node):
        self.el, self.node = el, node
        self.cached = None      # None: unknown
        self.kids = None        # handles of the children in the cached value
        self.read = False       # its value was read at some time

    def bounds(self):
        """How many cached values a recursive gc clears: at least, at most."""
        top = sum(1 for _ in self.node.walk())
        if self.cached is None:
            return 0, top
        if not self.cached:
            return 0, 0
        lo = hi = 1
        for k in self.kids or ():
            a, b = k.bounds()
            lo, hi = lo + a, hi + b
        return lo, hi

    def cleared(self, recurse):
        if recurse:
            for k in self.kids or ():
                k.cleared(True) if self.cached else None
        self.cached, self.kids = False, None

    def touched(self):
        if self.cached is False:
            self.cached = None


class World:
    def __init__(self, doc, sch, nodes, shows_header, data, spec):
        self.docs = [(doc, visible(nodes, shows_header))]
        self.sch, self.nodes, self.data, self.spec = sch, nodes, data, spec
        self.handles, self.iters = [], []
        self.stream = doc.stream

    def add(self, el, node):
        for h in self.handles:
            if h.el is el:
                expect(h.node is node, 'the same object was returned for', h.node, 'and', node)
                return h
        check_element(el, node, values=False)
        h = Handle(el, node)
        self.handles.append(h)
        return h

    def children(self, els, nodes, what):
        els = list(els)
        same([(e.id, e.offset) for e in els], [(n.id, n.offset) for n in nodes], what)
        return [self.add(e, n) for e, n in zip(els, nodes)]

    def run(self, op, a, b):
        doc, roots = self.docs[a % len(self.docs)]
        if op == 'dociter':
            self.iters.append([iter(doc), roots, 0])
        elif op == 'docvalue':
            self.children(doc.value, roots, 'document value')
        elif op == 'doclen':
            same(len(doc), len(roots), 'len of document')
        elif op == 'docindex':
            if not roots:
                return False
            i = b % len(roots)
            self.add(doc[i], roots[i])
        elif op == 'docdump':
            same(ref.canon(doc.dump()), ref.dump(roots), 'dump of document')
        elif op == 'docgc':
            doc.gc(bool(b & 1))
        elif op == 'seek':
            self.stream.seek(b % (len(self.data) + 1))
        elif op == 'read':
            p = self.stream.tell()
            same(self.stream.read(b), self.data[p:p + b], 'stream contents')
        elif op == 'again':
            if len(self.docs) > 2:
                return False
            self.stream.seek(0)
            d = self.sch.load(self.stream, headers=bool(b & 1))
            self.docs.append((d, visible(self.nodes, bool(b & 1))))
        elif op == 'next':
            if not self.iters:
                return False
            it = self.iters[a % len(self.iters)]
            try:
                el = next(it[0])
            except StopIteration:
                same(it[2], len(it[1]), 'number of elements iterated')
                self.iters.remove(it)
                return True
            expect(it[2] < len(it[1]), 'iterator yields too many elements', el)
            self.add(el, it[1][it[2]])
            it[2] += 1
        else:
            if not self.handles:
                return False
            return self.element(op, self.handles[a % len(self.handles)], b)
        return True

    def element(self, op, h, b):
        el, n = h.el, h.node
        if op == 'gc':
            cached = h.cached
            r = el.gc()
            if cached:
                same(r, 1, 'gc of %r with cached value' % n)
            elif cached is False:
                same(r, 0, 'gc of %r without cached value' % n)
            h.cleared(False)
        elif op == 'gcr':
            lo, hi = h.bounds()
            r = el.gc(recurse=True)
            expect(lo <= r <= hi, 'gc(recurse=True) of', n, 'returned', r, 'expected', lo, 'to', hi)
            unknown = h.cached is not False
            h.cleared(True)
            if unknown:     # other handles of elements below may have been cleared, too
                below = set(map(id, n.walk()))
                for g in self.handles:
                    if g is not h and g.cached and id(g.node) in below:
                        g.cached = g.kids = None
        elif op == 'attrs':
            check_element(el, n, values=False)
        elif op == 'repr':
            for x in (el, self.docs[b % len(self.docs)][0], self.sch):
                expect(isinstance(repr(x), str) and isinstance(str(x), str), 'repr of', n)
            bool(el)
            h.touched()
        elif op == 'size':
            same(el.size, n.size, 'size of %r' % n)
        elif op == 'raw':
            same(bytes(el.getRaw()), self.data[n.offset:n.end], 'raw bytes of %r' % n)
        elif op == 'rawvalue':
            same(bytes(el.getRawValue()), self.data[n.start:n.end], 'raw value of %r' % n)
        elif op == 'dump':
            same(ref.canon(el.dump()), ref.dump(n.kids) if n.kids is not None else ref.canon(n.value()),
                 'dump of %r' % n)
            h.touched()
        elif op == 'eq':
            o = self.handles[b % len(self.handles)]
            if n is o.node and n.t != 'float':
                expect(el == o.el, 'two reads of', n, 'are unequal')
            elif n.offset != o.node.offset and 'unknown' not in (n.t, o.node.t):
                expect(not el == o.el, n, 'equals', o.node)
            else:
                el == o.el
            h.touched()
            o.touched()
        elif op in ('print', 'xml', 'flat'):
            if op == 'flat':
                want = list(n.walk())[1:]
                got = list(util.flatiter(el))
                same([(e.id, e.offset) for e in got], [(w.id, w.offset) for w in want], 'flatiter of %r' % n)
            elif op == 'print':
                util.pprint(el, out=io.StringIO(), binary_codec='hex')
            else:
                util.toXml(el)
            h.touched()
        elif n.kids is None:
            if op == 'value':
                same(ref.canon(el.value), ref.canon(n.value()), 'value of %r' % n)
                h.cached, h.kids = True, None
            elif op == 'len' and n.t in ('str', 'bin', 'void', 'unknown'):
                same(len(el), n.size, 'len of %r' % n)
            elif op == 'len' and n.t == 'uni':
                same(len(el), len(n.value()), 'len of %r' % n)
                h.touched()
            else:
                return False
        elif op == 'value':
            v = el.value
            kids = self.children(v, n.kids, 'value of %r' % n)
            if h.cached and h.kids is not None:
                for x, y in zip(h.kids, kids):
                    expect(x is y, 'cached value of', n, 'changed')
            h.cached, h.kids = True, kids
        elif op == 'iter':
            self.iters.append([iter(el), n.kids, 0])
            h.touched()
        elif op == 'list':
            self.children(iter(el), n.kids, 'children of %r' % n)
            h.touched()
        elif op == 'len':
            same(len(el), len(n.kids), 'len of %r' % n)
            h.touched()
        elif op == 'slice':
            k = len(n.kids) + 2
            s = slice(*[None if x > 2 * k else x - k for x in (b % (2 * k + 2), b // 7 % (2 * k + 2))], [None, 1, -1, 2, 3][b % 5])
            self.children(el[s], n.kids[s], 'children %r of %r' % (s, n))
            h.touched()
        elif op == 'reversed':
            self.children(reversed(el), n.kids[::-1], 'reversed children of %r' % n)
            h.touched()
        elif op == 'contains':
            o = self.handles[b % len(self.handles)]
            if o.node in n.kids and o.node.t != 'float':
                expect(o.el in el, o.node, 'is not in', n)
            elif o.node not in n.kids and 'unknown' not in [o.node.t] + [k.t for k in n.kids]:
                expect(o.el not in el, o.node, 'is in', n)
            h.touched()
            o.touched()
            for c in self.handles:
                if c.node in n.kids:
                    c.touched()
        elif op == 'index':
            h.touched()
            if n.kids:
                i = b % (2 * len(n.kids)) - len(n.kids)
                self.add(el[i], n.kids[i])
            try:
                el[len(n.kids)]
            except IndexError:
                return True
            raise AssertionError('index %d of %r accepted' % (len(n.kids), n))
        else:
            return False
        return True


ONE = st.tuples(st.sampled_from(OPS), st.integers(0, 60), st.integers(0, 4000))
# start with something to act upon
PROGRAM = st.builds(lambda p, q: p + q, st.sampled_from([
    [], [('docvalue', 0, 0)], [('dociter', 0, 0), ('next', 0, 0), ('iter', 0, 0), ('next', 0, 0), ('next', 1, 0)],
    [('docvalue', 0, 0), ('value', 0, 0), ('value', 1, 0), ('value', 2, 0), ('value', 3, 0)],
    [('docvalue', 0, 0), ('list', 0, 0), ('list', 1, 0), ('list', 2, 0)]]),
    st.one_of(st.lists(ONE, min_size=1, max_size=15), st.lists(ONE, min_size=10, max_size=45)))


def history(case, note):
    (lit, trees), source, program = case
    spec = ref.Spec(lit)
    sch = schema(spec)
    data, nodes = ref.write_doc(trees, spec)
    o = Opened(sch, data, source)
    done = {}
    with o as doc:
        w = World(doc, sch, nodes, o.shows_header, data, spec)
        for op, a, b in program:
            if w.run(op, a, b):
                done[op] = done.get(op, 0) + 1
        # in the end everything still reads the same
        for it in w.iters:
            w.children(it[0], it[1][it[2]:], 'rest of an iteration')
        for h in list(w.handles):
            check_element(h.el, h.node)
            if h.node.kids is not None:
                w.children(h.el, h.node.kids, 'children of %r' % h.node)
                same(len(h.el), len(h.node.kids), 'len of %r' % h.node)
        for d, roots in w.docs:
            same(ref.canon(d.dump()), ref.dump(roots), 'final dump')
    for k in done:
        note('op ' + k)
    note('elements touched >= 5' if len(w.handles) >= 5 else 'elements touched < 5')
    note.nt(sum(done.values()) >= 6 and len(done) >= 4 and len(w.handles) >= 2)


# ---------------------------------------------------------------- values are read again after gc

@st.composite
def rewritten(draw):
    lit, trees = draw(gen.docs(spec_kw=dict(header=False), unknowns=True))
    spec = ref.Spec(lit)

    def filled(b, n):
        return (b * (n // len(b) + 1))[:n] if n else b

    def change(ts):
        out = []
        for t in ts:
            if t[0] == 'm':
                out.append(('m', t[1], change(t[2]), t[3], t[4]))
                continue
            n = len(t[2])
            t_ = spec.type_of(t[1])
            if t_ in ('uni', 'str'):
                pl = filled(draw(st.text(gen.PRINTABLE, min_size=min(n, 1000), max_size=min(n, 1000))).encode(), n)
            elif t_ in ('uint', 'int', 'bin', 'unknown', 'date', 'float'):
                pl = filled(draw(st.binary(min_size=min(n, 1000), max_size=min(n, 1000))), n)
            else:
                pl = t[2]
            out.append(('l', t[1], pl, t[3]))
        return out
    return (lit, trees, change(trees), draw(st.integers(0, 2)))


def reread(case, note):
    lit, trees, other, mode = case
    spec = ref.Spec(lit)
    data, nodes = ref.write_doc(trees, spec)
    data2, nodes2 = ref.write_doc(other, spec)
    same(len(data2), len(data), 'harness: lengths')
    f = io.BytesIO(data)
    doc = schema(spec).load(f, headers=True)
    pairs = []

    def walk(els, ns, ns2):
        for e, n, n2 in zip(els, ns, ns2):
            pairs.append((e, n, n2))
            if n.kids is None:
                same(ref.canon(e.value), ref.canon(n.value()), 'value of %r' % n)
            else:
                walk(e.value, n.kids, n2.kids)
    walk(list(doc), nodes, nodes2)
    f.seek(0)
    f.write(data2)
    if mode == 0:       # one by one
        for e, n, n2 in pairs:
            same(e.gc(), 1, 'gc of %r' % n)
    elif mode == 1:     # from the roots
        for e, n, n2 in pairs:
            if n.parent is None:
                same(e.gc(recurse=True), sum(1 for _ in n.walk()), 'recursive gc of %r' % n)
    else:               # children first
        for e, n, n2 in reversed(pairs):
            same(e.gc(recurse=True), 1, 'gc of %r' % n)
    for e, n, n2 in pairs:
        check_element(e, n2, where='after gc ')
        if n.kids is not None:
            for c, n3 in zip(e.value, n2.kids):
                check_element(c, n3, where='after gc ')
    note.nt(data != data2 and len(pairs) > 1)


SRC = st.sampled_from(['loads', 'bytesio', 'stream', 'path', 'file', 'unbuffered', 'threaded'] + ['bytesio'] * 4)
DOCS = st.one_of(gen.docs(max_nodes=16), gen.docs(spec_kw=dict(min_masters=2), max_nodes=30))
SUBS = [
    Sub('histories', history, st.tuples(DOCS, SRC, PROGRAM), quick=2400, thorough=60000, shards=5,
        rule='documents with definite sizes'),
    Sub('unknown-sizes', history, st.tuples(st.one_of(documents(), streams()), SRC, PROGRAM), quick=1000,
        thorough=30000, shards=3, rule='documents with unknown-size masters'),
    Sub('reread', reread, rewritten(), quick=600, thorough=15000, shards=2,
        rule='payloads changed in the stream after being read: gc makes the new ones visible'),
    scale.sub(scale.caching, scale.SMALL),
]
ASSUMPTIONS = ['gc of elements whose cache state the history does not determine is only bounded']
