"""C26: random documents with bulky payloads read through a stream that records every byte asked for, in random histories
of operations; nothing but what an operation needs may be read, a cached value needs no stream at all, and the effort of
walking nested "infinite" elements stays bounded; non-trivial = a bulky payload that was never asked for, or a chain of
three "infinite" elements."""
import bisect
import io

from hypothesis import strategies as st

from .. import gen, ref, scale
from ..lib import check_element, schema
from ..run import Sub, expect, same
from .c08 import admissible, flagged, streams
from .c14 import PRECACHE
from ebmlite import util

SLACK = 16      # an ID, a size descriptor and what a reader may sensibly read ahead to get them


class Recorder:
    """The least a source must have, recording what is read; when closed, nothing works."""
    def __init__(self, data):
        self.data, self.pos, self.closed = data, 0, False
        self.log, self.calls = [], 0

    def _open(self):
        if self.closed:
            raise ValueError('I/O operation on closed file.')
        self.calls += 1

    def read(self, n=-1):
        self._open()
        end = len(self.data) if n is None or n < 0 else min(len(self.data), self.pos + n)
        b = self.data[self.pos:end]
        if b:
            self.log.append((self.pos, end))
        self.pos = max(self.pos, end)
        return b

    def seek(self, pos, whence=0):
        self._open()
        self.pos = max(0, pos + {0: 0, 1: self.pos, 2: len(self.data)}[whence])
        return self.pos

    def tell(self):
        self._open()
        return self.pos

    def close(self):
        self.closed = True


def precached(n, spec):
    e = spec.by_id.get(n.id)
    if e is None or e['t'] in ('void', 'master'):
        return False
    return PRECACHE.get(e['t'], False) if e['precache'] is None else e['precache']


class World:
    def __init__(self, spec, sch, data, nodes, headers):
        self.spec, self.data = spec, data
        self.s = Recorder(data)
        self.leaves = [n for n in ref.flat(nodes) if n.kids is None and n.size > SLACK]
        self.starts = [n.start for n in self.leaves]
        self.known = set()
        head = nodes[0] if nodes and nodes[0].name == 'EBML' else None
        self.doc = None
        self.doc = self.watch('opening', lambda: sch.load(self.s, headers=headers),
                              set(map(id, head.walk())) if head else {id(n) for n in nodes[:1] if precached(n, spec)},
                              None if not nodes else head.end if head else self.reach(nodes, 1))
        self.roots = nodes[1:] if head and not headers else nodes
        self.handles = []       # [element, node, cached]
        self.read = set()

    def watch(self, what, fn, allowed, limit):
        """Run fn; of the bulky payloads only those of nodes with an id in `allowed` may be read, and nothing
        (but a few bytes) from `limit` on."""
        self.s.log = []
        r = fn()
        for a, b in self.s.log:
            if limit is not None:
                expect(b <= limit + SLACK, what, 'read', a, 'to', b, 'though', limit, 'is as far as it needs to go')
            i = bisect.bisect_right(self.starts, a)
            for n in self.leaves[max(0, i - 1):]:
                if n.start >= b:
                    break
                if id(n) in allowed:
                    continue
                lo, hi = max(a, n.start), min(b, n.end)
                expect(hi <= n.start + SLACK or lo >= hi, what, 'read', lo, 'to', hi, 'in the payload of', n)
        if self.doc is not None:
            self.read |= {id(n) for n in self.leaves if id(n) in allowed}
        return r

    def quiet(self, what, fn):
        """Run fn, which has no need of the stream."""
        self.s.log = []
        r = fn()
        expect(not self.s.log, what, 'read the stream', self.s.log)
        return r

    def pre(self, nodes):
        return {id(n) for n in nodes if precached(n, self.spec)}

    def add(self, els, nodes):
        for e, n in zip(els, nodes):
            check_element(e, n, values=False)
            if id(e) not in self.known:
                self.known.add(id(e))
                self.handles.append([e, n, precached(n, self.spec)])

    def reach(self, nodes, k):
        """How far reading the first k of sibling nodes needs to go; None: to the end."""
        if k > len(nodes):
            return None
        n = nodes[k - 1]
        return n.end if n.unk or precached(n, self.spec) else n.start

    def run(self, op, a, b):
        if op == 'iter':
            el, nodes = (self.doc, self.roots)
            h = self.pick(a, True)
            if h and a % 3:
                el, nodes = h[0], h[1].kids
            k = 1 + b % (len(nodes) + 1)
            got = []

            def go():
                for e in el:
                    got.append(e)
                    if len(got) == k:
                        return
            self.watch('iterating to %d' % k, go, self.pre(nodes[:k]), self.reach(nodes, k))
            same([(e.id, e.offset) for e in got], [(n.id, n.offset) for n in nodes[:k]], 'elements')
            self.add(got, nodes)
        elif op == 'docindex' and self.roots:
            i = b % len(self.roots)
            e = self.watch('document[%d]' % i, lambda: self.doc[i], self.pre(self.roots[:i + 1]),
                           self.reach(self.roots, i + 1))
            self.add([e], self.roots[i:])
        elif op == 'doclen':
            same(self.watch('len of the document', lambda: len(self.doc), (), None), len(self.roots), 'len')
        elif op == 'flat':
            self.watch('flatiter', lambda: list(util.flatiter(self.doc)), self.pre(ref.flat(self.roots)), None)
        elif op == 'flatpart' and self.roots:
            flat = list(ref.flat(self.roots))
            k = 1 + (a + b) % len(flat)
            got = []

            def some():
                for e in util.flatiter(self.doc):
                    got.append(e)
                    if len(got) == k:
                        return
            self.watch('flat iteration to %d' % k, some, self.pre(flat[:k]), max(self.reach(flat[:i], i) for i in range(1, k + 1)))
            same([(e.id, e.offset) for e in got], [(n.id, n.offset) for n in flat[:k]], 'elements')
            self.add(got, flat)
        elif op == 'structure':
            self.watch('pprint without values', lambda: util.pprint(self.doc, values=False, out=io.StringIO()),
                       self.pre(ref.flat(self.roots)), None)
        elif op == 'len':
            h = self.pick(a, True)
            if h:
                if h[2]:
                    same(self.quiet('len of %r, whose value is cached' % h[1], lambda: len(h[0])), len(h[1].kids), 'len')
                else:
                    same(self.watch('len of %r' % h[1], lambda: len(h[0]), (), h[1].end), len(h[1].kids), 'len')
        else:
            h = self.pick(a, None)
            if h:
                self.element(op, h, b)

    def pick(self, a, master):
        hs = [h for h in self.handles if master is None or (h[1].kids is not None) == master]
        return hs[a % len(hs)] if hs else None

    def element(self, op, h, b):
        el, n, cached = h
        inside = set(map(id, n.walk()))
        if op == 'value':
            if cached:
                v = self.quiet('cached value of %r' % n, lambda: el.value)
            elif n.kids is None:
                v = self.watch('value of %r' % n, lambda: el.value, {id(n)} if n.t != 'void' else (), n.end)
            else:
                v = self.watch('value of %r' % n, lambda: el.value, self.pre(n.kids), n.end)
            h[2] = True
            self.check(v, n)
            if n.kids is not None:
                self.add(v, n.kids)
        elif op == 'index' and n.kids:
            i = b % len(n.kids)
            if cached:
                e = self.quiet('item of cached %r' % n, lambda: el[i])
            else:
                e = self.watch('item of %r' % n, lambda: el[i], self.pre(n.kids), n.end)
                h[2] = h[2] or None
            self.add([e], n.kids[i:])
        elif op == 'gc':
            self.quiet('gc of %r' % n, lambda: el.gc())
            h[2] = False
        elif op == 'attrs':
            self.quiet('attributes of %r' % n, lambda: (check_element(el, n, values=False), repr(el)))
        elif op == 'size' and n.t in ('str', 'bin', 'void', 'unknown'):
            same(self.quiet('len of %r' % n, lambda: len(el)), n.size, 'len of %r' % n)
        elif op == 'dump':
            self.watch('dump of %r' % n, lambda: el.dump(), inside, n.end)
            if not h[2]:
                h[2] = None
        elif op == 'raw':
            same(bytes(self.watch('raw bytes of %r' % n, lambda: el.getRaw(), inside, n.end)),
                 self.data[n.offset:n.end], 'raw bytes of %r' % n)
        elif op == 'rawvalue':
            same(bytes(self.watch('raw value of %r' % n, lambda: el.getRawValue(), inside, n.end)),
                 self.data[n.start:n.end], 'raw value of %r' % n)
        elif op == 'xml':
            self.watch('XML of %r' % n, lambda: util.toXml(el), inside, n.end)
            if not h[2]:
                h[2] = None

    def check(self, v, n):
        if n.kids is None:
            same(ref.canon(v), ref.canon(n.value()), 'value of %r' % n)
        else:
            same([(e.id, e.offset) for e in v], [(k.id, k.offset) for k in n.kids], 'value of %r' % n)


def check(case, note):
    lit, trees, headers, ops = case
    spec = ref.Spec(lit)
    data, nodes = ref.write_doc(trees, spec)
    w = World(spec, schema(spec), data, nodes, headers)
    for op, a, b in ops:
        w.run(op, a, b)
    # What was read is kept, when the source is gone
    w.s.closed = True
    kept = 0
    for el, n, cached in w.handles:
        check_element(el, n, values=False)
        if cached:
            w.check(el.value, n)
            kept += 1
        repr(el)
    note('values read after the source was closed', kept)
    note('"infinite" elements', any(n.unk for n in ref.flat(nodes)))
    note('precached by the schema', any(precached(n, spec) and not PRECACHE.get(n.t) for n in ref.flat(nodes)))
    note('bulky payloads not read', any(id(n) not in w.read for n in w.leaves))
    note.nt(len(w.handles) > 1 and any(id(n) not in w.read for n in w.leaves))


def bulky(draw, spec, trees):
    """Longer payloads for elements of types that can have them."""
    out = []
    for t in trees:
        if t[0] == 'm':
            out.append(t[:2] + (bulky(draw, spec, t[2]),) + t[3:] if t[1] != 0x1A45DFA3 else t)
        elif spec.type_of(t[1]) in ('bin', 'void', 'unknown', 'str', 'uni') and draw(st.integers(0, 3)):
            fill = draw(st.sampled_from([b'text', b'x', b'\x81\x80']))
            if spec.type_of(t[1]) in ('str', 'uni'):
                fill = b'text'
            out.append(t[:2] + (t[2] + fill * draw(st.sampled_from([20, 50, 300] * 6 + [30000])),) + t[3:])
        else:
            out.append(t)
    return out


def wide(draw, trees):
    """More children, for some masters of leaves."""
    out = []
    for t in trees:
        if t[0] == 'm' and t[2] and all(x[0] == 'l' and len(x[2]) < 100 for x in t[2]) and t[1] != 0x1A45DFA3:
            t = t[:2] + (t[2] * draw(st.sampled_from([1, 20, 80])),) + t[3:]
        elif t[0] == 'm':
            t = t[:2] + (wide(draw, t[2]),) + t[3:]
        out.append(t)
    return out


OPS = ['iter', 'iter', 'iter', 'iter', 'value', 'value', 'value', 'len', 'len', 'gc', 'index', 'docindex', 'doclen', 'flat', 'flatpart', 'flatpart',
       'structure', 'attrs', 'size', 'dump', 'raw', 'rawvalue', 'xml']


@st.composite
def cases(draw):
    if draw(st.integers(0, 4)) == 0:
        lit, trees = draw(streams())
        spec = ref.Spec(lit)
    else:
        lit = draw(gen.specs(min_masters=draw(st.integers(1, 3))))
        spec = ref.Spec(lit)
        trees = gen.draw_trees(draw, spec, max_nodes=20, skip=('EBML',))
        if draw(st.booleans()):
            trees = flagged(draw, trees, draw(st.sampled_from([6, 9])))
        if 'EBML' in spec.els and draw(st.integers(0, 3)):
            trees = [gen.header_tree(draw, spec)] + trees
        trees = admissible(trees, spec)
    if draw(st.integers(0, 14)) == 0:
        trees = wide(draw, trees)
    trees = bulky(draw, spec, trees)
    odds = draw(st.sampled_from([6, 6, 2]))
    for e in lit['els']:
        if e['t'] in ('str', 'uni', 'bin') and draw(st.integers(1, odds)) == 1:
            e['precache'] = True
    ops = draw(st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 40), st.integers(0, 20)), min_size=2, max_size=24))
    return (lit, trees, draw(st.booleans()), [('iter', 0, 8), ('iter', 1, 8)] * draw(st.booleans()) + [('len', 0, 0)] * draw(st.integers(0, 1)) + ops)


def cached(case, note):
    """What a cached value of a master gives stays cached, however large it is and whatever is done with it."""
    n, types, unk, ops, size = case
    ids = dict(uint=0x4081, bin=0x4082, str=0x4083, master=0x82)
    els = [dict(name='T' + t, id=i, t=t, multiple=True) for t, i in ids.items()] + [dict(name='M', id=0x81, t='master', multiple=True)]
    spec = ref.Spec(dict(els=els, kids={None: ['M', 'Tuint'], 'M': ['T' + t for t in ids], 'Tmaster': ['Tuint']}))
    one = dict(uint=b'\1\2', bin=b'x' * size, str=b'y' * size)
    kids = [('m', 0x82, [('l', 0x4081, b'\3', None)], None, False) if t == 'master' else ('l', ids[t], one[t], None)
            for t in (types[i % len(types)] for i in range(n))]
    data, nodes = ref.write_doc([('m', 0x81, kids, None, unk)], spec)
    s = Recorder(data)
    doc = schema(spec).load(s)
    m = doc[0]
    kept = None
    node = nodes[0]
    for op, a in ops:
        s.log = []
        i = a % n if n else 0
        if op == 'value':
            v = m.value
            if kept is not None:
                same([id(x) for x in v], [id(x) for x in kept], 'cached value')
            same([(e.id, e.offset) for e in v], [(k.id, k.offset) for k in node.kids], 'value')
        elif op == 'index' and n:
            e = m[i]
            same((e.id, e.offset), (node.kids[i].id, node.kids[i].offset), 'item')
            if kept is not None:
                expect(e is kept[i], 'item', i, 'is not that of the cached value')
        elif op == 'len':
            same(len(m), n, 'len')
        elif op == 'kid' and kept:
            expect(kept[i].value is not None, 'value of a child')
            s.log = []
        elif op == 'attrs':
            repr(m), m.size, m.id, m.offset, m.payloadOffset, m == doc
        elif op == 'iter':
            for j, e in enumerate(m):
                if j == i:
                    break
            s.log = []
        elif op == 'dump':
            m.dump()
            s.log = []
        elif op == 'others':
            doc[0], len(doc), list(util.flatiter(doc))
            s.log = []
        elif op == 'kidgc' and kept:
            kept[i].gc()
        elif op == 'gc':
            m.gc()
            kept = None
            continue
        if kept is not None:
            expect(not s.log, op, 'of a master whose value is cached read', s.log)
        elif op == 'value':
            kept = list(v)
    note('children %s' % (n if n < 2 else '2-49' if n < 50 else '50-'))
    note.nt(kept is not None and n)


def effort(case, note):
    """Walking a document takes a number of reads that is bounded by elements times depth."""
    levels, fans, roots, unk, leaves, what, sizes = case
    els = [dict(name='L%d' % i, id=0x81 + i, t='master', multiple=True) for i in range(levels)]
    els += [dict(name='Uint', id=0x4081, t='uint', multiple=True), dict(name='Bin', id=0x4082, t='bin', multiple=True)]
    kids = {None: ['L0', 'Uint', 'Bin']}
    for i in range(levels):
        kids['L%d' % i] = (['L%d' % (i + 1)] if i + 1 < levels else []) + ['Uint', 'Bin']
    spec = ref.Spec(dict(els=els, kids=kids))

    def level(i):
        out = [('l', 0x4081, b'\x07', None), ('l', 0x4082, b'x' * sizes, None)][:leaves]
        if i + 1 < levels:
            out += [level(i + 1) for _ in range(fans[i % len(fans)])]
        return ('m', 0x81 + i, out, None, bool(unk >> i & 1))
    data, nodes = ref.write_doc([level(0) for _ in range(roots)], spec)
    s = Recorder(data)
    doc = schema(spec).load(s)
    n = sum(1 for _ in ref.flat(nodes))

    def walk(els):
        return sum(1 + (walk(e) if e.dtype is list else 0) for e in els)

    def values(els):
        return sum(1 + (values(e.value) if e.dtype is list else 0) for e in els)
    if what == 'walk':
        same(walk(doc), n, 'elements')
    elif what == 'values':
        same(values(doc), n, 'elements')
    elif what == 'flat':
        same(len(list(util.flatiter(doc))), n, 'elements')
    elif what == 'len':
        same(len(doc), roots, 'len')
    elif what == 'xml':
        util.toXml(doc, sizes=True)
    elif what == 'print':
        util.pprint(doc, out=io.StringIO())
    depth = levels if unk else 1
    expect(s.calls <= 40 * (n + 2) * (depth + 2), what, 'of', n, 'elements in', levels, 'levels took', s.calls,
           'operations on the stream')
    run = max(len(x) for x in bin(unk)[2:].split('0'))
    note('what ' + what)
    note('levels %s' % ('1-2' if levels < 3 else '3-7' if levels < 8 else '8-'))
    note.nt(run > 2)


@st.composite
def chains(draw):
    levels = draw(st.one_of(st.integers(1, 8), st.integers(8, 24)))
    fans = draw(st.lists(st.integers(1, 3), min_size=1, max_size=4))
    if levels > 8:
        fans = draw(st.sampled_from([[1], [2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]]))
    elif levels > 4:
        fans = [min(f, 2) for f in fans]
    unk = draw(st.one_of(st.just((1 << levels) - 1), st.integers(0, (1 << levels) - 1), st.just(0)))
    roots = draw(st.one_of(st.integers(1, 3), st.integers(50, 300))) if levels < 3 else fans[0]
    return (levels, fans, roots, unk, draw(st.integers(0, 2)), draw(st.sampled_from(
        ['walk', 'walk', 'values', 'flat', 'len', 'xml', 'print'])), draw(st.sampled_from([0, 3, 200])))


SUBS = [
    Sub('histories', check, cases(), quick=2400, thorough=60000, shards=6,
        rule='random documents with bulky payloads, and histories on a recording stream'),
    Sub('cached', cached, st.tuples(st.one_of(st.integers(0, 6), st.integers(50, 140), st.sampled_from([128, 129, 256, 300, 1025])),
        st.lists(st.sampled_from(['uint', 'bin', 'str', 'master']), min_size=1, max_size=3), st.booleans(),
        st.lists(st.tuples(st.sampled_from(['value', 'value', 'value', 'index', 'index', 'len', 'kid', 'attrs', 'iter', 'dump', 'others',
                                            'kidgc', 'gc']), st.integers(0, 2000)), min_size=2, max_size=12),
        st.sampled_from([0, 3, 100])), quick=600, thorough=15000, shards=2, rule='histories of one master of many children'),
    Sub('effort', effort, chains(), quick=600, thorough=12000, shards=2, rule='nests of sized and "infinite" masters'),
    scale.sub(scale.kept),
]
ASSUMPTIONS = ['up to %d bytes of a payload may be read along with the header before it' % SLACK,
               'the EBML header is read when the document is opened']
