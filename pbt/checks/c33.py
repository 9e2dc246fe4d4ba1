"""C33: random documents in which some binary, text, Void and unknown payloads are holes of up to 2**55 bytes, in sparse streams and
files, read in histories of operations; everything reported is compared with an independent layout, and the bytes read are
counted; non-trivial = a hole of 2 GiB or more with an element after it or a master around it."""
import io
import os
import shutil
import tempfile

from hypothesis import strategies as st

from .. import gen, ref
from ..lib import check_element, check_tree, schema
from ..run import Sub, expect, same
from .c08 import admissible, flagged
from .c20 import compare
from ebmlite import util
from ebmlite.threaded_file import ThreadAwareFile

GREEDY = 1 << 18        # no single read of more is needed for what is asked here


class Sparse:
    """The patches (offset, bytes) in `size` zero bytes."""
    def __init__(self, patches, size):
        self.patches, self.size, self.pos, self.total = patches, size, 0, 0

    def read(self, n=-1):
        end = self.size if n is None or n < 0 else min(self.size, self.pos + n)
        n = max(0, end - self.pos)
        expect(n <= GREEDY, 'a read of', n, 'bytes at', self.pos)
        out = bytearray(n)
        for o, b in self.patches:
            lo, hi = max(o, self.pos), min(o + len(b), end)
            if lo < hi:
                out[lo - self.pos:hi - self.pos] = b[lo - o:hi - o]
        self.total += n
        self.pos += n
        return bytes(out)

    def seek(self, pos, whence=0):
        self.pos = max(0, pos + {0: 0, 1: self.pos, 2: self.size}[whence])
        return self.pos

    def tell(self):
        return self.pos


class Hole:
    """Stands for a payload of n zero bytes."""
    def __init__(self, n):
        self.n = n

    def __len__(self):
        raise AssertionError

    def __repr__(self):
        return 'Hole(%d)' % self.n


def layout(trees, spec, base):
    """Like ref.write_doc: (patches, end, nodes); a leaf ('h', id, n, width) is a hole of n bytes."""
    def length(t):
        unk = False
        if t[0] == 'l':
            body = len(t[2])
        elif t[0] == 'h':
            body = t[2]
        else:
            body = sum(length(k)[1] for k in t[2])
            unk = t[4]
        w = t[3] or 1
        if not unk:
            w = max(w, ref.size_width(body))
        return body, len(ref.id_bytes(t[1])) + w + body, w

    patches = []
    pos = base

    def put(b):
        nonlocal pos
        if patches and patches[-1][0] + len(patches[-1][1]) == pos:
            patches[-1][1].extend(b)
        else:
            patches.append((pos, bytearray(b)))
        pos += len(b)

    def emit(t, depth, parent):
        nonlocal pos
        n = ref.Node()
        n.id, n.t, n.name, n.depth, n.parent = t[1], spec.type_of(t[1]), spec.name_of(t[1]), depth, parent
        e = spec.by_id.get(t[1])
        n.multiple = bool(e and e['multiple'])
        n.offset = pos
        body, _, w = length(t)
        n.unk = bool(t[0] == 'm' and t[4])
        put(ref.id_bytes(t[1]) + (ref.unknown_bytes(w) if n.unk else ref.size_bytes(body, w)))
        n.start, n.kids, n.payload = pos, None, None
        if t[0] == 'l':
            n.payload = bytes(t[2])
            put(t[2])
        elif t[0] == 'h':
            n.payload = Hole(t[2])
            pos += t[2]
        else:
            n.kids = [emit(k, depth + 1, n) for k in t[2]]
        n.end = pos
        return n
    nodes = [emit(t, 0, None) for t in trees]
    return patches, pos, nodes


SMALL = [1 << 31, (1 << 31) - 1, (1 << 31) + 5, 1 << 32, (1 << 32) - 1, (1 << 32) + 17, (1 << 28) - 2, (1 << 35) - 1, (1 << 35) - 2,
         3 << 33]
# sparse files: most file systems take 16 TiB, less a page
FILES = SMALL + [1 << 40, (1 << 40) + 5, 1 << 41, (1 << 42) - 2]
LARGE = SMALL + [(1 << 42) - 2, (1 << 42) - 1, (1 << 49) - 1, 1 << 49, 1 << 53, (1 << 53) + 1, 1 << 55, 123456789012345,
                 (1 << 55) + (1 << 54)]
OPS = ['walk', 'walk', 'flat', 'print', 'len', 'index', 'size', 'values', 'raw', 'equal', 'xml', 'value', 'gc', 'dump']


@st.composite
def cases(draw):
    kw = dict(spec_kw=dict(min_masters=draw(st.integers(0, 2)), header=draw(st.booleans())), max_nodes=22)
    lit, trees = draw(gen.docs(**kw))
    spec = ref.Spec(lit)
    if draw(st.booleans()):
        trees = admissible(flagged(draw, trees, 5), spec)
    src = draw(st.sampled_from(['sparse', 'sparse', 'sparse', 'path', 'file', 'threaded']))
    sizes = st.sampled_from(LARGE if src == 'sparse' else FILES)
    void_only = draw(st.integers(0, 3)) == 0
    some = draw(st.sampled_from([3, 7, 10]))
    left = (1 << 56) - (1 << 20)    # in all, for masters to be able to say how large they are

    def holes(ts):
        nonlocal left
        out = []
        for t in ts:
            if t[0] == 'm':
                if t[1] != 0x1A45DFA3:
                    t = ('m', t[1], holes(t[2]), t[3], t[4])
            else:
                k = spec.type_of(t[1])
                if k == 'void' or (not void_only and k in ('bin', 'str', 'uni', 'unknown')):
                    e = spec.by_id.get(t[1])
                    if not (e and e['precache'] and k != 'void') and draw(st.integers(0, 9)) < some:
                        n = draw(sizes)
                        n = n if n <= left else 7
                        left -= n
                        t = ('h', t[1], n, t[3])
            out.append(t)
        return out
    trees = holes(trees)
    ops = draw(st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 60)), min_size=2, max_size=9))
    base = draw(st.sampled_from([0, 0, 0, 7, (1 << 32) - 3, 1 << 50])) if src == 'sparse' else 0
    return (lit, trees, src, ops, base, draw(st.booleans()))


def history(case, note):
    lit, trees, src, ops, base, sized = case
    spec = ref.Spec(lit)
    sch = schema(spec)
    patches, end, nodes = layout(trees, spec, base)
    flat = list(ref.flat(nodes))
    hole = [n for n in flat if isinstance(n.payload, Hole)]
    big = [n for n in hole if n.size >= 1 << 31]
    note('source ' + src)
    for n in hole:
        note('hole in ' + n.t)
    note('"infinite" master around a hole', any(n.unk and any(n.offset < h.offset and h.end <= n.end for h in hole) for n in flat))
    note.nt(any(n.offset > h.offset or (n.kids and h is not n and n.offset < h.offset < n.end) for h in big for n in flat))
    tmp, f = None, None
    try:
        if src == 'sparse':
            f = Sparse(patches, end)
        else:
            tmp = tempfile.mkdtemp(prefix='pbt')
            p = os.path.join(tmp, 'huge.ebml')
            try:
                with open(p, 'wb') as g:
                    for o, b in patches:
                        g.seek(o)
                        g.write(b)
                    g.truncate(end)
            except OSError:
                # too large for this file system
                f, src = Sparse(patches, end), 'sparse'
            else:
                f = p if src == 'path' else open(p, 'rb', buffering=0) if src == 'file' else ThreadAwareFile(p)
        if hasattr(f, 'seek'):
            f.seek(base)
        doc = sch.document(f, **(dict(size=end - base) if sized and src == 'sparse' else {}))
        examine(case, spec, sch, doc, f, nodes, flat, hole, end, note)
        if src == 'sparse':
            # headers and small values only
            content = sum(n.size for n in flat if n.kids is None and not isinstance(n.payload, Hole))
            expect(f.total <= (300 * (len(flat) + 2) + 20 * content) * (len(ops) + 2), 'read', f.total, 'bytes in all')
    finally:
        if hasattr(f, 'close'):
            f.close()
        if tmp:
            try:
                doc.close()
            except NameError:
                pass
            shutil.rmtree(tmp, ignore_errors=True)


def examine(case, spec, sch, doc, f, nodes, flat, hole, end, note):
    lit, trees, src, ops, base, sized = case
    quiet = not any(n.t != 'void' for n in hole)

    def small(els, ns, w):
        for e, n in zip(els, ns):
            check_element(e, n, values=not isinstance(n.payload, Hole), where=w)
            if n.kids is not None:
                small(e, n.kids, w)

    def pairs():
        return list(zip(util.flatiter(doc), flat))

    for op, i in ops:
        w = '%s %d: ' % (op, i)
        if op == 'walk':
            check_tree(iter(doc), nodes, values=False, where=w)
        elif op == 'values':
            small(list(doc), nodes, w)
        elif op == 'flat':
            got = [(e.id, e.offset, e.payloadOffset, e.size) for e in util.flatiter(doc)]
            same(got, [(n.id, n.offset, n.start, n.size) for n in flat], w + 'elements')
        elif op == 'print':
            out = io.StringIO()
            util.pprint(doc, values=False, out=out)
            compare(out.getvalue(), doc, nodes, None, False, '  ', 'ignore', 'ignore', None, note)
        elif op == 'len':
            same(len(doc), len(nodes), w + 'length of the document')
            for e, n in pairs():
                if n.kids is not None:
                    same(len(e), len(n.kids), w + 'length of %r' % n)
        elif op == 'index' and nodes:
            n = nodes[i % len(nodes)]
            check_element(doc[i % len(nodes)], n, values=False, where=w)
        elif op == 'size':
            if src == 'sparse' and not sized:
                same(doc.size, end - base, w + 'size of the document')
            else:
                same(doc.size, end if src != 'sparse' else end - base, w + 'size of the document')
        elif op == 'raw' and flat:
            e, n = pairs()[i % len(flat)]
            if n.size < 4096 and not isinstance(n.payload, Hole):
                body = bytes(e.getRawValue())
                same(len(body), n.size, w + 'length of the raw value of %r' % n)
                raw = bytes(e.getRaw())
                same(raw[len(raw) - n.size:], body, w + 'raw bytes of %r' % n)
                same(len(raw), n.end - n.offset, w + 'length of the raw bytes of %r' % n)
                if n.payload is not None:
                    same(body, n.payload, w + 'raw value of %r' % n)
        elif op == 'equal':
            for (a, n), (b, _) in zip(pairs(), pairs()):
                if n.t in ('bin', 'void', 'master', 'uint', 'int') and (quiet or n.t != 'unknown'):
                    expect(a == b, w, n, 'differs from itself')
            ms = [(e, n) for e, n in pairs() if n.t in ('bin', 'void', 'master')]
            for a, n in ms[:8]:
                for b, m in ms[:8]:
                    same(a == b, n is m, w + '%r == %r' % (n, m))
        elif op == 'xml' and quiet:
            x = util.toXml(doc)
            got = [(int(c.get('id'), 16), int(c.get('offset')), int(c.get('size'))) for c in x.iter() if c is not x]
            same(got, [(n.id, n.offset, n.size) for n in flat], w + 'XML')
            same(int(x.get('offset')), base, w + 'offset in XML')
        elif op == 'value':
            for e in doc:
                n = next(n for n in nodes if n.offset == e.offset)
                if n.kids is not None:
                    check_tree(e.value, n.kids, values=False, where=w)
        elif op == 'gc':
            for e, n in pairs():
                e.gc(recurse=bool(i & 1))
        elif op == 'dump':
            for e in doc:
                n = next(n for n in nodes if n.offset == e.offset)
                if not any(isinstance(m.payload, Hole) for m in n.walk()):
                    d = e.dump()
                    if n.kids is None:
                        same(ref.canon(d), ref.canon(n.value()), w + 'dump of %r' % n)
                    else:
                        same(set(d), {k.name for k in n.kids}, w + 'dump of %r' % n)
    check_tree(iter(doc), nodes, values=False, where='at last: ')


SUBS = [
    Sub('histories', history, cases(), quick=2400, thorough=60000, shards=6,
        rule='random documents with holes, sources and histories'),
]
ASSUMPTIONS = ['payloads up to 2**55 bytes in streams, up to 2**42 in (sparse) files, as far as the file system lets them be',
               'schemata do not ask for huge elements to be precached']
