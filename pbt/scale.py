"""Documents beyond the dimensions of random ones (nesting, number of elements, of values, lengths), enumerated, and the relations
of the properties checked on them: what holds for small documents must not end at some depth or count."""
import io
import re
from xml.etree import ElementTree as ET

from . import ref
from .lib import MasterElement, check_element, check_tree, content, must_raise, schema
from .run import Sub, expect, same
from ebmlite import util
from ebmlite.xml_codecs import BINARY_CODECS

LIT = dict(els=[dict(name='Box', id=0x4080, t='master', multiple=True), dict(name='Num', id=0x81, t='uint', multiple=True),
                dict(name='Sig', id=0x82, t='int', multiple=True), dict(name='Real', id=0x4083, t='float', multiple=True),
                dict(name='Word', id=0x84, t='str', multiple=True), dict(name='Text', id=0x204085, t='uni', multiple=True),
                dict(name='Blob', id=0x86, t='bin', multiple=True), dict(name='Time', id=0x87, t='date', multiple=True),
                dict(name='Void', id=0xEC, t='void', multiple=True, glob=True)],
           kids={None: ['Box', 'Num', 'Sig', 'Real', 'Word', 'Text', 'Blob', 'Time', 'Void'],
                 'Box': ['Box', 'Num', 'Sig', 'Real', 'Word', 'Text', 'Blob', 'Time']})
UNKNOWN = 0x10305070


def large(shape):
    """A schema literal with many elements, or deep ones."""
    kind, n = shape
    els, kids = [], {None: []}
    types = ['uint', 'int', 'float', 'str', 'uni', 'bin', 'date']

    def add(i, t, parent, **kw):
        name = 'E%d%s' % (i, t.title())
        e = dict(name=name, id=(0x81 + i) if i < 100 else 0x4000 + 40 + i if i < 8000 else 0x200000 + i, t=t, multiple=i % 3 > 0,
                 mandatory=i % 5 == 0, **kw)
        if t in ('uint', 'str', 'bin') and i % 4 == 1:
            e['length'] = 8 + i % 3 if t != 'uint' else 1 + i % 8
        els.append(e)
        kids.setdefault(parent, []).append(name)
        return name
    if kind == 'many':
        top = add(0, 'master', None)
        for i in range(1, n):
            add(i, types[i % 7], [None, top][i % 2], **(dict(glob=True) if i % 2 == 0 and i % 10 == 0 else {}))
    elif kind == 'deep':
        at = None
        for i in range(0, 2 * n, 2):
            below = add(i, 'master', at)
            add(i + 1, types[i // 2 % 7], below)
            at = below
    else:
        for i in range(0, n, 12):
            top = add(i, 'master', None)
            for k in range(1, 12):
                add(i + k, types[(i + k) % 7], top)
    return dict(els=els, kids=kids)


LARGE = [('many', 300), ('many', 2500), ('deep', 30), ('deep', 110), ('masters', 120), ('masters', 1800)]


def filled(spec, sized=True):
    """A document literal with every element of the schema that has a place, once."""
    def make(name, at):
        e = spec.els[name]
        if e['t'] == 'master':
            return ('m', e['id'], [make(k, at) for k in spec.kids.get(name, ())], None, False)
        p = {'uint': b'\x05', 'int': b'\xfb', 'float': b'\x3f\xc0\0\0', 'str': b'text', 'uni': 'é'.encode(), 'bin': b'\0\1',
             'date': b'\0\0\0\1\2\3\4\5'}[e['t']]
        return ('l', e['id'], p, None)
    return [make(k, None) for k in spec.kids[None]]


def leaf(i, unknown=True):
    """The i-th leaf: types in turn, values that differ."""
    k = i % (8 if unknown else 7)
    if k == 0:
        return ('l', 0x81, ref.enc_uint(i * 7919), None)
    if k == 1:
        return ('l', 0x82, ref.enc_int(-i * 104729), None)
    if k == 2:
        return ('l', 0x4083, ref.enc_float(i + 0.25, 8), None)
    if k == 3:
        return ('l', 0x84, b'word %d' % i, None)
    if k == 4:
        return ('l', 0x204085, ('\u00e9 %d \u20ac' % i).encode(), None)
    if k == 5:
        return ('l', 0x86, bytes([i % 256, 0, 255 - i % 256]) * (1 + i % 3), None)
    if k == 6:
        return ('l', 0x87, (i * 10**13).to_bytes(8, 'big', signed=True), None)
    return ('l', UNKNOWN, b'unknown %d' % i, None)


def box(kids, unk=False):
    return ('m', 0x4080, kids, None, unk)


def bush(n, levels, unknown, at=0):
    if not levels:
        return [leaf(at * n + i, unknown) for i in range(n)]
    return [box(bush(n, levels - 1, unknown, at * n + i)) for i in range(n)]


def trees(shape, unknown=True):
    kind, n = shape[:2]
    if kind == 'deep':
        t = box([leaf(n, unknown)])
        for i in range(n - 1):
            t = box([leaf(i, unknown), t] if i % 5 == 0 else [t])
        return [t]
    if kind == 'wide':
        return [leaf(5), box([leaf(i, unknown) if i % 50 else box([leaf(i, unknown)]) for i in range(n)]), leaf(3)]
    if kind == 'roots':
        return [leaf(i, unknown) if i % 50 else box([leaf(i, unknown)]) for i in range(n)]
    if kind == 'bush':
        return bush(n, 3, unknown)
    assert kind == 'long'
    text = ('%08d\u00fc' * (n // 10 + 1) % tuple(range(n // 10 + 1))).encode()
    return [box([('l', 0x84, bytes(32 + i * 31 % 95 for i in range(n)), None), ('l', 0x204085, text, None), leaf(0),
                 ('l', 0x86, bytes((i * i + i // 251) % 256 for i in range(n)), None), leaf(1)])] + (
                     [('l', UNKNOWN, bytes((i * 3 + i // 253) % 256 for i in range(n)), None)] if unknown else []) + [leaf(4)]


SHAPES = [('deep', 70), ('deep', 120), ('wide', 300), ('wide', 4500), ('roots', 300), ('roots', 4500), ('bush', 9),
          ('long', 70000), ('long', 1200000)]
SMALL = [s for s in SHAPES if s[0] != 'long' or s[1] < 10**5]


def make(shape, unknown=True):
    spec = ref.Spec(LIT)
    ts = trees(shape, unknown)
    data, nodes = ref.write_doc(ts, spec)
    return spec, schema(spec), data, nodes


def pairs(nodes):
    return [(n.name, pairs(n.kids) if n.kids is not None else n.value()) for n in nodes]


def grouped(nodes):
    """As dictionaries of lists, and the nodes in the order these give."""
    out = {}
    for n in nodes:
        out.setdefault(n.name, []).append(grouped(n.kids) if n.kids is not None else n.value())
    return out


def encode(case, note):
    note.nt()
    spec, sch, data, nodes = make(case, False)
    same(bytes(sch.encodes(pairs(nodes))), data, 'name and value pairs encoded')
    d = grouped(nodes)
    got, _ = ref.read_doc(bytes(sch.encodes(d)), spec), None
    same(ref.dump(got), ref.dump(nodes), 'dictionaries encoded')


def parse(case, note):
    note.nt()
    spec, sch, data, nodes = make(case)
    check_tree(sch.loads(data), nodes)


def dump(case, note):
    note.nt()
    spec, sch, data, nodes = make(case, False)
    got = sch.loads(data).dump()

    def canon(v):
        return {k: [canon(x) for x in l] for k, l in v.items()} if isinstance(v, dict) else ref.canon(v)
    same(canon(got), ref.dump(nodes), 'dump')
    raw = bytes(sch.encodes(got))
    same(canon(sch.loads(raw).dump()), ref.dump(nodes), 'dump of the encoded dump')
    same(bytes(sch.encodes(sch.loads(raw).dump())), raw, 'encoded again')


def unsized(case, note):
    """Every master that is last in its parent, of unknown size."""
    note.nt()
    spec = ref.Spec(LIT)
    ts = trees(case)
    if case[0] == 'wide':
        ts = ts[:2]

    def mark(ts):
        return [(t[0], t[1], mark(t[2]) if i == len(ts) - 1 else t[2], t[3], i == len(ts) - 1) if t[0] == 'm' else t
                for i, t in enumerate(ts)]

    def known(ts):
        return [(t[0], t[1], known(t[2]), t[3], t[4]) if t[0] == 'm' else t for t in ts if t[1] != UNKNOWN]
    data, nodes = ref.write_doc(known(mark(ts)), spec)
    expect(any(n.unk for n in ref.flat(nodes)), 'a master of unknown size')
    check_tree(schema(spec).loads(data), nodes)


def caching(case, note):
    note.nt()
    spec, sch, data, nodes = make(case)
    doc = sch.loads(data)
    roots = list(doc)
    for _ in range(2):
        by = []

        def grab(els, ns):
            for e, n in zip(els, ns):
                by.append((e, n))
                if n.kids is not None:
                    same(len(e), len(n.kids), 'len')
                    grab(e.value, n.kids)
        grab(roots, nodes)
        same(len(by), sum(1 for _ in ref.flat(nodes)), 'elements')
        for e, n in by[::-1]:
            check_element(e, n)
        for e, n in by:
            check_element(e, n)
            if n.kids is None:
                expect(e.value is e.value, 'a value once read is kept')
        for e, n in zip(roots, nodes):
            same(e.gc(recurse=True), sum(1 for _ in n.walk()), 'recursive gc of %r' % n)


def cut(case, note):
    """Cut behind the second but last leaf, in the middle of the last one, etc."""
    note.nt()
    shape, back = case
    spec, sch, data, nodes = make(shape)
    flat = list(ref.flat(nodes))
    end = len(data) - back
    doc = sch.loads(data[:end])
    got = []

    def crawl(els):
        for e in els:
            got.append(e)
            if isinstance(e, MasterElement):
                crawl(e)
    try:
        crawl(doc)
    except Exception:
        pass
    want = [n for n in flat if n.end <= end or (n.kids is not None and n.start <= end)]
    expect(len(want) <= len(got) <= len(want) + 1, 'number of elements of the intact part', len(want), len(got))
    for e, n in zip(got, want):
        check_element(e, n, n.end <= end)


def xml(case, note):
    from .checks.c11 import check_back, check_xml
    note.nt()
    spec, sch, data, nodes = make(case)
    doc = sch.loads(data)
    o = dict(offsets=True, sizes=True, types=True, ids=True, codec='hex', void=None)
    x = util.toXml(doc, binary_codec='hex')
    same(len(x), len(nodes), 'number of root elements')
    for c, n in zip(x, nodes):
        check_xml(c, n, o, BINARY_CODECS['hex'])
    out = io.BytesIO()
    util.xml2ebml(io.BytesIO(ET.tostring(x, encoding='utf-8')), out, sch)
    check_back(sch.loads(out.getvalue()), nodes, True)


def from_xml(case, note):
    """XML without sizes."""
    note.nt()
    spec, sch, data, nodes = make(case)

    def el(n):
        x = ET.Element(n.name, {'id': hex(n.id)} if n.t == 'unknown' else {})
        if n.kids is not None:
            x.extend([el(k) for k in n.kids])
        elif n.t in ('bin', 'unknown'):
            x.set('encoding', 'hex')
            x.text = n.payload.hex()
        else:
            x.set('value', str(n.value()))
        return x
    root = ET.Element(sch.document.__name__)
    root.extend([el(n) for n in nodes])
    out = io.BytesIO()
    same(util.xml2ebml(root, out, sch), len(out.getvalue()), 'returned size')
    same(ref.value_tree(ref.read_doc(out.getvalue(), spec)), ref.value_tree(nodes), 'what was written')


def indexing(case, note):
    note.nt()
    spec, sch, data, nodes = make(case)
    doc = sch.loads(data)
    for k in range(2):
        n = len(nodes)
        for i in {0, n // 2, n - 2, n - 1} & set(range(n)):
            check_element(doc[i], nodes[i])
        same(len(doc), n, 'len')
        must_raise(lambda: doc[n], 'index %d' % n, IndexError)


def raw(case, note):
    note.nt()
    spec, sch, data, nodes = make(case)

    def walk(els, ns, deep):
        for e, n in zip(els, ns):
            if n.kids is None or deep % 40 < 2:
                same(bytes(e.getRaw()), data[n.offset:n.end], 'raw of %r' % n)
                same(bytes(e.getRawValue()), data[n.start:n.end], 'raw value of %r' % n)
            if n.kids is not None:
                same(b''.join(bytes(k.getRaw()) for k in e), data[n.start:n.end], 'raw of the children of %r' % n)
                walk(e, n.kids, deep + 1)
    doc = sch.loads(data)
    same(b''.join(bytes(e.getRaw()) for e in doc), data, 'raw of the root elements')
    walk(doc, nodes, 0)


def below(nodes, limit, level=1):
    for n in nodes:
        if limit is None or level <= limit:
            yield n
            yield from below(n.kids or (), limit, level + 1)


LINE = re.compile(r'\s*(\d+)\s+(\d+) (\s*) (\w+) \(ID 0x([0-9A-F]+)\): \((\w+)\)(?: (\d+) subelements)?(?: (.*))?\Z', re.S)


def flat(case, note):
    note.nt()
    spec, sch, data, nodes = make(case)
    doc = sch.loads(data)
    for limit in (None, -1, 1, 2, 33, 65, 101):
        want = list(below(nodes, None if limit == -1 else limit))
        got = list(util.flatiter(doc) if limit is None else util.flatiter(doc, depth=limit))
        same([(e.id, e.offset) for e in got], [(n.id, n.offset) for n in want], 'elements with a limit of %s' % limit)
        for e, n in zip(got, want):
            check_element(e, n)


def printed(case, note):
    note.nt()
    spec, sch, data, nodes = make(case)
    doc = sch.loads(data)
    out = io.StringIO()
    util.pprint(doc, out=out, indent=' ')
    lines = out.getvalue().rstrip('\n').split('\n')[3:]
    want = list(ref.flat(nodes))
    same(len(lines), len(want), 'number of entries')
    for l, n in zip(lines, want):
        m = LINE.match(l)
        expect(m, 'entry', l[:200])
        same((int(m[1]), int(m[2]), len(m[3]), m[4], int(m[5], 16)), (n.offset, n.size, n.depth + 1, n.name, n.id), 'entry of %r' % n)
        if n.kids is not None:
            same(int(m[7]), len(n.kids), 'children of %r' % n)
        elif n.t not in ('bin', 'unknown', 'void'):
            same(m[8], repr(n.value()), 'value of %r' % n)


def put_last(ts, t, levels):
    """t as the last element, as deep as possible."""
    if levels and ts and any(x[0] == 'm' for x in ts):
        i = max(i for i, x in enumerate(ts) if x[0] == 'm')
        x = ts[i]
        return ts[:i] + [(x[0], x[1], put_last(x[2], t, levels - 1), x[3], x[4])] + ts[i + 1:]
    return ts + [t]


FAULTS = dict(id=('l', UNKNOWN, b'x', None), float=('l', 0x4083, b'abc', None), date=('l', 0x87, b'abcd', None),
              text=('l', 0x204085, b'\xff\xfe', None))


def verify(case, note):
    shape, fault, levels = case
    note.nt()
    spec = ref.Spec(LIT)
    sch = schema(spec)
    ts = trees(shape, False)
    sch.verify(ref.write_doc(ts, spec)[0])
    bad = ref.write_doc(put_last(ts, FAULTS[fault], levels), spec)[0]
    must_raise(lambda: sch.verify(bad), 'a document with a fault at its end')


def refuse(case, note):
    shape, fault = case
    note.nt()
    spec, sch, data, nodes = make(shape, False)
    good = pairs(nodes)
    bad = dict(name=('NotThere', 1), text=('Num', 'x'), number=('Word', 1), range=('Num', 1 << 64), master=('Box', 3))[fault]

    def put(ps):
        if ps and isinstance(ps[-1][1], list):
            return ps[:-1] + [(ps[-1][0], put(ps[-1][1]))]
        return ps + [bad]
    wrong = put(good)
    must_raise(lambda: sch.encodes(wrong), 'data with a fault at the end')
    lists = grouped(nodes)
    if fault in ('text', 'range', 'number', 'master'):
        lists.setdefault(bad[0], []).append(bad[1])
        must_raise(lambda: sch.encodes(lists), 'lists with a fault at the end')
    same(bytes(sch.encodes(good)), data, 'valid data afterwards')


def equality(case, note):
    note.nt()
    spec, sch, data, nodes = make(case)
    flat = list(ref.flat(nodes))
    one, two = list(util.flatiter(sch.loads(data))), list(util.flatiter(sch.loads(data)))
    for a, b in zip(one, two):
        expect(a == b and b == a and not a != b, 'equal elements', a, b)
    last = flat[-1]
    changed = bytearray(data)
    changed[last.end - (4 if last.t == 'date' else 1)] ^= 1
    three = list(util.flatiter(sch.loads(bytes(changed))))
    differ = last.t not in ('bin', 'void')
    same(three[-1] == one[-1], not differ, 'comparison of the last elements, which differ in a byte')
    for a, b in zip(one[:-1], three[:-1]):
        expect(a == b, 'equal elements', a, b)


def kept(case, note):
    """All values are read; then the source is closed."""
    note.nt()
    spec, sch, data, nodes = make(case)
    f = io.BytesIO(data)
    by = []

    def grab(els, ns):
        for e, n in zip(els, ns):
            by.append((e, n))
            if n.kids is not None:
                grab(e.value, n.kids)
            else:
                e.value
    grab(list(sch.load(f)), nodes)
    f.close()
    for e, n in by:
        check_element(e, n)
        if n.kids is not None:
            same([k.id for k in e.value], [k.id for k in n.kids], 'children of %r' % n)


def handler(case, note):
    note.nt()
    spec = ref.Spec(LIT)
    sch = schema(spec, fresh=True)
    data, nodes = ref.write_doc(trees(case), spec)
    calls = []
    usual = sch.UNKNOWN

    def mine(stream, offset, size, payloadOffset, eid=None, schema=None):
        calls.append((offset, size, payloadOffset, eid))
        return usual(stream, offset, size, payloadOffset, eid=eid, schema=schema)
    sch.UNKNOWN = mine
    els = list(util.flatiter(sch.loads(data)))
    want = [(n.offset, n.size, n.start, n.id) for n in ref.flat(nodes) if n.t == 'unknown']
    expect([c for c in dict.fromkeys(calls)] == want, 'calls of the handler', len(calls), len(want))
    same(content(e for e in els if e.id == UNKNOWN), ref.value_tree([n for n in ref.flat(nodes) if n.id == UNKNOWN]), 'unknown elements')


def sub(fn, cases=SHAPES, shards=2, rule='enumerated: deep, wide, long documents'):
    return Sub('scale', fn, cases=lambda: list(cases), shards=shards, rule=rule)
