"""C22: Schema.verify() of documents with no fault and with one fault put at a random place (an ID that is not in the schema,
a float or date of a wrong length, malformed UTF-8, an invalid ID byte), in random sequences of calls on one schema, other
uses of it in between; non-trivial = a fault, or a valid document of at least four elements."""
import io

from hypothesis import strategies as st

from .. import gen, ref, scale
from ..lib import raises, schema
from ..run import Sub, expect, same
from .c08 import admissible, flagged, streams

BAD_UTF8 = st.one_of(
    st.sampled_from([b'\xff', b'\xc3', b'\x80', b'\xe2\x82', b'\xf0\x9f\x98', b'\xed\xa0\x80', b'\xc0\xaf', b'\xf8\x88\x80',
                     b'abc\xe9', b'\xfe\xff\0a', b'\xff\xfea', b'a' * 200 + b'\xa9', b'\xe2\x28\xa1', b'\xf4\x90\x80\x80']),
    st.tuples(st.sampled_from([b'a' * 1000, b'text' * 1200, b'\xc3\xa9' * 2100, 'käse\U0001f600'.encode() * 9000]),
              st.sampled_from([b'\xff', b'\xc3', b'\x80', b'\xe2\x82', b'\xed\xa0\x80']), st.sampled_from([b'', b'x', b'y' * 5000])
              ).map(b''.join),
    st.tuples(gen.UNI, st.sampled_from([b'\xff', b'\xc3', b'\xf0\x9f', b'\x80']), gen.UNI).map(
        lambda x: x[0].encode() + x[1] + (b'z' + x[2].encode() if x[1] != b'\x80' else b'')))


def known_only(trees, spec):
    """Without the elements that are not in the schema."""
    return [('m', t[1], known_only(t[2], spec), t[3], t[4]) if t[0] == 'm' else t
            for t in trees if t[1] in spec.by_id]


def containers(trees):
    """Number of lists of elements: the document and every master."""
    return 1 + sum(containers(t[2]) for t in trees if t[0] == 'm')


def put(trees, where, at, new):
    """Put `new` in the list number `where` (in file order), before the element number `at`."""
    count = [0]

    def walk(ts):
        mine = count[0]
        count[0] += 1
        out = [('m', t[1], walk(t[2]), t[3], t[4]) if t[0] == 'm' else t for t in ts]
        if mine == where:
            out.insert(at % (len(out) + 1), new)
        return out
    return walk(trees)


def valid_text(b):
    try:
        b.partition(b'\0')[0].decode('utf-8')
        return True
    except UnicodeDecodeError:
        return False


@st.composite
def doc(draw, lit):
    spec = ref.Spec(lit)
    trees = gen.draw_trees(draw, spec, unknowns=False, anywhere=draw(st.booleans()), skip=('EBML',), max_nodes=20)
    trees = trees * draw(st.sampled_from([1, 1, 1, 3]))
    if 'EBML' in spec.els and draw(st.integers(0, 3)):
        trees = [gen.header_tree(draw, spec)] + trees
    if draw(st.booleans()):
        trees = flagged(draw, trees, 5)
    return known_only(trees, spec)


@st.composite
def fault(draw, lit):
    spec = ref.Spec(lit)
    kinds = ['unknown', 'unknown', 'byte']
    for t, k in (('float', 'float'), ('date', 'date'), ('uni', 'text')):
        kinds += [k] * 2 * any(e['t'] == t for e in lit['els'])
    k = draw(st.sampled_from(kinds))
    if k == 'unknown':
        leaf = ('l', draw(gen.unknown_ids(spec)), draw(gen.BIN), draw(gen.WIDTHS))
    elif k == 'byte':
        leaf = ('l', draw(st.integers(1, 15)), draw(gen.BIN), draw(gen.WIDTHS))
        k += draw(st.sampled_from(['', '', '0']))
    else:
        t = dict(float='float', date='date', text='uni')[k]
        e = draw(st.sampled_from([e for e in lit['els'] if e['t'] == t]))
        if k == 'float':
            pl = draw(st.binary(max_size=20).filter(lambda b: len(b) not in (0, 4, 8)))
        elif k == 'date':
            pl = draw(st.binary(max_size=20).filter(lambda b: len(b) != 8))
        else:
            pl = draw(BAD_UTF8.filter(lambda b: not valid_text(b)))
        leaf = ('l', e['id'], pl, draw(gen.WIDTHS))
    return (k, leaf, draw(st.one_of(st.integers(0, 3), st.integers(0, 60))), draw(st.integers(0, 20)))


@st.composite
def histories(draw):
    lit = draw(gen.specs(max_els=10, min_masters=draw(st.integers(0, 2))))
    calls = []
    for _ in range(draw(st.sampled_from([1, 1, 2, 4]))):
        calls.append((draw(doc(lit)), draw(st.one_of(st.none(), fault(lit), fault(lit))),
                      draw(st.sampled_from(['bytes', 'bytes', 'bytes', 'bytearray'])),
                      draw(st.sampled_from([None, None, 'load', 'dump', 'encode', 'gc', 'again']))))
    return lit, calls


def build(lit, trees, f):
    spec = ref.Spec(lit)
    trees = admissible(trees, spec)
    if f is None:
        return ref.write_doc(trees, spec)
    k, leaf, where, at = f
    where %= containers(trees)
    trees = put(trees, where, at, leaf)
    data, nodes = ref.write_doc(trees, spec)
    if k == 'byte0':
        i = [n for n in ref.flat(nodes) if n.id == leaf[1]][0].offset
        data = data[:i] + b'\0' + data[i + 1:]
    return data, nodes


def verdict(sch, data, bad, msg):
    before = bytes(data)
    if bad:
        e = raises(sch.verify, data)
        expect(e is not None, msg, 'was accepted:', bytes(data))
    else:
        try:
            r = sch.verify(data)
        except Exception as e:
            raise AssertionError('%s was refused (%s: %s): %r' % (msg, type(e).__name__, e, bytes(data)))
        expect(r is None or r, 'verify() returned', r)
    same(bytes(data), before, 'data afterwards')


def check(case, note):
    lit, calls = case
    spec = ref.Spec(lit)
    sch = schema(spec)
    for i, (trees, f, how, between) in enumerate(calls):
        data, nodes = build(lit, trees, f)
        if how == 'bytearray':
            data = bytearray(data)
        msg = 'call %d, %s' % (i, 'valid document' if f is None else 'document with fault %r' % (f[:2],))
        verdict(sch, data, f is not None, msg)
        if between == 'again':
            verdict(sch, data, f is not None, msg + ', again')
        elif between == 'load':
            d = sch.loads(bytes(data))
            raises(lambda: [e.value for e in d])
        elif between == 'dump':
            raises(lambda: sch.loads(bytes(data)).dump())
        elif between == 'gc':
            raises(lambda: sch.load(io.BytesIO(data)).gc(recurse=True))
        elif between == 'encode':
            raises(lambda: sch.encodes({'NoSuch': 1}))
        if f is None:
            note('valid')
            note.nt(sum(1 for _ in ref.flat(nodes)) >= 4)
        else:
            note('fault ' + f[0])
            note('fault below the root' if f[2] % containers(trees) else 'fault at the root')
            note.nt()


def nested(case, note):
    """A fault deep in a chain of masters, after many valid siblings."""
    (lit, trees), f, siblings, depth_first = case
    spec = ref.Spec(lit)
    sch = schema(spec)
    trees = known_only(trees, spec)

    def put_deep(ts, leaf):
        ms = [i for i, t in enumerate(ts) if t[0] == 'm']
        if not ms:
            return (list(ts) * siblings) + [leaf] if depth_first else [leaf] + list(ts) * siblings
        i = ms[-1]
        return list(ts[:i]) + [('m', ts[i][1], put_deep(ts[i][2], leaf), ts[i][3], ts[i][4])] + list(ts[i + 1:])
    data, _ = ref.write_doc(trees, spec)
    verdict(sch, data, False, 'valid document')
    data, _ = ref.write_doc(put_deep(trees, f[1]), spec)
    verdict(sch, data, True, 'document with fault %r' % (f[:2],))
    note('fault ' + f[0])
    note.nt()


@st.composite
def deep(draw):
    d = draw(gen.deep_docs(40, unknowns=False))
    f = draw(fault(d[0]))
    return d, f, draw(st.integers(1, 5)), draw(st.booleans())


@st.composite
def live(draw):
    lit, trees = draw(streams().filter(lambda d: gen.count(d[1]) < 100))
    return lit, [(known_only(trees, ref.Spec(lit)), draw(st.one_of(st.none(), fault(lit))), 'bytes', 'again')]


SUBS = [
    Sub('histories', check, histories(), quick=2600, thorough=70000, shards=5, rule='random schemata, documents, faults, calls'),
    Sub('streams', check, live(), quick=600, thorough=15000, shards=2, rule='unknown-size masters in each other'),
    Sub('deep', nested, deep(), quick=400, thorough=8000, shards=2, rule='faults at the bottom of chains of masters'),
    scale.sub(scale.verify, [(s, f, n) for s in scale.SMALL for f in ('id', 'float', 'date', 'text') for n in (0, 200)]),
]
ASSUMPTIONS = ['bytes after the first NUL of a text are not part of its value', 'integer payloads of at most 8 bytes']
