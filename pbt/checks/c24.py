"""C24: all pairs of elements of two random documents (the second: the same, an edit of the first, or another one; the same
schema, an equal one or one with a difference), compared in random states of caching, with the verdict following from the
reference layout; non-trivial = two documents of at least three elements each."""
import io
import itertools
import types

from hypothesis import strategies as st

from .. import gen, ref, scale
from ..lib import check_tree, raises, schema
from ..run import Sub, expect, same
from .c06 import Opened, visible
from .c08 import admissible, documents, streams
from .c22 import known_only
from ebmlite import core

VALUED = ('int', 'uint', 'float', 'str', 'uni', 'date')


def all_elements(els, nodes):
    for e, n in zip(els, nodes):
        yield e, n
        if n.kids is not None:
            yield from all_elements(e, n.kids)


def verdict(a, b, same_schema):
    """True or False where the documentation says so, None otherwise."""
    if a.t == 'unknown' or b.t == 'unknown':
        if a.t != b.t:
            return None if (a.name, a.id) == (b.name, b.id) else False
        return a.id == b.id and a.payload == b.payload
    if not same_schema or (a.id, a.t, a.offset, a.size) != (b.id, b.t, b.offset, b.size):
        return False
    if a.t in VALUED:
        if a.payload == b.payload:
            return a.value() == b.value()       # (not for NaN)
        return None if a.value() == b.value() else False
    if a.kids is None:
        return True if a.payload == b.payload else None
    return None


def payloads(n):
    return n.payload if n.kids is None else [(k.id, k.start - k.offset, payloads(k)) for k in n.kids]


def compare(x, y, want, msg):
    """All ways to ask."""
    got = x == y
    expect(isinstance(got, bool), msg, ': == gives', got)
    same(y == x, got, msg + ': symmetry')
    same(x != y, not got, msg + ': !=')
    same(y != x, not got, msg + ': != the other way')
    if want is not None:
        same(got, want, msg + ': ==')
    return got


def edit(trees, spec, how, k):
    """An edit of one leaf (or of the order) that keeps the layout, if it can."""
    count = [0]
    total = sum(1 for t in flat(trees) if t[0] == 'l')

    def leaf(t):
        b = t[2]
        if how[0] == 'grow':
            b += b'text' * (how[1] // 4)
        elif how == 'byte' and b:
            i = k // 7 % len(b)
            b = b[:i] + bytes([b[i] ^ (1 << k % 7)]) + b[i + 1:]
        elif how == 'last' and b:
            b = b[:-1] + bytes([b[-1] ^ 1])
        elif how == 'shorter':
            b = b[:-1]
        elif how == 'longer':
            b = b + b'\0'
        elif how == 'pad':
            b = b'\0' + b[:-1] if b else b
        elif how == 'id':
            others = [e['id'] for e in spec.els.values() if e['t'] != 'master' and
                      len(ref.id_bytes(e['id'])) == len(ref.id_bytes(t[1])) and e['id'] != t[1]]
            if others:
                return ('l', others[k % len(others)], b, t[3])
        elif how == 'width':
            return ('l', t[1], b, (t[3] or 1) % 8 + 1)
        return ('l', t[1], b, t[3])

    def walk(ts):
        out = []
        for t in ts:
            if t[0] == 'm':
                out.append(('m', t[1], walk(t[2]), t[3], t[4]))
            else:
                out.append(leaf(t) if total and count[0] == k % total else t)
                count[0] += 1
        return out
    if how == 'swap':
        return trees[::-1]
    if how == 'prefix' and trees:
        return trees[:1] + trees
    if how == 'unsized':
        return admissible([('m', t[1], t[2], t[3], True) if t[0] == 'm' else t for t in trees], spec)
    return walk(trees)


def flat(trees):
    for t in trees:
        yield t
        if t[0] == 'm':
            yield from flat(t[2])


def other_schema(lit, how, k):
    """(spec, is it an equal schema?)"""
    lit2 = dict(els=[dict(e) for e in lit['els']], kids={a: list(b) for a, b in lit['kids'].items()})
    e = lit2['els'][k % len(lit2['els'])]
    if how == 'equal':
        return ref.Spec(lit2), True
    if how in ('multiple', 'mandatory'):
        e[how] = not e.get(how)
    elif how == 'type':
        swap = dict(int='uint', uint='int', str='bin', uni='str', bin='str')
        e = [x for x in lit2['els'] if x['t'] in swap]
        if not e:
            return ref.Spec(lit2), True
        e = e[k % len(e)]
        e['t'] = swap[e['t']]
        e.pop('length', None)
    elif how == 'less':
        e = [x for x in lit2['els'] if x['t'] in ('bin', 'bin', 'str', 'uint') and x['name'] != 'EBML' and x['id'] not in
             (0x4282, 0x4286, 0x42f7, 0x42f2, 0x42f3, 0x4287, 0x4285)]
        e = [x for x in e if x['t'] == 'bin'] or e
        if not e:
            return ref.Spec(lit2), True
        e = e[k % len(e)]
        lit2['els'].remove(e)
        lit2['kids'] = {a: [x for x in b if x != e['name']] for a, b in lit2['kids'].items()}
    elif how == 'more':
        spec = ref.Spec(lit)
        lit2['els'].append(dict(name='Unheard', id=next(i for i in itertools.chain(
            range(0xFE, 0x80, -1), range(0x407F, 0x7FFF)) if i not in spec.by_id), t='bin'))
        lit2['kids'][None].append('Unheard')
    return ref.Spec(lit2), False


def pairs(case, note):
    (lit, trees), how, k, schema_how, trees_b, src, states = case
    spec = ref.Spec(lit)
    sch = schema(spec)
    if how == 'other':
        tb = trees_b
    else:
        tb = trees if how == 'same' else edit(trees, spec, how, k)
    if how != 'same':
        tb = admissible(tb, spec)
    spec_b, eq = (spec, True) if schema_how == 'same' else other_schema(lit, schema_how, k)
    if not eq:
        tb = known_only(tb, spec_b) if schema_how == 'more' else tb
        # an unknown size may not end at the same place in another schema
        tb = admissible(tb, spec_b)
    sch_b = sch if schema_how == 'same' else schema(spec_b, fresh=True)
    same(sch == sch_b, eq, 'equality of the schemata (%s)' % schema_how)
    data, nodes = ref.write_doc(trees, spec)
    data_b, nodes_b = ref.write_doc(tb, spec_b)
    o, o_b = Opened(sch, data, src[0]), Opened(sch_b, data_b, src[1])
    with o as doc, o_b as doc_b:
        vis, vis_b = visible(nodes, o.shows_header), visible(nodes_b, o_b.shows_header)
        A = list(all_elements(doc, vis))[:24]
        B = list(all_elements(doc_b, vis_b))[:24]
        for i, what in states:
            for lst, d in ((A, doc), (B, doc_b)):
                if not lst:
                    continue
                e = lst[i % len(lst)][0]
                if what == 'value':
                    e.value
                elif what == 'gc':
                    e.gc(recurse=True)
                elif what == 'seek':
                    d.stream.seek(i % (len(data) + 1))
                elif what == 'dump':
                    e.dump()
        for i, (x, n) in enumerate(A):
            expect(x == x and not x != x, 'element', n, 'is not equal to itself')
            for j, (y, m) in enumerate(B):
                want = verdict(n, m, eq)
                if want is None and how == 'same' and eq and i == j and n.t != 'unknown':
                    want = True
                if want is None and eq and n.kids is not None and payloads(n) == payloads(m):
                    want = True
                compare(x, y, want, '%r of the first and %r of the second document' % (n, m))
            for y, m in A[i + 1:]:
                compare(x, y, verdict(n, m, True), '%r and %r of one document' % (n, m))
        compare(doc, doc_b, None, 'documents')
        expect(doc == doc, 'document is not equal to itself')
        check_tree(iter(doc), vis, where='first document afterwards: ')
        check_tree(iter(doc_b), vis_b, where='second document afterwards: ')
        for lst in (A, B):
            for e, n in lst:
                if n.kids is None:
                    same(ref.canon(e.value), ref.canon(n.value()), 'value of %r afterwards' % n)
    note(how)
    note('schema ' + schema_how)
    note.nt(len(A) > 2 and len(B) > 2)


class Partial:
    """Has some of the attributes of an element."""
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __repr__(self):
        return 'Partial(%s)' % ', '.join(self.__dict__)


def foreign(case, note):
    (lit, trees), k = case
    spec = ref.Spec(lit)
    sch = schema(spec)
    data, nodes = ref.write_doc(trees, spec)
    doc = sch.load(io.BytesIO(data), headers=True)
    note.nt(len(nodes) > 0)
    for e, n in list(all_elements(doc, nodes))[:20]:
        others = [None, True, 0, n.id, n.offset, n.name, '', b'', bytes(n.payload or b''), [], {}, (), object(), type(e), core.Element,
                  sch, 1.5, float('nan'), io.BytesIO(data), Exception(), types, types.SimpleNamespace(), NotImplemented,
                  {'id': n.id}, range(3), ref.canon(n.value()) if n.kids is None else 'x', n.value() if n.kids is None else 0,
                  Partial(id=n.id), Partial(name=n.name), Partial(name=n.name, id=n.id), Partial(dtype=e.dtype, id=n.id),
                  Partial(dtype=e.dtype, id=n.id, offset=n.offset), Partial(dtype=e.dtype, id=n.id, offset=n.offset, size=n.size),
                  Partial(dtype=e.dtype, id=n.id, offset=n.offset + 1, size=n.size, schema=sch),
                  Partial(dtype=e.dtype, id=n.id, offset=n.offset, size=n.size, schema=None), doc]
        for o in others:
            try:
                r = [e == o, o == e, not e != o, not o != e]
            except Exception as x:
                raise AssertionError('comparing %r with %r raised %r' % (n, o, x))
            same(r, [False] * 4, '%r compared with %r' % (n, o))
        expect(e not in others[:12], 'element in a list of other things')
        note('type ' + n.t)
    check_tree(iter(doc), nodes, where='afterwards: ')


def nan(case, note):
    """Values that are not equal to themselves, and values that compare equal though written otherwise."""
    payload, fixed = case
    note.nt()
    spec = ref.Spec(dict(els=[dict(name='F', id=0x81, t='float', precache=fixed), dict(name='M', id=0x82, t='master')],
                         kids={None: ['F', 'M'], 'M': ['F']}))
    data, nodes = ref.write_doc([('l', 0x81, payload, None), ('m', 0x82, [('l', 0x81, payload, None)], None, False)], spec)
    a, b = schema(spec).loads(data), schema(spec, fresh=True).loads(data)
    x, y = a[0], b[0]
    is_nan = x.value != x.value
    for e in (x, y):
        expect(e == e and not e != e, 'element is not equal to itself')
    compare(x, y, not is_nan, 'float %r' % x.value)
    compare(x, a[1][0], False, 'elements at different offsets')
    compare(a[1], b[1], True, 'masters')


NEAR_IDS = dict(int=0x81, uint=0x82, float=0x83, str=0x84, uni=0x85, date=0x86, bin=0x87, unknown=0xF1)
NEAR_TEXT = ['a', 'A', 'b', ' ', '\t', '\n', '0', '1', '.', '\0', '-', '_', '~', '\r', '\x1f', '\x7f']
NEAR_UNI = NEAR_TEXT + ['\xe9', '\xc9', 'e\u0301', '\xa0', '\u2003', '\u212b', '\xc5', '\ufb01', 'fi', '\xdf', 'ss', '\u200b', '\ufeff',
                        '\uff21', '\U0001d400', '\u0660']


@st.composite
def near_cases(draw):
    """Two payloads of one length and type with values as close together as the type allows."""
    t = draw(st.sampled_from(['int', 'uint', 'float', 'float', 'float', 'str', 'uni', 'date', 'unknown', 'bin']))
    if t in ('str', 'uni'):
        parts = draw(st.lists(st.sampled_from(NEAR_UNI if t == 'uni' else NEAR_TEXT[:9]), max_size=8))
        i = draw(st.integers(0, len(parts)))
        x = draw(st.sampled_from(NEAR_UNI if t == 'uni' else NEAR_TEXT[:12]))
        y = draw(st.sampled_from([c for c in (NEAR_UNI if t == 'uni' else NEAR_TEXT[:12])
                                  if len(c.encode()) == len(x.encode())] + [x.swapcase(), x + '\0', x[:-1] + ' ']))
        a, b = (''.join(parts[:i] + [z] + parts[i:]).encode() for z in (x, y))
        n = max(len(a), len(b)) + draw(st.integers(0, 1))
        a, b = a.ljust(n, b'\0'), b.ljust(n, b'\0')
    else:
        n = {'float': draw(st.sampled_from([4, 8, 8])), 'date': 8}.get(t) or draw(st.integers(1, 8))
        v = int.from_bytes(draw(st.one_of(gen.payload(t), st.binary(min_size=n, max_size=n)) if t != 'unknown' else
                                st.binary(min_size=n, max_size=n)), 'big') % (1 << 8 * n)
        if t == 'float' and draw(st.booleans()):
            v &= (1 << draw(st.integers(1, 8 * n))) - 1     # small numbers, subnormal ones
        if draw(st.integers(0, 3)) == 0:
            v = draw(st.sampled_from([0, 1, -1, -2, (1 << 8 * n - 1) - 1, 1 << 8 * n - 1])) % (1 << 8 * n)
        d = draw(st.one_of(st.integers(-3, 3), st.sampled_from([1000, -1000, 999, 1001, 10 ** 9, 10 ** 6, 3600 * 10 ** 9]),
                           st.sampled_from([k * m for k in ((1 << 61) - 1, (1 << 31) - 1, 1 << 32, (1 << 32) - 1) for m in (1, -1)]),
                           st.integers(0, 8 * n - 1).map(lambda k: 1 << k), st.just(-2 * v), st.just(-2 * v - 1)))
        a, b = v.to_bytes(n, 'big'), ((v + d) % (1 << 8 * n)).to_bytes(n, 'big')
        if draw(st.integers(0, 9)) == 0:
            b = a[::-1]
        if draw(st.integers(0, 5)) == 0:
            b = bytes(n)
    return t, a, b, draw(st.booleans()), draw(st.booleans()), draw(st.integers(0, 7))


def near(case, note):
    """Elements that differ in nothing but a value next to each other."""
    t, a, b, precache, unsized, state = case
    spec = ref.Spec(dict(els=[dict(name='E' + k, id=v, t=k, precache=precache) for k, v in NEAR_IDS.items() if k != 'unknown'] + [
        dict(name='M', id=0x90, t='master')], kids={None: ['M'] + ['E' + k for k in NEAR_IDS if k != 'unknown'],
                                                    'M': ['E' + k for k in NEAR_IDS if k != 'unknown']}))
    note(t)
    note('differ' if a != b else 'same')
    note.nt(a != b)
    docs = []
    for p, fresh in ((a, False), (b, bool(state & 1))):
        tree = [('l', NEAR_IDS[t], p, None), ('m', 0x90, [('l', NEAR_IDS[t], p, None)] * (t != 'unknown' or not unsized), None, unsized)]
        data, nodes = ref.write_doc(tree, spec)
        docs.append(list(all_elements(schema(spec, fresh=fresh).loads(data), nodes)))
    for (x, n), (y, m) in zip(*docs):
        if n.kids is None:
            if state & 2:
                x.value
            if state & 4:
                y.value, y.gc()
            compare(x, y, verdict(n, m, True), '%r %s and %s' % (n, a.hex(), b.hex()))
            expect(x == x and y == y, 'element is not equal to itself')
            same([ref.canon(x.value), ref.canon(y.value)], [ref.canon(n.value()), ref.canon(m.value())], 'values afterwards')


DOCS = st.one_of(gen.docs(max_nodes=12, max_kids=4), documents(), streams().filter(lambda d: gen.count(d[1]) < 40))


@st.composite
def cases(draw):
    lit, trees = draw(DOCS)
    spec = ref.Spec(lit)
    how = draw(st.sampled_from(['same', 'same', 'byte', 'byte', 'last', 'shorter', 'longer', 'pad', 'id', 'id', 'width', 'swap',
                                'prefix', 'unsized', 'other']))
    k = draw(st.integers(0, 5000))
    leaves = [t for t in flat(trees) if t[0] == 'l']
    long = [i for i, t in enumerate(leaves) if spec.type_of(t[1]) in ('str', 'uni', 'bin', 'unknown')]
    if long and draw(st.integers(0, 4)) == 0:
        # a difference, if any, at the end of a large element
        i = draw(st.sampled_from(long))
        k = i + len(leaves) * draw(st.integers(0, 50))
        trees = edit(trees, spec, ('grow', draw(st.sampled_from([300, 1100, 9000, 70000]))), k)
        how = draw(st.sampled_from(['same', 'last', 'last', 'last', 'byte']))
        trees = admissible(trees, spec)
    other = gen.draw_trees(draw, spec, max_nodes=10, skip=('EBML',)) if how == 'other' else None
    sh = draw(st.sampled_from(['same', 'same', 'equal', 'equal', 'multiple', 'mandatory', 'type', 'type', 'more', 'less', 'less']))
    if sh == 'type':
        # payloads must be readable values of either type
        trees = [t for t in known_only(trees, spec)]
        ok = lambda t: (t[0] == 'm' and all(ok(x) for x in t[2])) or (t[0] == 'l' and all(31 < c < 127 for c in t[2]) and
                                                                      spec.type_of(t[1]) in ('str', 'uni', 'bin', 'int', 'uint'))
        trees = [t for t in trees if ok(t)] or [t for t in trees if t[1] == 0x1A45DFA3]
        trees = admissible(trees, spec)
        how, other = 'same', None
    src = draw(st.tuples(*[st.sampled_from(['loads', 'loads', 'bytesio', 'path', 'stream'])] * 2))
    return (lit, trees), how, k, sh, other, src, draw(st.lists(st.tuples(
        st.integers(0, 50), st.sampled_from(['value', 'gc', 'seek', 'dump'])), max_size=6))


def readable(case):
    """The edits may make values unreadable (text, floats, dates): those cases are not of the property's domain."""
    (lit, trees), how, k, sh, other, src, states = case
    spec = ref.Spec(lit)
    for t in flat(edit(trees, spec, how, k) if how not in ('same', 'other') else []):
        if t[0] == 'l':
            ty = spec.type_of(t[1])
            if len(t[2]) > 8 and ty in ('int', 'uint'):
                return False
            if raises(ref.decode, ty, t[2]) is not None or ty == 'float' and len(t[2]) not in (0, 4, 8) or \
                    ty == 'date' and len(t[2]) != 8:
                return False
            if ty == 'str' and any(c > 126 for c in t[2]):
                return False
    return True


SUBS = [
    Sub('pairs', pairs, cases().filter(readable), quick=2400, thorough=60000, shards=6,
        rule='random pairs of documents, all pairs of their elements'),
    Sub('foreign', foreign, st.tuples(gen.docs(max_nodes=10), st.integers(0, 9)), quick=400, thorough=6000, shards=2,
        rule='elements compared with other objects'),
    Sub('not-a-number', nan, st.tuples(st.one_of(gen.payload('float'), st.sampled_from(
        [bytes.fromhex(x) for x in ('7ff8000000000000', 'fff8000000000000', '7ff0000000000001', '7fc00000', 'ffc00001', '7f800000',
                                    '8000000000000000', '0000000000000000', '80000000', '')])), st.booleans()),
        quick=300, thorough=3000, shards=1, rule='float payloads, NaN above all'),
    Sub('near', near, near_cases(), quick=2500, thorough=60000, shards=4,
        rule='elements that differ in a value next to each other; non-trivial = the payloads differ'),
    scale.sub(scale.equality),
]
ASSUMPTIONS = ['equality of masters and of binary elements with the same layout but other contents is not specified (documented)',
               'objects that imitate every attribute of an element but the value are not compared']
