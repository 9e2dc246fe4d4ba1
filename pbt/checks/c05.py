"""C05: random schemata and value trees encoded by the library, compared byte for byte with an independent writer;
non-trivial = at least two elements and a master, list, fixed length, explicit width or infinite flag."""
import os

from hypothesis import strategies as st

from .. import gen, ref, scale
from ..lib import must_raise, schema
from ..run import Sub, expect, same

# Data literals: ('v', lit) one value; ('many', [data...]) values of a repeatable element;
# ('d', [(name, by_id, data)...]) contents of a master as a dict; ('p', ...) as a list of pairs; ('n',) as None


def draw_leaf(draw, e):
    return ('v', draw(gen.value_lit(e['t'])))


def draw_value(draw, spec, e, depth, budget):
    if e['t'] == 'master':
        one = lambda: draw_contents(draw, spec, e['name'], depth + 1, budget)
    else:
        one = lambda: draw_leaf(draw, e)
    if e['multiple'] and draw(st.integers(0, 2)) == 0:
        k = draw(st.integers(0, 4))
        budget.n -= k
        vs = [one() for _ in range(k)]
        if k and e['t'] != 'master' and draw(st.integers(0, 29)) == 0:
            vs *= draw(st.sampled_from([20, 70, 300])) // k + 1
        return ('many', vs)
    return one()


def draw_contents(draw, spec, parent, depth, budget, root=False):
    form = draw(st.sampled_from(['d', 'd', 'p', 'p'] + ([] if root else ['n'])))
    if form == 'n':
        return ('n',)
    own = [spec.els[k] for k in spec.kids.get(parent, [])]
    pool = own * 3 + list(spec.els.values())
    pool = [e for e in pool if e['t'] != 'master' or depth < 5]
    items, seen = [], set()
    for _ in range(draw(st.integers(0 if not root else 1, 5))):
        if not pool or budget.n <= 0:
            break
        budget.n -= 1
        e = draw(st.sampled_from(pool))
        byid = draw(st.integers(0, 3)) == 0
        if form == 'd' and (e['name'], byid) in seen:
            continue
        seen.add((e['name'], byid))
        items.append((e['name'], byid, draw_value(draw, spec, e, depth, budget)))
    if form == 'p' and not items:
        return ('d', [])
    return (form, items)


def live(spec, e, d):
    """The Python data to give to the encoder."""
    if d[0] == 'v':
        return gen.live(e['t'], d[1])
    if d[0] == 'n':
        return None
    if d[0] == 'many':
        return [live(spec, e, x) for x in d[1]]
    pairs = [(spec.els[n]['id'] if byid else n, live(spec, spec.els[n], v)) for n, byid, v in d[1]]
    return dict(pairs) if d[0] == 'd' else pairs


def contents(spec, d):
    return b'' if d[0] == 'n' else b''.join(expected(spec, spec.els[n], v) for n, _byid, v in d[1])


def expected(spec, e, d, length=None, width=None, infinite=False):
    if d[0] == 'many':
        return b''.join(expected(spec, e, x, length, width, infinite) for x in d[1])
    length = e['length'] if length is None else length
    if e['t'] == 'master':
        body = contents(spec, d)
    else:
        body = ref.encode(e['t'], gen.live(e['t'], d[1]), length)
    head = ref.unknown_bytes(width or 1) if infinite else ref.size_bytes(len(body), width)
    return ref.id_bytes(e['id']) + head + body


def fit(spec, e, d, length):
    """Can value d be held by a fixed length (in a way the property covers)?"""
    if d[0] == 'many':
        return all(fit(spec, e, x, length) for x in d[1])
    if d[0] != 'v':
        return d[0] == 'n' or all(fit(spec, spec.els[n], v, spec.els[n]['length']) for n, _, v in d[1])
    if length is None or e['t'] == 'void':
        return True
    v = gen.live(e['t'], d[1])
    if e['t'] == 'uint':
        return v < 1 << 8 * length
    if e['t'] == 'int':
        return -(1 << 8 * length - 1) <= v < 1 << 8 * length - 1
    if e['t'] == 'float':
        return length == 8 or v != v or v in (float('inf'), -float('inf')) or abs(v) < 3e38
    if e['t'] == 'bin':
        return len(v) <= length
    if e['t'] == 'uni':
        b = v.encode('utf-8')
        return len(b) <= length or b[length] & 0xC0 != 0x80
    return True


def nodes(d):
    if d[0] == 'many':
        return sum(nodes(x) for x in d[1])
    if d[0] in 'dp':
        return sum(1 + nodes(v) for _, _, v in d[1])
    return 0


def repair(spec, e, d):
    """Replace values that do not fit their schema length."""
    if d[0] == 'many':
        return ('many', [repair(spec, e, x) for x in d[1]])
    if d[0] == 'v':
        if fit(spec, e, d, e['length']):
            return d
        return ('v', {'uint': 1, 'int': -1, 'float': gen.bits(1.5), 'bin': b'a', 'uni': 'a'}[e['t']])
    if d[0] == 'n':
        return d
    return (d[0], [(n, b, repair(spec, spec.els[n], v)) for n, b, v in d[1]])


@st.composite
def document(draw):
    lit = draw(gen.specs(length=True))
    spec = ref.Spec(lit)
    d = draw_contents(draw, spec, None, 0, gen._Budget(25), root=True)
    return (lit, repair(spec, None, d), draw(st.booleans()))


def header(spec):
    if 'EBML' not in spec.els:
        return b''
    body = b''
    for n in ('EBMLVersion', 'EBMLReadVersion', 'DocType', 'DocTypeVersion', 'DocTypeReadVersion'):
        e = spec.els.get(n)
        v = ref.default(e)
        if v is not None:
            p = ref.encode(e['t'], v)
            body += ref.id_bytes(e['id']) + ref.size_bytes(len(p)) + p
    return ref.id_bytes(0x1A45DFA3) + ref.size_bytes(len(body)) + body


def doc_case(case, note):
    import io
    lit, d, headers = case
    spec = ref.Spec(lit)
    sch = schema(spec)
    n = nodes(d)
    note.nt(n >= 2)
    note('with header' if headers and 'EBML' in spec.els else 'no header')
    note('root as %s' % d[0])
    note('elements >= 5' if n >= 5 else 'elements < 5')
    exp = contents(spec, d)
    if headers:
        exp = header(spec) + exp
    data = live(spec, None, d)
    got = sch.encodes(data, headers=True) if headers else sch.encodes(data)
    same(bytes(got), exp, 'encodes(%r)' % (data,))
    f = io.BytesIO()
    expect(sch.encode(f, data, headers=headers) is f, 'encode to a stream does not return the stream')
    same(f.getvalue(), exp, 'encode to a stream')
    if d[0] == 'd' and d[1] and not headers:
        # a list of dicts: the same root elements
        parts = [{k: v} for k, v in data.items()]
        same(bytes(sch.encodes(parts)), exp, 'encodes(list of dicts)')


@st.composite
def single(draw):
    lit = draw(gen.specs(length=True, header=False))
    spec = ref.Spec(lit)
    e = draw(st.sampled_from(list(spec.els.values())))
    d = repair(spec, e, draw_value(draw, spec, e, 0, gen._Budget(15)))
    length = None
    if e['t'] != 'master' and draw(st.booleans()):
        length = draw({'uint': st.integers(1, 8), 'int': st.integers(1, 8), 'float': st.sampled_from([4, 8]),
                       'date': st.just(8)}.get(e['t'], st.one_of(st.integers(0, 40), st.just(0), st.integers(100, 140))))
        if length == 0 and e['t'] == 'bin' and d[0] == 'v':
            d = ('v', b'')
    width = draw(st.one_of(st.none(), st.none(), st.integers(1, 8)))
    infinite = draw(st.integers(0, 2)) == 0
    return (lit, e['name'], d, length, width, infinite)


def single_case(case, note):
    lit, name, d, length, width, infinite = case
    spec = ref.Spec(lit)
    e = spec.els[name]
    cls = schema(spec)[name]
    data = live(spec, e, d)
    note.nt(length is not None or width is not None or infinite or nodes(d) >= 2)
    kw = {}
    if length is not None:
        if not fit(spec, e, d, length):
            note('value does not fit the length')
            return      # C02, C04, C23
        kw['length'] = length
    if width is not None:
        kw['lengthSize'] = width
    if infinite:
        kw['infinite'] = True
        if e['t'] != 'master':
            must_raise(lambda: cls.encode(data, **kw), 'infinite %s' % e['t'])
            return
        note('infinite')
    try:
        exp = expected(spec, e, d, length, width, infinite)
    except AssertionError:
        note('content does not fit the width')
        must_raise(lambda: cls.encode(data, **kw), 'content in too small a size descriptor')
        return
    note('length' if length is not None else 'no length')
    note('width' if width is not None else 'no width')
    same(bytes(cls.encode(data, **kw)), exp, '%s.encode(%r, %r)' % (name, data, kw))
    if d[0] != 'many':
        # the payload alone; here a length given in the schema does not count
        body = contents(spec, d) if e['t'] == 'master' else ref.encode(e['t'], gen.live(e['t'], d[1]), length)
        got = cls.encodePayload(data) if length is None else cls.encodePayload(data, length)
        same(bytes(got), body, '%s.encodePayload(%r, %r)' % (name, data, length))


BIG = ref.Spec(dict(els=[dict(name='M', id=0x81, t='master', multiple=True), dict(name='B', id=0x4080, t='bin',
                         multiple=True), dict(name='S', id=0x203FFF, t='str'), dict(name='U', id=0x101FFFFF, t='uni')],
                    kids={None: ['M'], 'M': ['B', 'S', 'U', 'M']}))


def big_cases():
    for n in list(range(120, 132)) + list(range(16375, 16392)) + [65535, 65536, 2097148, 2097149, 2097150, 2097151,
                                                                  2097152]:
        for kind in ('B', 'S', 'U', 'M', 'MM'):
            for width in (None, 3, 8):
                if n < 20000 or (kind in 'BM' and width is None):
                    yield (kind, n, width)
    for n in [(1 << 24) - 1, 1 << 24, (1 << 24) + 6, 3 << 24]:
        for kind in ('B', 'S', 'M', 'MM'):
            yield (kind, n, None)
    for n in [(1 << 28) - 2, (1 << 28) - 1] if os.environ.get('VERIF_TIER') == 'thorough' else []:
        for kind in ('B', 'M'):
            yield (kind, n, None)


def big_case(case, note):
    """Payload sizes around the limits of each size descriptor width."""
    kind, n, width = case
    note.nt()
    sch = schema(BIG)
    if kind in 'BSU':
        e = BIG.els[kind]
        v = b'x' * n if kind == 'B' else 'x' * n
        exp = ref.id_bytes(e['id']) + ref.size_bytes(n, width) + b'x' * n
        same(bytes(sch[kind].encode(v, lengthSize=width)), exp, '%d bytes' % n)
        return
    inner = n if kind == 'M' else n - 1 - ref.size_width(n - 5)
    m = inner - 2 - ref.size_width(inner - 5)
    body = ref.id_bytes(0x4080) + ref.size_bytes(m) + b'y' * m
    data = {'B': b'y' * m}
    if kind == 'MM':
        body = b'\x81' + ref.size_bytes(len(body)) + body
        data = {'M': [data]}
    exp = b'\x81' + ref.size_bytes(len(body), width) + body
    note('master of exactly the size' if len(body) == n else 'master nearby')
    same(bytes(sch['M'].encode(data, lengthSize=width)), exp, 'master of %d bytes' % len(body))
    if width is None:
        same(bytes(sch.encodes({'M': data})), exp, 'document with a master of %d bytes' % len(body))


SUBS = [
    Sub('documents', doc_case, document(), quick=2500, thorough=60000, shards=4,
        rule='random schema and data tree (dicts, pairs, lists, names or IDs), with and without default header'),
    Sub('elements', single_case, single(), quick=2500, thorough=60000, shards=3,
        rule='one element class, with length, lengthSize and infinite arguments'),
    Sub('sizes', big_case, cases=lambda: list(big_cases()), shards=1, rule='enumerated payload sizes at descriptor width edges'),
    scale.sub(scale.encode),
]
ASSUMPTIONS = ['an explicit length is requested only for non-masters (known finding K1)',
               'text cut inside a multi-byte character is excluded (known finding K2 of C04)']


def k1():
    b = bytes(schema(BIG)['M'].encode({'S': 'ab'}, length=50))
    exp = len(b) - 2
    if b[1] & 0x7F != exp:
        return "M.encode({'S': 'ab'}, length=50) declares %d payload bytes and writes %d" % (b[1] & 0x7F, exp)


KNOWN = dict(K1=k1)
