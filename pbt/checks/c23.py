"""C23: conforming data with one fault put at a random place (unknown name or ID, a list for an element that is not
repeatable, a value of a wrong type, out of range or too long): encoding raises, leaves the data as they were, and valid data
encode afterwards to what the reference writer gives; non-trivial = a fault below the root, or among at least three elements."""
import io
from datetime import datetime, timedelta, timezone

from hypothesis import strategies as st

from .. import gen, ref, scale
from ..lib import must_raise, schema
from ..run import Sub, expect, same
from .c05 import contents, document, header, live, nodes

WRONG = dict(
    int=[None, '', 'text', '5', '-1', b'\x01', {}, {'A': 1}, datetime(2020, 1, 1), object, 1j, float('inf'), float('nan')],
    uint=[None, '', 'text', '5', b'\x01', bytearray(b'5'), {}, {'A': 1}, datetime(2020, 1, 1), object, 1j, float('inf'), float('nan')],
    float=['', 'text', '1.5', 'nan', b'\0\0\0\0', {}, {'A': 1}, datetime(2020, 1, 1), object, 1j],
    date=['', 'text', '2020-01-01', 0, 5, 1.5, {}, b'\0' * 8, timedelta(1), datetime(2020, 1, 1).date(),
          datetime(2020, 1, 1, tzinfo=timezone.utc), datetime(1700, 1, 1), datetime(2400, 1, 1), datetime.max, datetime.min],
    str=[None, 0, 5, -1, 1.5, {}, {'A': 1}, datetime(2020, 1, 1), object, 1j],
    uni=[None, 0, 5, -1, 1.5, {}, {'A': 1}, datetime(2020, 1, 1), object, 1j],
    bin=[0, 5, -1, 1.5, {}, {'A': 1}, datetime(2020, 1, 1), object, 1j],
    master=['', 'text', 0, 5, 1.5, b'', b'\x81\x81\x01', datetime(2020, 1, 1), object, 1j, 'A', bytearray(b'\x81')])


def pick_wrong(t, i):
    return WRONG[t][i % len(WRONG[t])]


def out_of_range(e, i, v):
    """A value the element cannot hold."""
    t, n = e['t'], e['length']
    if t == 'uint':
        top = 1 << 8 * (n or 8)
        return [-1, top, -v - 1, top + v, 1 << 64, -(1 << 63), 1 << 80][i % 7]
    if t == 'int':
        top = 1 << 8 * (n or 8) - 1
        return [top, -top - 1, top + v, -top - 1 - v, 1 << 64, 1 << 63, -(1 << 80)][i % 7]
    if t == 'float' and n == 4:
        return [1e39, -1e39, 1.7e308, 3.5e38 + v][i % 4]
    if t == 'bin' and n:
        return b'x' * (n + 1 + v % 50)
    return None


def containers(data, spec, depth=0):
    """Every dict and list of pairs, with its depth."""
    out = []
    if isinstance(data, dict):
        out.append((data, depth))
        for v in data.values():
            out += containers(v, spec, depth + 1)
    elif isinstance(data, list):
        if data and isinstance(data[0], tuple):
            out.append((data, depth))
            for _, v in data:
                out += containers(v, spec, depth + 1)
        else:
            for v in data:
                out += containers(v, spec, depth)
    return out


def put(where, at, key, value):
    if isinstance(where, list):
        where.insert(at % (len(where) + 1), (key, value))
        return
    items = [(k, v) for k, v in where.items() if k != key]
    items.insert(at % (len(items) + 1), (key, value))
    where.clear()
    where.update(items)


def good(e, k):
    """Valid values of an element."""
    v = dict(int=[0, -1, 5], uint=[0, 1, 7], float=[1.5, 0.0, -2.0], date=[datetime(2020, 1, 1), datetime(2001, 1, 1)],
             str=['', 'a'], uni=['', 'a'], bin=[b'', b'a'], master=[{}], void=[b''])[e['t']]
    return v[k % len(v)]


def bad_pair(spec, f):
    """(key, value) of a fault, or None if the schema has no element for it."""
    kind, i, j, v, byid = f
    els = [e for e in spec.els.values() if e['t'] != 'void']
    if kind == 'name':
        names = ['', 'NoSuchElement', 'Document', 'nosuch', '0x81', 'A' * 300, 'é', 'a b'] + \
            [n + 'x' for n in spec.els] + [n.swapcase() for n in spec.els] + [n[:-1] for n in spec.els]
        names += [e['id'] + d for e in els for d in (1, -1)] + [0, -1, 0x80, 1 << 40]
        names = [n for n in names if n not in spec.els and n not in spec.by_id]
        e = els[j % len(els)] if els else dict(t='uint')
        return names[i % len(names)], [good(e, v), good(e, v), [], (), {}, None, [good(e, v)], [{}], ''][v // 3 % 9]
    if kind == 'several':
        els = [e for e in els if not e['multiple']]
    elif kind == 'range':
        els = [e for e in els if out_of_range(e, 0, 0) is not None]
    elif kind == 'item':
        els = [e for e in els if e['multiple']]
    if not els:
        return None
    e = els[j % len(els)]
    key = e['id'] if byid else e['name']
    if kind == 'several':
        vs = [good(e, v + k) for k in range(2 + i % 3)]
        return key, tuple(vs) if i % 5 == 4 and e['t'] != 'master' else vs
    if kind == 'range':
        return key, out_of_range(e, i, v)
    if kind == 'item':
        w = out_of_range(e, i, v) if i % 3 == 0 else None
        w = pick_wrong(e['t'], v) if w is None else w
        vs = [good(e, k) for k in range(i % 4)]
        vs.insert(i % (len(vs) + 1), w)
        if e['t'] == 'master' and isinstance(vs[0], tuple):
            return None
        return key, vs
    return key, pick_wrong(e['t'], i)


FAULT = st.tuples(st.sampled_from(['name', 'several', 'type', 'type', 'range', 'range', 'item']), st.integers(0, 200),
                  st.integers(0, 30), st.integers(0, 1000), st.booleans())


def arrays(data, flip):
    """Some of the bytes as bytearrays."""
    if isinstance(data, dict):
        return {k: arrays(v, flip) for k, v in data.items()}
    if isinstance(data, list):
        return [arrays(v, flip) for v in data]
    if isinstance(data, tuple):
        return tuple(arrays(v, flip) for v in data)
    if isinstance(data, bytes) and flip:
        return bytearray(data)
    return data


def encode(sch, data, how, headers):
    if how == 'stream':
        f = io.BytesIO()
        sch.encode(f, data, headers=headers)
        return f.getvalue()
    if how == 'document':
        f = io.BytesIO()
        sch.document.encode(f, data, headers=headers)
        return f.getvalue()
    return sch.encodes(data, headers=headers)


def check(case, note):
    (lit, d, headers), f, where, at, how, flip = case
    spec = ref.Spec(lit)
    sch = schema(spec)
    exp = (header(spec) if headers else b'') + contents(spec, d)
    data = arrays(live(spec, None, d), flip)
    before = repr(data)
    same(bytes(encode(sch, data, how, headers)), exp, 'valid data before')
    same(repr(data), before, 'valid data afterwards')
    pair = bad_pair(spec, f)
    if pair is None:
        note('no element for this fault')
        return
    bad = arrays(live(spec, None, d), flip)
    places = containers(bad, spec)
    if not places:
        bad = {}
        places = [(bad, 0)]
    if where % 3:
        places.sort(key=lambda p: -p[1])
    place, depth = places[where // 3 % len(places)]
    put(place, at, *pair)
    before = repr(bad)
    must_raise(lambda: encode(sch, bad, how, headers), 'data with fault %r at depth %d' % (pair, depth))
    same(repr(bad), before, 'refused data afterwards')
    same(bytes(encode(sch, data, how, headers)), exp, 'valid data after a refused call')
    same(bytes(sch.encodes(data, headers=not headers)), (b'' if headers else header(spec)) + contents(spec, d),
         'valid data, headers %s' % (not headers))
    note('fault ' + f[0])
    note('depth %d' % min(depth, 4))
    note.nt(depth > 0 or nodes(d) >= 3)


def element(case, note):
    """One element class."""
    lit, f, k, deep = case
    spec = ref.Spec(lit)
    sch = schema(spec)
    pair = bad_pair(spec, f)
    masters = [e for e in spec.els.values() if e['t'] == 'master']
    if pair is None or f[0] == 'name' and not masters:
        note('no element for this fault')
        return
    key, v = pair
    if f[0] == 'name':
        cls, v = sch[masters[k % len(masters)]['name']], {key: v}
    else:
        cls = sch[key]
    if masters:
        for i in range(deep):
            m = masters[(k + i) % len(masters)]
            v = [{cls.name: v}, [(cls.name, v)], {cls.id: v}][(k + i) % 3]
            cls = sch[m['name']]
    before = repr(v)
    for kw in ({}, dict(lengthSize=8)):
        must_raise(lambda: cls.encode(v, **kw), '%s.encode(%s)' % (cls.name, before))
        same(repr(v), before, 'refused data afterwards')
    note('fault ' + f[0])
    note('nested %d' % deep)
    note.nt(deep and masters)


def infinite(case, note):
    lit, k, width, many = case
    spec = ref.Spec(lit)
    sch = schema(spec)
    note.nt()
    for e in spec.els.values():
        v = good(e, k)
        if many and e['multiple']:
            v = [v, v]
        kw = {} if width is None else dict(lengthSize=width)
        if e['t'] == 'master':
            b = sch[e['name']].encode(v, infinite=[True, 1, 'yes'][k % 3], **kw)
            expect(len(b) >= len(ref.id_bytes(e['id'])) + 1, 'infinite', e['name'])
            continue
        yes = [True, 1, 'yes'][k % 3]
        must_raise(lambda: sch[e['name']].encode(v, infinite=yes, **kw), 'infinite %s (%s)' % (e['name'], e['t']))
        note('type ' + e['t'])


def several(case, note):
    """A list of documents, each a list of elements."""
    (lit, d, headers), d2, how = case
    spec = ref.Spec(lit)
    sch = schema(spec)
    data = live(spec, None, d)
    first = list(data.items()) if isinstance(data, dict) else data
    exp = (header(spec) if headers else b'') + contents(spec, d)
    bad = [first] + [first, [], dict(first) if all(isinstance(x, tuple) and len(x) == 2 for x in first) else {}][:d2]
    before = repr(bad)
    must_raise(lambda: encode(sch, bad, how, headers), 'several documents %s' % before[:300])
    same(repr(bad), before, 'refused data afterwards')
    same(bytes(encode(sch, data, how, headers)), exp, 'valid data after a refused call')
    note('%d elements' % min(len(first), 3))
    note.nt(len(first))


def wrong(case, note):
    """One value of a wrong type, everywhere it can be."""
    t, i = case
    spec = ref.Spec(scale.LIT)
    sch = schema(spec)
    e = next(e for e in spec.els.values() if e['t'] == t)
    w = WRONG[t][i]
    ways = [lambda v: v, lambda v: [v], lambda v: [good(e, 0), v], lambda v: [v, good(e, 1)], lambda v: (v,)]
    for k, way in enumerate(ways):
        if t == 'master' and (isinstance(way(w), tuple) or isinstance(way(w), list) and not way(w)):
            continue
        for key in (e['name'], e['id']):
            pair = {key: way(w)}
            for data in (pair, list(pair.items()), {'Box': {}, **pair}, {**pair, 'Time': good(spec.els['Time'], 0)} if t != 'date' else pair, {'Box': pair}, {'Box': [{}, pair]},
                         {'Box': {'Box': list(pair.items())}}):
                before = repr(data)
                for how in ('encodes', 'stream', 'document'):
                    must_raise(lambda: encode(sch, data, how, False), '%s of %s' % (how, before))
                    same(repr(data), before, 'refused data afterwards')
        if not isinstance(way(w), (list, tuple)) or e['multiple']:
            for kw in ({}, dict(length=8), dict(lengthSize=4)):
                must_raise(lambda: sch[e['name']].encode(way(w), **kw), '%s.encode(%r, %r)' % (e['name'], way(w), kw))
    note.nt()
    note('type ' + t)


LENGTHS = gen.specs(length=True)
SUBS = [
    Sub('documents', check, st.tuples(document(), FAULT, st.one_of(st.integers(0, 3), st.integers(0, 40)), st.integers(0, 20),
                                      st.sampled_from(['encodes', 'stream', 'document']), st.booleans()),
        quick=3600, thorough=90000, shards=6, rule='random schemata, data trees and faults'),
    Sub('elements', element, st.tuples(LENGTHS, FAULT, st.integers(0, 20), st.sampled_from([0, 0, 1, 2, 5])),
        quick=1800, thorough=30000, shards=3, rule='random faults given to one element class'),
    Sub('several', several, st.tuples(document(), st.integers(0, 3), st.sampled_from(['encodes', 'stream', 'document'])),
        quick=400, thorough=6000, shards=1, rule='lists of documents'),
    Sub('infinite', infinite, st.tuples(LENGTHS, st.integers(0, 9), st.one_of(st.none(), st.integers(1, 8)), st.booleans()),
        quick=300, thorough=5000, shards=1, rule='infinite sizes for elements that are not masters'),
    Sub('wrong', wrong, cases=lambda: [(t, i) for t in sorted(WRONG) for i in range(len(WRONG[t]))], shards=1,
        rule='enumerated: every value of a wrong type, in every place'),
    scale.sub(scale.refuse, [(s, f) for s in scale.SMALL for f in ('name', 'text', 'number', 'range', 'master')]),
]
ASSUMPTIONS = ['Void elements accept any value (contents are not written)', 'integers given as bool or integral float, text given '
               'for binary and None are accepted, as documented or as in the code; only clearly wrong types are faults',
               'names given twice in a list of pairs are not refused (see the TODO in encodePayload)']
