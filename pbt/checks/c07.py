"""C07: random conforming data trees: load(encode(data)).dump() == data, encode(dump) == encode(data), and single edits
of the dump change exactly one value; non-trivial = a nested master with a value, or a list of at least two items."""
import copy
import io

from hypothesis import strategies as st

from .. import gen, ref, scale
from ..lib import schema
from ..run import Sub, expect, same

# Data: {name: value literal | [value literals] | nested dict | [nested dicts]}, names in schema


def draw_data(draw, spec, parent, depth, budget, root=False):
    own = [spec.els[k] for k in spec.kids.get(parent, [])]
    pool = own * 3 + list(spec.els.values())
    pool = [e for e in pool if e['name'] != 'EBML' and (e['t'] != 'master' or depth < 6)]
    out = {}
    for _ in range(draw(st.integers(0, 5))):
        if not pool or budget.n <= 0:
            break
        e = draw(st.sampled_from(pool))
        if e['name'] in out:
            continue
        k = draw(st.integers(1, 4)) if e['multiple'] else 1
        budget.n -= k
        vals = [draw_data(draw, spec, e['name'], depth + 1, budget) if e['t'] == 'master' else
                draw(gen.value_lit(e['t'])) for _ in range(k)]
        if e['multiple'] and e['t'] != 'master' and draw(st.integers(0, 29)) == 0:
            vals += vals[-1:] * draw(st.sampled_from([20, 70, 300]))
        out[e['name']] = vals if e['multiple'] else vals[0]
    return out


def each(spec, data):
    for n, v in data.items():
        for i, x in enumerate(v if spec.els[n]['multiple'] else [v]):
            yield n, i, x


def live(spec, data):
    out = {}
    for n, v in data.items():
        e = spec.els[n]
        f = (lambda x: live(spec, x)) if e['t'] == 'master' else (lambda x: gen.live(e['t'], x))
        out[n] = [f(x) for x in v] if e['multiple'] else f(v)
    return out


def leaves(spec, data, path=()):
    for n, i, x in each(spec, data):
        p = path + ((n, i),)
        if spec.els[n]['t'] == 'master':
            yield from leaves(spec, x, p)
        else:
            yield p


def size(spec, data):
    return sum(1 + (size(spec, x) if spec.els[n]['t'] == 'master' else 0) for n, i, x in each(spec, data))


def put(spec, data, path, value):
    """A copy of Python data with the value at path replaced."""
    out = copy.deepcopy(data)
    d = out
    for n, i in path[:-1]:
        d = d[n][i] if spec.els[n]['multiple'] else d[n]
    n, i = path[-1]
    if spec.els[n]['multiple']:
        d[n][i] = value
    else:
        d[n] = value
    return out


def get(spec, data, path):
    d = data
    for n, i in path:
        d = d[n][i] if spec.els[n]['multiple'] else d[n]
    return d


@st.composite
def cases(draw, **kw):
    lit = draw(gen.specs(**kw))
    spec = ref.Spec(lit)
    data = draw_data(draw, spec, None, 0, gen._Budget(30), root=True)
    if 'EBML' in spec.els and draw(st.booleans()):
        h = {'EBML': {}}
        for k in spec.kids['EBML']:
            if draw(st.booleans()):
                h['EBML'][k] = draw(gen.ASCII if spec.els[k]['t'] == 'str' else st.integers(0, 500))
        h.update(data)
        data = h
    edit = None
    ps = list(leaves(spec, data))
    if ps:
        p = draw(st.sampled_from(ps))
        edit = (p, draw(gen.value_lit(spec.els[p[-1][0]]['t'])))
    return (lit, data, edit)


def check(case, note):
    lit, data, edit = case
    spec = ref.Spec(lit)
    sch = schema(spec)
    py = live(spec, data)
    n = size(spec, data)
    note('elements >= 8' if n >= 8 else 'elements < 8')
    note.nt(any(len(p) > 1 for p in leaves(spec, data)) or any(i > 0 for n, i, x in each(spec, data)))
    raw = bytes(sch.encodes(py))
    doc = sch.load(io.BytesIO(raw), headers=True)
    dumped = doc.dump()
    same(ref.canon(dumped), ref.canon(py), 'dump of encoded data')
    same(list(dumped), list(py), 'order of names')
    same(bytes(sch.encodes(dumped)), raw, 'encoding of the dump')
    same(ref.canon(doc.dump()), ref.canon(py), 'second dump')
    for el in doc:
        if spec.els[el.name]['multiple']:
            continue
        same(ref.canon(el.dump()), ref.canon(py[el.name]), 'dump of element')
    if 'EBML' in py and list(py)[0] == 'EBML':
        note('EBML header')
        rest = {k: v for k, v in py.items() if k != 'EBML'}
        d2 = sch.loads(raw)
        same(ref.canon(d2.dump()), ref.canon(rest), 'dump without header')
        same(ref.canon(d2.info), ref.canon(py['EBML']), 'info')
    if edit:
        path, lit_v = edit
        t = spec.els[path[-1][0]]['t']
        v = gen.live(t, lit_v)
        edited = put(spec, dumped, path, v)
        want = put(spec, py, path, v)
        note('edited %s' % t)
        raw2 = bytes(sch.encodes(edited))
        back = sch.load(io.BytesIO(raw2), headers=True).dump()
        same(ref.canon(back), ref.canon(want), 'dump after editing %r' % (path,))
        old = get(spec, py, path)
        if ref.canon(old) != ref.canon(v):
            expect(raw2 != raw, 'edit of', path, 'did not change the bytes')


@st.composite
def bulky(draw):
    """One text or binary value of a size around the descriptor limits, nested in masters."""
    n = draw(st.one_of(st.integers(110, 140), st.integers(16360, 16390), st.integers(0, 70000)))
    depth = draw(st.integers(0, 3))
    kind = draw(st.sampled_from('BSU'))
    return (n, depth, kind, draw(st.integers(0, 255)))


SPEC = dict(els=[dict(name='M', id=0x81, t='master'), dict(name='L', id=0x82, t='master', multiple=True),
                 dict(name='B', id=0x4081, t='bin'), dict(name='S', id=0x4082, t='str'),
                 dict(name='U', id=0x4083, t='uni', multiple=True), dict(name='I', id=0x4084, t='int')],
            kids={None: ['M', 'L', 'I'], 'M': ['B', 'S', 'U', 'M', 'L']})


def bulk(case, note):
    n, depth, kind, fill = case
    note.nt()
    spec = ref.Spec(SPEC)
    v = bytes([fill]) * n if kind == 'B' else 'x' * n
    d = {'U': [v, '']} if kind == 'U' else {kind: v}
    for i in range(depth):
        d = {'L': [d, {}, {'I': -5}]} if i % 2 else {'M': d, 'I': 1}
    sch = schema(spec)
    raw = sch.encodes(d)
    same(ref.canon(sch.loads(raw).dump()), ref.canon(d), 'dump of encoded data')
    same(bytes(sch.encodes(sch.loads(raw).dump())), bytes(raw), 'encoding of the dump')


SUBS = [
    Sub('trees', check, cases(), quick=2400, thorough=60000, shards=5, rule='random schema and data tree'),
    Sub('lists', check, cases(multiple=True, max_els=5, min_masters=2), quick=600, thorough=15000,
        shards=2, rule='all elements repeatable'),
    Sub('bulk', bulk, bulky(), quick=300, thorough=5000, shards=1, rule='payload sizes around descriptor limits'),
    scale.sub(scale.dump),
]
ASSUMPTIONS = ['Void elements carry no data, only their number counts; unknown elements are left out', '-0.0 is written as 0.0']
