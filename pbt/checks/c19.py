"""C19: validateID() vs the four class ranges; createID() vs a brute-force listing of the free IDs of the class within the
bounds; non-trivial = a number within 2 of a range, or a request for which bounds, exclusions or the schema matter."""
import io

from hypothesis import strategies as st

from .. import gen, ref
from ..lib import raises, schema
from ..run import Sub, expect, same
from ebmlite import core, util

RANGES = dict(zip('ABCD', ref.ID_RANGES))
LIMITS = [x for r in ref.ID_RANGES for x in r]


def validate(n, note):
    e = raises(lambda: same(util.validateID(n), True, 'validateID(0x%X)' % n))
    good = ref.valid_id(n)
    if good:
        expect(e is None, 'validateID(0x%X) raised' % n, e)
    else:
        expect(isinstance(e, ValueError), 'validateID(%s): ValueError expected, got' % hex(n), e)
    note('valid' if good else 'invalid')
    note.nt(any(abs(n - x) < 3 for x in LIMITS))


def block(b, note):
    """All integers of a block of 4096."""
    for n in range(b * 4096, b * 4096 + 4096):
        validate(n, note)
    note.nt()


NUMBERS = st.one_of(st.sampled_from(LIMITS).flatmap(lambda x: st.integers(x - 300, x + 300)), gen.edges(33, True),
                    st.integers(0, 33).flatmap(lambda k: st.integers((1 << k) - 5, (1 << k) + 5)), gen.IDS, gen.U64,
                    st.tuples(gen.IDS, st.integers(0, 31)).map(lambda x: x[0] ^ 1 << x[1]),
                    st.integers(-2**70, 2**70))


def create(case, note):
    lit, cls, exclude, how, lo, hi, count = case
    spec = ref.Spec(lit)
    sch = schema(spec)
    ids = sorted(sch.elements)
    same(ids, sorted(spec.by_id), 'IDs of the schema')
    kw = {}
    if exclude is not None:
        kw['exclude'] = dict(tuple=tuple, list=list, set=set, iter=iter, frozenset=frozenset,
                             keys=lambda x: dict.fromkeys(x).keys())[how](exclude)
    if lo is not None:
        kw['minId'] = lo
    if hi is not None:
        kw['maxId'] = hi
    if count is not None:
        kw['count'] = count
    given = list(kw['exclude']) if how == 'list' and exclude is not None else None
    got = util.createID(sch, cls, **kw)
    if given is not None:
        same(kw['exclude'], given, 'exclusion list afterwards')
    same(sorted(sch.elements), ids, 'IDs of the schema afterwards')
    a, b = RANGES[cls.upper()]
    lo = a if lo is None else max(lo, a)
    hi = b if hi is None else min(hi, b)
    taken = {i for i in spec.by_id} | set(exclude or ())
    count = 1 if count is None else count
    total = max(0, hi - lo + 1) - len({t for t in taken if lo <= t <= hi})
    got = list(got)
    same(len(got), min(count, total), 'number of IDs (%d are free)' % total)
    same(len(set(got)), len(got), 'number of distinct IDs in %r' % got[:20])
    for i in got:
        expect(type(i) is int and lo <= i <= hi, 'ID', i, 'is not within', lo, 'to', hi)
        expect(i not in taken, 'ID', hex(i), 'is taken')
        util.validateID(i)
    note('class ' + cls.upper())
    note('all free' if count >= total else 'some of the free')
    if total == 0:
        note('none free')
    note.nt(lo > a or hi < b or any(lo <= t <= hi for t in taken))


@st.composite
def requests(draw):
    lit = draw(gen.specs(max_els=7))
    cls = draw(st.sampled_from('ABCDabcd'))
    a, b = RANGES[cls.upper()]
    own = [e['id'] for e in lit['els'] if a <= e['id'] <= b]
    anchor = draw(st.sampled_from([a, b] + own + own))
    near = st.integers(anchor - 12, anchor + 12)
    lo = draw(st.one_of(st.none(), near, near, st.just(a), st.just(a - 1), gen.IDS, st.integers(0, 200)))
    hi = draw(st.one_of(st.none(), near, st.just(b), st.just(b + 1), gen.IDS, st.integers(0, 12).map(
        lambda d: (a if lo is None else max(lo, a)) + d)))
    exclude = draw(st.one_of(st.none(), st.lists(near, max_size=12), st.lists(st.one_of(near, gen.IDS), max_size=8),
                             st.tuples(st.integers(max(0, anchor - 20), anchor), st.integers(0, 40)).map(
                                 lambda x: list(range(x[0], sum(x))))))
    count = draw(st.one_of(st.none(), st.integers(0, 30), st.integers(1, 400)))
    return lit, cls, exclude, draw(st.sampled_from(['tuple', 'list', 'set', 'iter', 'frozenset', 'keys'])), lo, hi, count


EMPTY = dict(els=[dict(name='R', id=0x80 + 5, t='uint')], kids={None: ['R']})


def everything(case, note):
    """All IDs of a class; with all of them excluded, none is left."""
    cls, = case
    sch = schema(ref.Spec(EMPTY))
    a, b = RANGES[cls.upper()]
    want = [i for i in range(a, b + 1) if i != 0x85]
    got = util.createID(sch, cls, count=b)
    same(sorted(got), want, 'all IDs')
    same(list(util.createID(sch, cls, exclude=got, count=3)), [], 'IDs left')
    left = want[len(want) // 2]
    same(list(util.createID(sch, cls, exclude=[i for i in want if i != left], count=3)), [left], 'the only ID left')
    for i in want[:200] + want[-200:]:
        util.validateID(i)
    note.nt()


def wrong(cls, note):
    sch = schema(ref.Spec(EMPTY))
    if cls in set('abcdABCD'):
        expect(raises(util.createID, sch, cls) is None, 'class', cls, 'was refused')
        return
    note.nt()
    e = raises(util.createID, sch, cls)
    expect(isinstance(e, KeyError), 'class', cls, ': KeyError expected, got', e)


def grow(case, note):
    """IDs made one after the other, each used in the next schema."""
    lit, cls, lo, n = case
    spec = ref.Spec(lit)
    note.nt()
    for k in range(n):
        got = list(util.createID(schema(spec), cls, minId=lo))
        if not got:
            break
        same(len(got), 1, 'number of IDs')
        expect(got[0] not in spec.by_id, 'ID', got[0], 'is taken')
        lit = dict(els=lit['els'] + [dict(name='New%d' % k, id=got[0], t='uint')],
                   kids=dict(lit['kids'], **{}))
        lit['kids'][None] = list(lit['kids'][None]) + ['New%d' % k]
        spec = ref.Spec(lit)
        s = core.Schema(io.StringIO(spec.xml()), name='t')
        same(s['New%d' % k].id, got[0], 'ID of the new element')


SUBS = [
    Sub('ranges', block, cases=lambda: list(range(0, 9)) + [x // 4096 + d for x in LIMITS for d in (-1, 0, 1)
                                                            if x // 4096 + d > 8], shards=2,
        rule='enumerated: all integers below 36864 and all in the blocks of 4096 around the limits'),
    Sub('numbers', validate, NUMBERS, quick=20000, thorough=500000, shards=3, rule='random integers near limits, or up to 70 bits'),
    Sub('requests', create, requests(), quick=2500, thorough=60000, shards=4, rule='random schemata, bounds, exclusions, counts'),
    Sub('whole-classes', everything, cases=lambda: [('A',), ('b',)], shards=1, rule='enumerated classes A and B'),
    Sub('classes', wrong, st.one_of(st.text(max_size=3), st.sampled_from(['', 'E', 'e', 'AB', ' a', 'a ', 'Z', '0', '1', 'ab',
                                                                          'a', 'D', 'BC', 'None'])),
        quick=600, thorough=6000, shards=1, rule='random class names'),
    Sub('growing', grow, st.tuples(gen.specs(max_els=6, redeclare=False), st.sampled_from('ABCDabcd'), gen.IDS,
                                   st.integers(1, 8)), quick=300, thorough=5000, shards=2,
        rule='IDs added to the schema one by one'),
]
ASSUMPTIONS = ['negative counts are not specified']
