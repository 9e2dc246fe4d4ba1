"""C31: random data trees whose values and containers are given in other forms that mean the same (subclasses, integral floats,
booleans, bytes for ASCII text, text for binary data, pairs for dictionaries, tuples for lists, IDs for names), encoded as
documents and as single elements: the bytes are those of the plain form, and the data stay as they were; values that are
converted with a loss are announced by a warning; non-trivial = at least one value in another form."""
import collections
import copy
import enum
import io
import os
import random
import time
import warnings
from datetime import datetime, timedelta

from hypothesis import strategies as st

from .. import gen, ref
from ..lib import must_raise, schema
from ..run import Sub, expect, same
from . import c05
from ebmlite import encoding


class MyInt(int):
    pass


class MyFloat(float):
    pass


class MyStr(str):
    pass


class MyBytes(bytes):
    pass


class MyDate(datetime):
    pass


class MyDict(dict):
    pass


class MyList(list):
    pass


def as_enum(v):
    return enum.IntEnum('Number', {'IT': v}).IT


def forms(t, v):
    """Other forms of one value."""
    out = []
    if t in ('uint', 'int'):
        out += [MyInt(v), as_enum(v)]
        if v in (0, 1):
            out += [bool(v), bool(v)]
        if int(float(v)) == v:
            out += [float(v), MyFloat(v)]
    elif t == 'float':
        out.append(MyFloat(v))
        if v == v and abs(v) < 1e300 and v == int(v):
            out += [int(v)] * 2
            if v in (0, 1):
                out.append(bool(v))
        if v == 0:
            out += [None, 0]
    elif t == 'str':
        out += [v.encode('ascii'), bytearray(v.encode('ascii')), MyStr(v), MyBytes(v.encode('ascii'))]
    elif t == 'uni':
        out.append(MyStr(v))
    elif t == 'bin':
        out += [bytearray(v), MyBytes(v)]
        try:
            out += [v.decode('utf-8'), MyStr(v.decode('utf-8'))]
        except UnicodeDecodeError:
            pass
        if not v:
            out.append(None)
    elif t == 'date':
        out.append(MyDate(*v.timetuple()[:6], v.microsecond))
    return out


class Former:
    def __init__(self, spec, seed, odds):
        self.spec, self.rnd, self.odds, self.n, self.kinds = spec, random.Random(seed), odds, 0, set()

    def take(self, plain, others):
        if others and self.rnd.random() < self.odds:
            v = self.rnd.choice(others)
            self.n += 1
            self.kinds.add('%s for %s' % (type(v).__name__, type(plain).__name__))
            return v
        return plain

    def value(self, e, d, fixed=False):
        """The data of d (see c05), in random forms."""
        if d[0] == 'v':
            v = gen.live(e['t'], d[1])
            return self.take(v, [f for f in forms(e['t'], v) if f is not None or not (fixed or e['length'])])
        if d[0] == 'n':
            return self.take(None, [{}, collections.OrderedDict()])
        if d[0] == 'many':
            # (a tuple of tuples would be the contents of one master)
            vs = [self.value(e, x, fixed) for x in d[1]]
            return self.take(vs, [MyList(vs)] + ([tuple(vs)] if not vs or not isinstance(vs[0], tuple) else []))
        pairs = []
        for n, byid, v in d[1]:
            k = self.spec.els[n]['id'] if byid else n
            k = self.take(k, [MyInt(k), as_enum(k)] if byid else [MyStr(k)])
            pairs.append((k, self.value(self.spec.els[n], v)))
        if d[0] == 'd':
            return self.take(dict(pairs), [collections.OrderedDict(pairs), MyDict(pairs), collections.defaultdict(list, pairs)]
                             + ([pairs, MyList(pairs)] if pairs else []))
        return self.take(pairs, [MyList(pairs)] + ([dict(pairs)] if len(dict(pairs)) == len(pairs) else []))


def shape(x):
    """A copy of data with the types in it."""
    if isinstance(x, dict):
        return (type(x), [(type(k), k, shape(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x), [shape(v) for v in x])
    return (type(x), copy.copy(x) if isinstance(x, bytearray) else repr(x))


def documents(case, note):
    (lit, d, headers), seed, odds = case
    spec = ref.Spec(lit)
    sch = schema(spec)
    f = Former(spec, seed, odds)
    data = f.value(None, d)
    before = shape(data)
    exp = (c05.header(spec) if headers else b'') + c05.contents(spec, d)
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter('always')
        got = sch.encodes(data, headers=headers)
        out = io.BytesIO()
        sch.encode(out, data, headers=headers)
    same(bytes(got), exp, 'encodes(%r)' % (data,))
    same(out.getvalue(), exp, 'encode to a stream of %r' % (data,))
    same(shape(data), before, 'the data afterwards')
    same([str(w.message) for w in seen if issubclass(w.category, UserWarning)], [], 'warnings')
    for k in f.kinds:
        note(k)
    note.nt(f.n > 0)


def elements(case, note):
    (lit, name, d, length, width, infinite), seed, odds = case
    spec = ref.Spec(lit)
    e = spec.els[name]
    if length is not None and not c05.fit(spec, e, d, length):
        return
    f = Former(spec, seed, odds)
    data = f.value(e, d, length is not None)
    before = shape(data)
    infinite = infinite and e['t'] == 'master'
    try:
        exp = c05.expected(spec, e, d, length, width, infinite)
    except AssertionError:
        return
    cls = schema(spec)[name]
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter('always')
        got = cls.encode(data, length=length, lengthSize=width, infinite=infinite)
    same(bytes(got), exp, '%s.encode(%r)' % (name, data))
    same(shape(data), before, 'the data afterwards')
    same([str(w.message) for w in seen if issubclass(w.category, UserWarning)], [], 'warnings')
    for k in f.kinds:
        note(k)
    note.nt(f.n > 0)


TYPES = ref.Spec(dict(els=[dict(name='M', id=0x81, t='master')] + [
    dict(name=t.title(), id=0x90 + i, t=t, multiple=True) for i, t in enumerate(gen.LEAVES)],
    kids={None: ['M'], 'M': ['M'] + [t.title() for t in gen.LEAVES]}))
LIMITS = {'uint': (0, 2**64 - 1), 'int': (-2**63, 2**63 - 1)}


def fractions(case, note):
    """A float that is not integral, for an integer: its integer part, and a warning."""
    t, x, where = case
    sch = schema(TYPES)
    enc = encoding.encodeUInt if t == 'uint' else encoding.encodeInt

    def go():
        if where == 'codec':
            return bytes(enc(x))
        if where == 'element':
            return bytes(sch[t.title()].encode(x))[2:]
        return bytes(sch.encodes({'M': [(t.title(), x)]}))[4:]
    lo, hi = LIMITS[t]
    if x != x or x in (float('inf'), float('-inf')) or not lo <= int(x) <= hi:
        must_raise(go, '%r as %s' % (x, t))
        note('out of range')
        note.nt()
        return
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter('always')
        got = go()
    same(got, ref.encode(t, int(x)), '%r as %s' % (x, t))
    seen = [w for w in seen if issubclass(w.category, UserWarning)]
    if x == int(x):
        same(len(seen), 0, 'warnings for %r' % x)
    else:
        expect(seen, 'no warning for', x, 'written as', int(x))
        note('fraction')
    note.nt(x != int(x) or abs(x) > 2**53)


def text(case, note):
    """Any bytes for an ASCII string: what is not printable becomes a question mark."""
    b, array, length, where = case
    v = bytearray(b) if array else b
    exp = bytes(c if 32 <= c < 127 else 63 for c in b)
    if length is not None:
        exp = exp[:length].ljust(length, b'\0')
    if where:
        sch = schema(TYPES)
        exp = ref.id_bytes(0x90 + gen.LEAVES.index('str')) + ref.size_bytes(len(exp)) + exp
        got = sch['Str'].encode(v, length=length)
    else:
        got = encoding.encodeString(v, length)
    same(bytes(got), exp, '%r, %r' % (v, length))
    same(bytes(v), b, 'the value afterwards')
    note.nt(any(not 32 <= c < 127 for c in b))


def now(case, note):
    """No date: the time of day, in UTC whatever the time zone."""
    zone, where = case
    sch = schema(TYPES)
    old = os.environ.get('TZ')
    os.environ['TZ'] = zone
    time.tzset()
    try:
        before = time.time()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            b = bytes(encoding.encodeDate(None)) if where == 'codec' else bytes(sch['Date'].encode(None))[2:] \
                if where == 'element' else bytes(sch.encodes({'M': {'Date': None}}))[4:]
        after = time.time()
    finally:
        if old is None:
            del os.environ['TZ']
        else:
            os.environ['TZ'] = old
        time.tzset()
    got = (ref.decode('date', b) - datetime(1970, 1, 1)) / timedelta(seconds=1)
    expect(before - 60 <= got <= after + 60, 'the date is', got, 'at', before)
    note.nt(zone != 'UTC')


SEED = st.tuples(st.integers(0, 10**6), st.sampled_from([0.2, 0.6, 1.0]))
SUBS = [
    Sub('documents', documents, st.tuples(c05.document(), SEED).map(lambda x: (x[0],) + x[1]), quick=2000, thorough=50000, shards=4,
        rule='random schemata and data trees in random forms'),
    Sub('elements', elements, st.tuples(c05.single(), SEED).map(lambda x: (x[0],) + x[1]), quick=1600, thorough=40000, shards=3,
        rule='single elements, with length, width and infinite arguments'),
    Sub('fractions', fractions, st.tuples(st.sampled_from(['uint', 'int']), st.one_of(
        st.floats(-300, 300), st.floats(), st.floats(-2.0**65, 2.0**65), st.integers(-1000, 1000).map(lambda n: n / 4),
        st.builds(lambda k, d: 2.0**k + d, st.integers(0, 66), st.sampled_from([-1, -0.5, 0, 0.5, 1]))),
        st.sampled_from(['codec', 'element', 'document'])), quick=2000, thorough=40000, shards=1, rule='floats for integers'),
    Sub('text', text, st.tuples(st.binary(max_size=20), st.booleans(), st.one_of(st.none(), st.integers(1, 30)), st.booleans()),
        quick=1500, thorough=20000, shards=1, rule='bytes for ASCII strings'),
    Sub('now', now, cases=lambda: [(z, w) for z in ('UTC', 'Asia/Tokyo', 'EST5EDT', 'XYZ-11:30', 'XYZ9') for w in (
        'codec', 'element', 'document')], shards=1, rule='enumerated time zones'),
]
ASSUMPTIONS = ['None stands for an empty binary value, a float of zero, an empty master and the current time, as in the code']
