"""C03: doubles and singles by bit pattern, dates by microsecond and by raw 64-bit offset, at codec and element level;
non-trivial = a value other than 0 or the epoch, or an explicit or refused length."""
import datetime as D
import io
import struct

from hypothesis import strategies as st

from .. import gen, ref
from ..lib import must_raise, schema
from ..run import Sub, same
from ebmlite import encoding, decoding

SPEC = ref.Spec(dict(els=[dict(name='F', id=0x81, t='float', multiple=True), dict(name='D', id=0x82, t='date')],
                     kids={None: ['F', 'D']}))


def key(x):
    same(type(x), float, 'type')
    return ref.float_key(x)


def element(name, payload):
    b = ref.id_bytes(SPEC.els[name]['id']) + ref.size_bytes(len(payload)) + payload
    return b, schema(SPEC).loads(b)


def floats(case, note):
    b, length = case
    v = gen.unbits(b)
    note.nt(v != 0 or length is not None)
    note('length %s' % length)
    cls = schema(SPEC)['F']
    if length not in (None, 0, 4, 8):
        must_raise(lambda: encoding.encodeFloat(v, length), 'float of length %r' % length)
        must_raise(lambda: cls.encode(v, length=length), 'float element of length %r' % length)
        return
    if length == 4:
        try:
            exp = struct.pack('>f', v)
        except OverflowError:
            note('too large for single')
            must_raise(lambda: encoding.encodeFloat(v, 4), '%r as single' % v)
            return
    elif length == 0:
        same(bytes(encoding.encodeFloat(v, 0)), b'', 'encodeFloat length 0')
        return
    else:
        exp = ref.enc_float(v, length)
    got = bytes(encoding.encodeFloat(v, length))
    same(len(got), len(exp), 'length of encoded %r' % v)
    back = struct.unpack('>f' if length == 4 else '>d', exp)[0] if exp else 0.0
    if v == v:
        same(got, exp, 'encodeFloat(%r, %r)' % (v, length))
        if length != 4:
            same(key(back), key(v), 'self-test')
    f = io.BytesIO(got + b'\xff')
    same(key(decoding.readFloat(f, len(got))), key(back), 'read back %r' % v)
    same(f.tell(), len(got), 'bytes consumed')
    enc = bytes(cls.encode(v, length=length))
    full, doc = element('F', got)
    same(enc, full, 'element encode')
    same(key(doc[0].value), key(back), 'element value')
    if length is None:
        same(key(schema(SPEC).loads(schema(SPEC).encodes({'F': [v, 1.0]}))[0].value), key(v), 'document round trip')


def read_float(case, note):
    b, = case
    note.nt(len(b) > 0)
    note('length %d' % len(b))
    if len(b) not in (0, 4, 8):
        must_raise(lambda: decoding.readFloat(io.BytesIO(b), len(b)), 'float payload of length %d' % len(b))
        must_raise(lambda: [e.value for e in element('F', b)[1]], 'float element of length %d' % len(b))
        return
    exp = ref.decode('float', b)
    f = io.BytesIO(b'\x01' + b + b'\x02')
    f.seek(1)
    same(key(decoding.readFloat(f, len(b))), key(exp), 'readFloat(%r)' % b)
    same(f.tell(), 1 + len(b), 'bytes consumed')
    same(key(element('F', b)[1][0].value), key(exp), 'element value')


def singles(case, note):
    b, = case
    v = struct.unpack('>f', b)[0]
    note.nt(v != 0)
    got = bytes(encoding.encodeFloat(v, 4))
    if v == v:
        same(got, b, 'single %r' % v)
    same(key(decoding.readFloat(io.BytesIO(got), 4)), key(v), 'single read back')


def dates(case, note):
    us, length = case
    note.nt(us != 0)
    dt = ref.EPOCH + D.timedelta(microseconds=us)
    note('before epoch' if us < 0 else 'after epoch')
    cls = schema(SPEC)['D']
    if length not in (None, 8):
        note('refused length')
        must_raise(lambda: encoding.encodeDate(dt, length), 'date of length %r' % length)
        must_raise(lambda: cls.encode(dt, length=length), 'date element of length %r' % length)
        return
    if not -(2**63) <= us * 1000 < 2**63:
        note('out of range')
        must_raise(lambda: encoding.encodeDate(dt, length), 'date %s' % dt)
        must_raise(lambda: cls.encode(dt), 'date element %s' % dt)
        return
    exp = struct.pack('>q', us * 1000)
    same(bytes(encoding.encodeDate(dt, length)), exp, 'encodeDate(%s)' % dt)
    f = io.BytesIO(exp + b'\1')
    same(decoding.readDate(f, 8), dt, 'read back')
    same(f.tell(), 8, 'bytes consumed')
    full, doc = element('D', exp)
    same(bytes(cls.encode(dt, length=length)), full, 'element encode')
    same(doc[0].value, dt, 'element value')
    same(schema(SPEC).loads(schema(SPEC).encodes({'D': dt}))[0].value, dt, 'document round trip')


def read_date(case, note):
    b, = case
    note.nt()
    if len(b) != 8:
        note('refused length')
        must_raise(lambda: decoding.readDate(io.BytesIO(b + b'\0' * 8), len(b)), 'date payload of length %d' % len(b))
        must_raise(lambda: [e.value for e in element('D', b)[1]], 'date element of length %d' % len(b))
        return
    exp = ref.decode('date', b)
    same(decoding.readDate(io.BytesIO(b), 8), exp, 'readDate(%r)' % b)
    same(element('D', b)[1][0].value, exp, 'element value')


def date_edges():
    for base in (0, 10**6, 60 * 10**6, 86400 * 10**6, 365 * 86400 * 10**6, 10**9, gen.DATE_US_MAX - 2):
        for s in (1, -1):
            for d in (-2, -1, 0, 1, 2, 500000, -500000):
                for length in (None, 8, 0, 4, 7, 9):
                    yield (s * base + d, length)


WIDE_US = st.one_of(gen.DATE_US, st.integers(-63113904000000000, 252423993599999999))
SUBS = [
    Sub('date-edges', dates, cases=date_edges, shards=1, rule='enumerated dates around epoch, units and limits'),
    Sub('floats', floats, st.tuples(gen.F64, st.one_of(st.none(), st.none(), st.sampled_from([0, 4, 8]),
                                                       st.integers(1, 12))), quick=6000, thorough=120000,
        shards=2, rule='random doubles by bit pattern, all lengths'),
    Sub('singles', singles, st.tuples(st.one_of(st.binary(min_size=4, max_size=4), st.floats(width=32).map(
        lambda f: struct.pack('>f', f)))), quick=4000, thorough=100000, shards=1, rule='random singles'),
    Sub('read-float', read_float, st.tuples(st.one_of(st.binary(max_size=10), st.binary(min_size=8, max_size=8),
                                                      st.binary(min_size=4, max_size=4))),
        quick=4000, thorough=80000, shards=1, rule='random payloads'),
    Sub('dates', dates, st.tuples(WIDE_US, st.one_of(st.none(), st.none(), st.just(8), st.integers(0, 10))),
        quick=6000, thorough=120000, shards=2, rule='random microsecond offsets'),
    Sub('read-date', read_date, st.tuples(st.one_of(st.binary(min_size=8, max_size=8), gen.I64.map(
        lambda n: struct.pack('>q', n)), st.binary(max_size=12))), quick=4000, thorough=80000, shards=1,
        rule='random 8-byte payloads and wrong lengths'),
]
ASSUMPTIONS = ['-0.0 counts as zero (written as an empty payload by default)', 'NaNs are equal to each other']
