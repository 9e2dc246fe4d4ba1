"""C02: 64-bit integers x requested lengths, and payload byte strings, at codec level and through schema elements
(class encode, parsed value) against Python's own two's complement; non-trivial = value outside -128..255, or an
explicit length, or a payload of more than one byte."""
import io

from hypothesis import strategies as st

from .. import gen, ref
from ..lib import must_raise, schema
from ..run import Sub, same
from ebmlite import encoding, decoding

SPEC = ref.Spec(dict(els=[dict(name='I', id=0x81, t='int', multiple=True), dict(name='U', id=0x4080, t='uint'),
                          dict(name='M', id=0x82, t='master')], kids={None: ['M', 'I', 'U'], 'M': ['I', 'U']}))
CODECS = dict(int=(encoding.encodeInt, decoding.readInt, ref.enc_int, 'I'),
              uint=(encoding.encodeUInt, decoding.readUInt, ref.enc_uint, 'U'))


def fits(t, v, length):
    if t == 'uint':
        return 0 <= v < 1 << 8 * length
    return -(1 << 8 * length - 1) <= v < 1 << 8 * length - 1


def encode(case, note):
    t, v, length, tail = case
    enc, dec, renc, name = CODECS[t]
    sch = schema(SPEC)
    note.nt(not -128 <= v <= 255 or length is not None)
    note('%s length %s' % (t, length))
    if not fits(t, v, 8) or (length is not None and not fits(t, v, length)):
        note('refused')
        must_raise(lambda: enc(v, length), '%s %d in length %r' % (t, v, length))
        must_raise(lambda: sch[name].encode(v, length=length), '%s element %d in length %r' % (t, v, length))
        if length is None:
            must_raise(lambda: sch.encodes({name: v}), 'document with %s %d' % (t, v))
        return
    exp = renc(v, length)
    same(bytes(enc(v, length)), exp, 'encode %s %d length %r' % (t, v, length))
    full = ref.id_bytes(SPEC.els[name]['id']) + ref.size_bytes(len(exp)) + exp
    same(bytes(sch[name].encode(v, length=length)), full, 'element encode')
    f = io.BytesIO(b'\x11' + exp + tail)
    f.seek(1)
    same(dec(f, len(exp)), v, 'read back')
    same(f.tell(), 1 + len(exp), 'bytes consumed')
    el = sch.loads(full + b'\x82\x80')[0]
    same(el.value, v, 'element value')


def read(case, note):
    t, b, tail = case
    _, dec, _, name = CODECS[t]
    note.nt(len(b) > 1)
    note('%s payload %d' % (t, len(b)))
    f = io.BytesIO(b + tail)
    exp = ref.decode(t, b)
    same(dec(f, len(b)), exp, 'read %s %r' % (t, b))
    same(f.tell(), len(b), 'bytes consumed')
    sch = schema(SPEC)
    data = ref.id_bytes(SPEC.els[name]['id']) + ref.size_bytes(len(b)) + b
    doc = sch.loads(b'\x82' + ref.size_bytes(len(data)) + data)
    same(doc[0].value[0].value, exp, 'value of element with payload %r' % b)


def edge_values():
    vals = set()
    for k in range(0, 66):
        for d in (-2, -1, 0, 1, 2):
            vals |= {(1 << k) + d, -(1 << k) + d, (1 << k) * 0x55 // 0x80 + d}
    for i, v in enumerate(sorted(vals)):
        for t in ('int', 'uint'):
            for length in [None] + list(range(1, 9)):
                yield (t, v, length, b'')


def edge_payloads():
    for n in range(0, 9):
        for fill in (0, 0xFF, 0x7F, 0x80, 0x55, 0xAA):
            for pos in range(max(n, 1)):
                for x in (0, 1, 0x7F, 0x80, 0xFF, 0xFE, 0x40):
                    b = bytearray([fill] * n)
                    if n:
                        b[pos] = x
                    for t in ('int', 'uint'):
                        yield (t, bytes(b), b'\xff')


T = st.sampled_from(['int', 'uint'])
V = st.one_of(gen.U64, gen.I64, gen.edges(70, True))
SUBS = [
    Sub('edge-values', encode, cases=edge_values, shards=2, rule='enumerated: values within 2 of +-2^k, all lengths'),
    Sub('edge-payloads', read, cases=edge_payloads, shards=2, rule='enumerated payload patterns of 0..8 bytes'),
    Sub('encode', encode, st.tuples(T, V, st.one_of(st.none(), st.integers(1, 8)), st.binary(max_size=3)),
        quick=8000, thorough=150000, shards=3, rule='random values and lengths'),
    Sub('read', read, st.tuples(T, st.binary(max_size=8), st.binary(max_size=3)), quick=6000, thorough=150000,
        shards=2, rule='random payloads'),
]
ASSUMPTIONS = ['length 0 is left out: the existing tests require encodeInt/encodeUInt to refuse it']
