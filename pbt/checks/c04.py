"""C04: random text and bytes x requested lengths, payload byte strings, wrong types; at codec, element and document
level; non-trivial = non-empty value with a requested length, or a non-ASCII or non-printable character, or a NUL."""
import io

from hypothesis import strategies as st

from .. import gen, ref
from ..lib import must_raise, schema
from ..run import Sub, expect, same
from ebmlite import encoding, decoding

SPEC = ref.Spec(dict(els=[dict(name='S', id=0x81, t='str', multiple=True), dict(name='U', id=0x82, t='uni'),
                          dict(name='B', id=0x83, t='bin'), dict(name='I', id=0x84, t='uint')],
                     kids={None: ['S', 'U', 'B', 'I']}))
ENC = dict(str=(encoding.encodeString, 'S'), uni=(encoding.encodeUnicode, 'U'), bin=(encoding.encodeBinary, 'B'))


def element(name, payload):
    b = ref.id_bytes(SPEC.els[name]['id']) + ref.size_bytes(len(payload)) + payload
    return b, schema(SPEC).loads(b + b'\x84\x81\x05')


def read(t, b):
    """value of payload b by the type's reader, checking the consumption"""
    f = io.BytesIO(b'\x01' + b + b'A')
    f.seek(1)
    v = {'str': decoding.readString, 'uni': decoding.readUnicode}[t](f, len(b)) if t != 'bin' else f.read(len(b))
    same(f.tell(), 1 + len(b), 'bytes consumed')
    return v


def splits_char(b, length):
    """Does cutting UTF-8 text b at length split a character? (known finding)"""
    return 0 < length < len(b) and b[length] & 0xC0 == 0x80


def text(case, note):
    t, s, length = case
    enc, name = ENC[t]
    full = ref.encode(t, s)
    note.nt(length is not None and s or any(not 32 <= ord(c) < 127 for c in s))
    if length is not None:
        note('padded' if length > len(full) else 'cut' if length < len(full) else 'exact')
        if t == 'uni' and splits_char(full, length):
            note('cut inside a character: known finding, excluded')
            same(len(enc(s, length)), length, 'length of encoded text')
            return
    exp = ref.encode(t, s, length)
    got = bytes(enc(s, length)) if length is not None else bytes(enc(s))
    same(got, exp, 'encoded %r with length %r' % (s, length))
    want = exp.rstrip(b'\0').decode('utf-8')
    if length is None:
        same(want, s if t == 'uni' else ''.join(c if ' ' <= c <= '~' else '?' for c in s), 'self-test')
    same(read(t, got), want, 'read back %r' % s)
    b, doc = element(name, exp)
    same(bytes(schema(SPEC)[name].encode(s, length=length)), b, 'element encode')
    same(doc[0].value, want, 'element value')
    same([e.id for e in doc], [SPEC.els[name]['id'], 0x84], 'elements')
    if length is None:
        same(bytes(schema(SPEC).encodes({name: s})), b, 'document encode')


def binary(case, note):
    b, length = case
    note.nt(b and length is not None or len(b) > 126)
    if length is not None and len(b) > length:
        note('refused')
        for v in (b, bytearray(b)):
            must_raise(lambda: encoding.encodeBinary(v, length), 'binary too long')
            must_raise(lambda: schema(SPEC)['B'].encode(v, length=length), 'binary element too long')
        return
    exp = ref.pad(b, length)
    note('padded' if length and length > len(b) else 'as is')
    same(bytes(encoding.encodeBinary(b, length)), exp, 'encodeBinary')
    same(bytes(encoding.encodeBinary(bytearray(b), length)), exp, 'encodeBinary of a bytearray')
    full, doc = element('B', exp)
    same(bytes(schema(SPEC)['B'].encode(b, length=length)), full, 'element encode')
    same(bytes(doc[0].value), exp, 'element value')
    same(len(doc[0]), len(exp), 'len of element')


def read_any(case, note):
    t, b = case
    note.nt(len(b) > 1)
    try:
        exp = ref.decode(t, b)
    except UnicodeDecodeError:
        note('malformed UTF-8')
        must_raise(lambda: read(t, b), 'malformed UTF-8 %r' % b)
        must_raise(lambda: element('U', b)[1][0].value, 'malformed UTF-8 element')
        return
    note('NUL' if b'\0' in b else 'no NUL')
    same(read(t, b), exp, 'read %s %r' % (t, b))
    v = element(ENC[t][1] if t != 'bin' else 'B', b)[1][0].value
    same(v if t != 'bin' else bytes(v), exp, 'element value')


WRONG = dict(none=None, int=5, float=1.5, list=[1], dict={'a': 1}, bool=True, tuple=(1,), obj=object, set={1},
             cplx=1j, zero=0, bytes_gen=range(3))


def wrong(case, note):
    t, kind, length = case
    note.nt()
    note(kind)
    if t == 'bin' and kind == 'none':
        return      # documented as empty by the code's own tests
    v = WRONG[kind]
    must_raise(lambda: ENC[t][0](v, length), '%r as %s' % (v, t))
    if kind not in ('list', 'tuple'):
        must_raise(lambda: schema(SPEC)[ENC[t][1]].encode(v, length=length), '%r as %s element' % (v, t))


def chars():
    """Every code point up to 0x2FF, and samples above, in an ASCII string, alone and in context."""
    for c in list(range(1, 0x300)) + [0x7FF, 0x800, 0xFFFD, 0xFFFF, 0x10000, 0x10FFFF, 0x2028]:
        yield ('str', chr(c), None)
        yield ('str', 'a' + chr(c) + 'b' + chr(c), 4)
        yield ('uni', 'a' + chr(c) + 'b', None)


def planes():
    return [p for p in range(0, 0x1100) if not 0xD8 <= p <= 0xDF]


def each_char(page, note):
    """Every code point of a page of 256: alone, first, last, between, and followed by padding."""
    note.nt()
    f = decoding.readUnicode
    for c in range(page << 8 or 1, (page + 1) << 8):
        c = chr(c)
        for s in (c, c + 'a', 'é' + c, 'a' + c + '\n', c + c):
            b = s.encode('utf-8')
            if bytes(encoding.encodeUnicode(s)) != b:
                same(bytes(encoding.encodeUnicode(s)), b, 'encoded %r' % s)
            if f(io.BytesIO(b), len(b)) != s:
                same(f(io.BytesIO(b), len(b)), s, 'read back %r' % s)
        b = (c + 'a' + c).encode('utf-8')
        same(bytes(encoding.encodeUnicode(c + 'a' + c, len(b) + 3)), b + b'\0\0\0', 'encoded and padded')
        same(f(io.BytesIO(b + b'\0\0\0'), len(b) + 3), c + 'a' + c, 'padded text read')


def lengths():
    for t, unit in (('str', 'a'), ('uni', 'a'), ('uni', 'é'), ('uni', '€'), ('uni', '😀')):
        n = len(unit.encode())
        for k in (0, 1, 2, 3, 7, 31, 32, 63, 64, 126, 127, 128):
            for d in (-4, -3, -2, -1, 0, 1, 2, 3, 4, 100):
                if k * n + d >= 0:
                    yield (t, unit * k, k * n + d)


ANY = st.text(st.characters(exclude_characters='\0'), max_size=20)
LEN = st.one_of(st.none(), st.integers(0, 40), st.integers(100, 300))
SUBS = [
    Sub('chars', text, cases=chars, shards=1, rule='enumerated: each code point below U+0300'),
    Sub('each-char', each_char, cases=planes, shards=4, rule='enumerated: every Unicode code point, first, last and inside a text'),
    Sub('lengths', text, cases=lengths, shards=1, rule='enumerated: text lengths around the requested length'),
    Sub('ascii', text, st.tuples(st.just('str'), st.one_of(gen.ASCII, ANY, st.text(st.characters(
        min_codepoint=1, max_codepoint=255))), LEN), quick=4000, thorough=60000, rule='random text in ASCII strings'),
    Sub('unicode', text, st.tuples(st.just('uni'), gen.UNI, LEN), quick=4000, thorough=60000,
        rule='random NUL-free Unicode text'),
    Sub('binary', binary, st.tuples(st.one_of(gen.BIN, st.binary(max_size=300)), LEN), quick=3000, thorough=50000,
        shards=1, rule='random bytes'),
    Sub('read', read_any, st.tuples(st.sampled_from(['str', 'uni', 'uni', 'bin']), st.one_of(
        st.binary(max_size=20), gen.payload('uni'), gen.payload('str'), st.builds(
            lambda a, b: a + b'\0' + b, gen.payload('uni'), st.binary(max_size=5)), st.builds(
            lambda a, i, x: a[:i] + x + a[i:], gen.payload('uni'), st.integers(0, 12), st.binary(max_size=2)))),
        quick=4000, thorough=60000, rule='random payloads, with NULs and malformed UTF-8'),
    Sub('wrong-types', wrong, cases=lambda: [(t, k, n) for t in ENC for k in WRONG for n in (None, 0, 4)], shards=1,
        rule='enumerated: values of other types'),
]
ASSUMPTIONS = ['NUL and lone surrogates are outside the text domain', 'None is accepted as empty binary data']


def k2():
    b = bytes(encoding.encodeUnicode('é', 1))
    try:
        b.decode('utf-8')
    except UnicodeDecodeError:
        return "encodeUnicode('é', 1) == %r, half a character; reading it back raises" % b


KNOWN = dict(K2=k2)
