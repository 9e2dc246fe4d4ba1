"""C01: sizes x widths, IDs and descriptor byte strings against the reference model; non-trivial = a size of more than
one descriptor byte, an explicit width, a multi-byte ID, or bytes following the descriptor."""
import io

from hypothesis import strategies as st

from .. import gen, ref
from ..lib import must_raise
from ..run import Sub, expect, same
from ebmlite import encoding, decoding


def size_case(case, note):
    n, w, tail = case
    note('width %s' % w)
    note.nt(w is not None or n > 126 or tail)
    if w is None:
        b = encoding.encodeSize(n)
        exp = ref.size_bytes(n)
    elif not 1 <= w <= 8 or n > (1 << 7 * w) - 2:
        note('does not fit')
        must_raise(lambda: encoding.encodeSize(n, w), 'size %d in %d bytes' % (n, w))
        return
    else:
        b = encoding.encodeSize(n, w)
        exp = ref.size_bytes(n, w)
    same(bytes(b), exp, 'encodeSize(%d, %r)' % (n, w))
    f = io.BytesIO(exp + tail)
    same(decoding.readElementSize(f), (n, len(exp)), 'readElementSize(%r)' % exp)
    same(f.tell(), len(exp), 'bytes consumed')


def unknown_case(case, note):
    w, tail = case
    note('width %r' % (w,))
    note.nt()
    n = 1 if w in (None, -1) else w
    if not 1 <= n <= 8:
        must_raise(lambda: encoding.encodeSize(None, w), 'unknown size in %d bytes' % w)
        return
    b = encoding.encodeSize(None, w) if w is not None else encoding.encodeSize(None)
    # all bits 1 (the docstring and a test want those of the length marker, too)
    expect(bytes(b) in (ref.unknown_bytes(n), b'\xff' * n), 'unknown size of', n, 'bytes:', b)
    if n == 1:
        f = io.BytesIO(bytes(b) + tail)
        same(decoding.readElementSize(f), (None, n), 'readElementSize(%r)' % b)
        same(f.tell(), n, 'bytes consumed')


def read_size(case, note):
    b, tail = case
    try:
        exp = ref.read_size(b)
    except IndexError:
        note('truncated')
        return
    note('unknown' if exp[0] is None else 'known')
    note.nt(exp[1] > 1 or tail)
    data = b[:exp[1]]
    f = io.BytesIO(b'\xaa' + data + tail)
    f.seek(1)
    same(decoding.readElementSize(f), exp, 'readElementSize(%r)' % data)
    same(f.tell(), 1 + len(data), 'bytes consumed')


def id_case(case, note):
    eid, w, tail = case
    exp = ref.id_bytes(eid)
    note('class %d' % len(exp))
    note.nt(len(exp) > 1)
    same(bytes(encoding.encodeId(eid)), exp, 'encodeId(0x%X)' % eid)
    if w is not None:
        if not 1 <= w <= 4 or w < len(exp):
            must_raise(lambda: encoding.encodeId(eid, w), 'ID 0x%X in %d bytes' % (eid, w))
        else:
            same(bytes(encoding.encodeId(eid, w)), exp.rjust(w, b'\0'), 'encodeId(0x%X, %d)' % (eid, w))
    f = io.BytesIO(exp + tail)
    same(decoding.readElementID(f), (eid, len(exp)), 'readElementID(%r)' % exp)
    same(f.tell(), len(exp), 'bytes consumed')


def bad_id(case, note):
    b, = case
    note.nt()
    f = io.BytesIO(b)
    must_raise(lambda: decoding.readElementID(f), 'ID starting with 0x%02X' % b[0])


def all_first_bytes():
    for first in range(256):
        for fill in (b'\0', b'\xff', b'\x55', b'\x80', b'\x7f'):
            yield (bytes([first]) + fill * 7, b'zz')
        yield (bytes([first]) + b'\xff' * 6 + b'\xfe', b'')
        yield (bytes([first]) + b'\0' * 6 + b'\1', b'')


def edge_sizes():
    vals = set(range(0, 300))
    for k in range(0, 57):
        for d in range(-3, 4):
            vals.add((1 << k) + d)
    vals = sorted(v for v in vals if 0 <= v <= (1 << 56) - 2)
    for v in vals:
        for w in [None] + list(range(0, 11)):
            yield (v, w, b'\x81')


def edge_ids():
    for a, b in ref.ID_RANGES:
        for i in sorted({a, a + 1, a + 2, b - 2, b - 1, b, (a + b) // 2} | {
                min(b, max(a, (1 << k) + d)) for k in range(7, 29) for d in (-1, 0, 1)}):
            for w in (None, -1, 0, 1, 2, 3, 4, 5):
                yield (i, w, b'\xff')
    for i in range(0x81, 0xFF):
        yield (i, None, b'')


TAIL = st.binary(max_size=4)
SUBS = [
    Sub('edge-sizes', size_case, cases=edge_sizes, shards=2, rule='enumerated: every size within 3 of a power of two, '
        'all widths 0..10'),
    Sub('edge-ids', id_case, cases=edge_ids, shards=1, rule='enumerated: ID range edges and powers of two, widths'),
    Sub('first-bytes', read_size, cases=all_first_bytes, shards=1, rule='enumerated: all first bytes x fill patterns'),
    Sub('sizes', size_case, st.tuples(gen.SIZES, st.one_of(st.none(), st.integers(0, 10)), TAIL), quick=8000,
        thorough=200000, shards=2, rule='random sizes biased to 2^k and 2^7k edges'),
    Sub('read-size', read_size, st.tuples(st.one_of(st.binary(min_size=1, max_size=8), st.builds(
        lambda w, x: ref.unknown_bytes(w)[:-1] + bytes([x]), st.integers(1, 8), st.integers(0xF0, 0xFF))), TAIL),
        quick=4000, thorough=100000, shards=1, rule='random descriptor bytes'),
    Sub('unknown-sizes', unknown_case, cases=lambda: [(w, t) for w in [None] + list(range(-3, 20)) + [64, 1000] for t in (
        b'', b'\xff', b'\0')], shards=1, rule='enumerated: unknown sizes of all widths'),
    Sub('ids', id_case, st.tuples(gen.IDS, st.one_of(st.none(), st.integers(-1, 6)), TAIL), quick=4000,
        thorough=100000, shards=1, rule='random valid IDs'),
    Sub('bad-ids', bad_id, st.tuples(st.builds(lambda a, b: bytes([a]) + b, st.integers(0, 15), st.binary(max_size=8))),
        quick=500, thorough=5000, shards=1, rule='first byte announces more than 4 bytes'),
]
ASSUMPTIONS = ['a first size byte of 0x00 (undefined in EBML) is read like 0x01']
