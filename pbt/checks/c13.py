"""C13: random bytes and codec options: text decodes to the bytes, is laid out in the requested columns, and is the same
when written to a stream; non-trivial = more than one row of text, or an option that is not the default."""
import base64
import io
import re

from hypothesis import strategies as st

from .. import gen
from ..run import Sub, expect, same
from ebmlite.xml_codecs import BINARY_CODECS, Base64Codec, HexCodec, IgnoreCodec

DATA = st.one_of(gen.BIN, st.binary(max_size=400), st.integers(0, 1200).map(lambda n: bytes(i * 7 & 255 for i in range(n))),
                 st.tuples(st.integers(0, 255), st.integers(0, 300)).map(lambda x: bytes([x[0]]) * x[1]))
COLS = st.one_of(st.none(), st.just(0), st.integers(1, 12), st.integers(1, 130), st.sampled_from([32, 64, 75, 76, 77]))
INDENT = st.one_of(st.just(''), st.text(st.sampled_from(' \t'), max_size=9))
OFFSET = st.one_of(st.just(0), st.integers(0, 300), st.integers(0, 1 << 40), st.sampled_from([999990, 999999, 10**6]))


@st.composite
def options(draw):
    name = draw(st.sampled_from(['base64', 'hex', 'base64', 'hex', 'ignore']))
    o = {}
    if draw(st.integers(0, 4)):
        o['cols'] = draw(COLS)
    if name == 'hex':
        if draw(st.booleans()):
            o['width'] = draw(st.integers(1, 40))
        if draw(st.booleans()):
            o['offsets'] = draw(st.booleans())
    args = {}
    if draw(st.booleans()):
        args['indent'] = draw(INDENT)
    if draw(st.booleans()):
        args['offset'] = draw(OFFSET)
    return (name, o, args, draw(st.booleans()))


def rows(text, indent):
    out = []
    for line in text.split('\n'):
        if not line.strip():
            continue
        expect(line.startswith(indent), 'line', line, 'does not start with the indentation', indent)
        out.append(line[len(indent):])
    return out


def layout(name, o, args, data, text):
    indent = args.get('indent', '')
    if name == 'ignore':
        return same(text, '', 'text')
    if name == 'base64':
        cols = o.get('cols', 76)
        if not cols:
            expect('\n' not in text, 'newline in a single block', text)
            return same(text.strip(), base64.b64encode(data).decode(), 'text')
        rs = rows(text, indent)
        for r in rs[:-1]:
            same(len(r), cols, 'length of row %r' % r)
        expect(all(len(r) <= cols for r in rs), 'too long a row', rs)
        return same(''.join(rs), base64.b64encode(data).decode(), 'text')
    cols, width = o.get('cols', 32), o.get('width', 2)
    if not cols:
        expect('\n' not in text, 'newline in a single block', text)
        rs = [text] if data else []
        cols = len(data) or 1
    else:
        rs = rows(text, indent)
    same(len(rs), -(-len(data) // cols), 'number of rows')
    label = o.get('offsets', True) and o.get('cols', 32)
    for i, r in enumerate(rs):
        if label:
            m = re.match(r'\[(\d{6,})\] ', r)
            expect(m, 'no offset in row', r)
            same(int(m.group(1)), args.get('offset', 0) + i * cols, 'offset of row')
            r = r[m.end():]
        words = r.split()
        expect(all(len(w) <= 2 * width for w in words), 'row with too wide a column', r)
        same(bytes.fromhex(''.join(words)), data[i * cols:(i + 1) * cols], 'row %d' % i)


class Sized(io.StringIO):
    """A stream that has a length, and so is false while it is empty"""
    def __len__(self):
        return len(self.getvalue())


class SizedBytes(io.BytesIO):
    def __len__(self):
        return len(self.getvalue())


def check(case, note):
    data, (name, o, args, as_bytes), live = case
    cls = BINARY_CODECS[name]
    expect(cls is dict(base64=Base64Codec, hex=HexCodec, ignore=IgnoreCodec)[name], 'codec', name)
    codec = cls(**o)
    same(codec.NAME, name, 'NAME')
    kw = dict(args)
    if as_bytes and 'indent' in kw:
        kw['indent'] = kw['indent'].encode()
    src = bytearray(data) if live else data
    text = codec.encode(src, **kw)
    same(bytes(src), data, 'data after encoding')
    expect(isinstance(text, str), 'encoded to', type(text))
    want = b'' if name == 'ignore' else data
    for t in (text, text.encode(), '  \n ' + text + '\n\t ', text.replace('\n', '\r\n'), text.replace('\n', '\n\n   ')):
        same(bytes(cls.decode(t)), want, 'decoded')
    same(bytes(codec.decode(text)), want, 'decoded by the instance')
    layout(name, o, args, data, text)
    for out, back in ((io.StringIO(), io.BytesIO(b'')), (Sized(), SizedBytes())):
        n = codec.encode(src, stream=out, **kw)
        same(out.getvalue(), text, 'text written to a stream')
        same((type(n), n), (int, len(text)), 'count of encode')
        n = cls.decode(text, stream=back)
        same(back.getvalue(), want, 'bytes decoded to a stream')
        same((type(n), n), (int, len(want)), 'count of decode')
    same(codec.encode(src, **kw), text, 'text of a second call')
    # a stream that has contents already keeps them
    out = io.StringIO()
    out.write('before')
    codec.encode(src, stream=out, **kw)
    same(out.getvalue(), 'before' + text, 'text appended to a stream')
    note(name)
    note('rows > 1' if text.count('\n') > 1 else 'rows <= 1')
    note.nt(data and name != 'ignore' and (text.count('\n') > 1 or bool(o) or bool(args)))


def empty(case, note):
    name, data = case
    note.nt()
    cls = BINARY_CODECS[name]
    same(bytes(cls.decode(data)), b'', 'decoded')
    same(cls.decode(data, stream=io.BytesIO()), 0, 'count')


LARGE = [(c, o) for c in ('base64', 'hex') for o in ({}, dict(cols=None), dict(cols=1), dict(cols=76), dict(cols=4096), dict(cols=100000))] + [
    ('hex', dict(cols=c, width=w)) for c in (None, 32, 5000) for w in (1, 4, 5000, 10**6)]


SUBS = [
    Sub('large', check, cases=lambda: [(bytes((i * i + i // 251) & 255 for i in range(n)), (c, o, a, False), False) for n in (5000, 70000)
                                       for c, o in LARGE for a in ({}, dict(indent='  '))], shards=4, rule='enumerated: long data and wide rows'),
    Sub('codecs', check, st.tuples(DATA, options(), st.booleans()), quick=6000, thorough=200000, shards=6,
        rule='random data and options'),
    Sub('lengths', check, cases=lambda: [(bytes(range(1, n + 1)), (c, o, {}, False), False) for n in range(0, 80)
                                         for c, o in [('base64', {}), ('hex', {}), ('base64', dict(cols=4)),
                                                      ('hex', dict(cols=3, width=2)), ('base64', dict(cols=None)),
                                                      ('hex', dict(cols=None)), ('hex', dict(cols=16, width=4))]],
        shards=2, rule='enumerated data lengths 0..79 x seven option sets'),
    Sub('empty', empty, cases=lambda: [(c, d) for c in BINARY_CODECS if c in ('base64', 'hex', 'ignore')
                                       for d in (None, '', b'', '\n', '  \n\t')], shards=1, rule='enumerated empty text'),
]
ASSUMPTIONS = ['word widths from 1', 'indentation of spaces and tabs']
