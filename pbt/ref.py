"""Independent reference model of EBML and of ebmlite's schema files.

Nothing here imports the code under test.  Sources: the EBML RFC's size/ID
encoding and the documentation of ebmlite (README, docstrings).
"""
import struct
from datetime import datetime, timedelta
from xml.sax.saxutils import quoteattr

EPOCH = datetime(2001, 1, 1)
ID_RANGES = [(0x81, 0xFE), (0x407F, 0x7FFE), (0x203FFF, 0x3FFFFE), (0x101FFFFF, 0x1FFFFFFE)]

# ---------------------------------------------------------------- descriptors


def id_bytes(eid):
    n = (eid.bit_length() + 7) // 8
    return eid.to_bytes(n, 'big')


def valid_id(eid):
    return any(a <= eid <= b for a, b in ID_RANGES)


def size_width(n):
    for w in range(1, 9):
        if n < (1 << 7 * w) - 1:
            return w
    raise ValueError(n)


def size_bytes(n, w=None):
    w = w or size_width(n)
    assert 0 <= n < (1 << 7 * w) - 1
    return (n | (1 << 7 * w)).to_bytes(w, 'big')


def unknown_bytes(w):
    return ((1 << 7 * w + 1) - 1).to_bytes(w, 'big')


def read_size(b, pos=0):
    """-> (size or None for unknown, width); raises IndexError at end of data"""
    first = b[pos]
    w = 9 - first.bit_length()      # first == 0: 9
    if w > 8:
        w = 8                       # ebmlite reads 0x00 like 0x01 (undefined in EBML)
    raw = b[pos:pos + w]
    if len(raw) < w:
        raise IndexError
    v = int.from_bytes(raw, 'big') & ((1 << 7 * w) - 1)
    return (None if v == (1 << 7 * w) - 1 else v), w


def read_id(b, pos=0):
    first = b[pos]
    w = 9 - first.bit_length()
    if w > 4:
        raise ValueError('bad id')
    raw = b[pos:pos + w]
    if len(raw) < w:
        raise IndexError
    return int.from_bytes(raw, 'big'), w

# ---------------------------------------------------------------- payloads


def enc_uint(v, length=None):
    n = length if length is not None else max(1, (v.bit_length() + 7) // 8)
    return v.to_bytes(n, 'big')


def enc_int(v, length=None):
    n = length
    if n is None:
        n = 1
        while not -(1 << 8 * n - 1) <= v < (1 << 8 * n - 1):
            n += 1
    return v.to_bytes(n, 'big', signed=True)


def enc_float(v, length=None):
    if length is None:
        length = 0 if v == 0 else 8
    return b'' if length == 0 else struct.pack('>f' if length == 4 else '>d', v)


def date_ns(dt):
    d = dt - EPOCH
    return ((d.days * 86400 + d.seconds) * 1000000 + d.microseconds) * 1000


def enc_date(dt):
    return struct.pack('>q', date_ns(dt))


def pad(b, length):
    return b if length is None else b.ljust(length, b'\0')


def enc_ascii(s, length=None):
    b = bytes(ord(c) if 32 <= ord(c) < 127 else 0x3F for c in s)
    return pad(b if length is None else b[:length], length)


def enc_utf8(s, length=None):
    b = s.encode('utf-8')
    return pad(b if length is None else b[:length], length)


def encode(t, v, length=None):
    """Payload bytes of one non-master value, as ebmlite documents it."""
    if t == 'uint':
        return enc_uint(v, length)
    if t == 'int':
        return enc_int(v, length)
    if t == 'float':
        return enc_float(v, length)
    if t == 'date':
        return enc_date(v)
    if t == 'str':
        return enc_ascii(v, length)
    if t == 'uni':
        return enc_utf8(v, length)
    if t == 'bin':
        return pad(v, length)
    if t == 'void':
        return b'\xff' * (length or 0)
    raise ValueError(t)


def decode(t, b):
    """Value of a payload read as type t (bytes for binary)."""
    if t == 'uint':
        return int.from_bytes(b, 'big')
    if t == 'int':
        return int.from_bytes(b, 'big', signed=True)
    if t == 'float':
        return {0: lambda: 0.0, 4: lambda: struct.unpack('>f', b)[0], 8: lambda: struct.unpack('>d', b)[0]}[len(b)]()
    if t == 'date':
        return EPOCH + timedelta(microseconds=int.from_bytes(b, 'big', signed=True) // 1000)
    if t == 'str':
        return b.partition(b'\0')[0].decode('ascii', 'replace')
    if t == 'uni':
        return b.partition(b'\0')[0].decode('utf-8')
    if t in ('bin', 'unknown'):
        return bytes(b)
    if t == 'void':
        return b''
    raise ValueError(t)


def float_key(x):
    """Floats by bit pattern; all NaNs alike (NaN payload bits may be quieted
    by a conversion between single and double)."""
    return 'nan' if x != x else struct.pack('>d', x)


def canon(v):
    """A form in which equal values compare equal, bit for bit."""
    if isinstance(v, float):
        return ('f', float_key(v))
    if isinstance(v, bool):
        return ('b', v)
    if isinstance(v, (bytes, bytearray)):
        return ('y', bytes(v))
    if isinstance(v, dict):
        return {k: canon(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [canon(x) for x in v]
    return (type(v).__name__, v)

# ---------------------------------------------------------------- schemata

TAGS = dict(int='IntegerElement', uint='UIntegerElement', float='FloatElement', str='StringElement',
            uni='UnicodeElement', date='DateElement', bin='BinaryElement', void='BinaryElement',
            master='MasterElement')
LEGACY = dict(int='integer', uint='uinteger', float='float', str='string', uni='utf-8', date='date',
              bin='binary', void='binary', master='master')
DTYPES = dict(int=int, uint=int, float=float, str=str, uni=str, date=datetime, bin=bytearray, void=bytearray,
              unknown=bytearray, master=list)


def default(e):
    """The default value of a header element, if it is one of the element's type."""
    if not e or e['default'] is None:
        return None
    try:
        return e['default'] if e['t'] == 'str' else int(e['default'])
    except ValueError:
        return None


class Spec:
    """A schema: `els` maps names to attribute dicts (id, t, multiple,
    mandatory, precache (or None), length (or None), glob, default (or None)),
    `kids` maps parent names (None: root) to lists of child names."""

    def __init__(self, literal):
        self.literal = literal
        self.els = {}
        for e in literal['els']:
            e = dict(dict(multiple=False, mandatory=False, precache=None, length=None, glob=False, default=None), **e)
            self.els[e['name']] = e
        self.kids = {None: list(literal['kids'].get(None, []))}
        for n, e in self.els.items():
            if e['t'] == 'master':
                self.kids[n] = list(literal['kids'].get(n, []))
        self.by_id = {e['id']: e for e in self.els.values()}
        self.globals = {e['id'] for e in self.els.values() if e['glob']}

    def type_of(self, eid):
        e = self.by_id.get(eid)
        return 'unknown' if e is None else e['t']

    def name_of(self, eid):
        e = self.by_id.get(eid)
        return 'UnknownElement' if e is None else e['name']

    def child_ids(self, name):
        return {self.els[k]['id'] for k in self.kids.get(name, [])}

    def valid_child(self, master_id, eid):
        return eid in self.child_ids(self.by_id[master_id]['name']) or eid in self.globals

    def attrs(self, e, first=True):
        a = [('name', e['name']), ('id', '0x%X' % e['id'])]
        if first:
            a += [('multiple', '1' if e['multiple'] else '0'), ('mandatory', '1' if e['mandatory'] else '0')]
            if e['precache'] is not None:
                a.append(('precache', '1' if e['precache'] else '0'))
            if e['length'] is not None:
                a.append(('length', str(e['length'])))
            if e['glob']:
                a.append(('global', '1'))
            if e['default'] is not None:
                a.append(('default', e['default']))
        return ' '.join('%s=%s' % (k, quoteattr(v)) for k, v in a)

    def xml(self):
        out, done = ['<?xml version="1.0" encoding="utf-8"?>\n<Schema>\n'], set()

        def emit(name, depth):
            e = self.els[name]
            first = name not in done
            done.add(name)
            kids = self.kids.get(name, []) if first else []
            out.append('  ' * depth + '<%s %s' % (TAGS[e['t']], self.attrs(e, first)))
            if kids:
                out.append('>\n')
                for k in kids:
                    emit(k, depth + 1)
                out.append('  ' * depth + '</%s>\n' % TAGS[e['t']])
            else:
                out.append('/>\n')
        for n in self.kids[None]:
            emit(n, 1)
        out.append('</Schema>\n')
        missing = set(self.els) - done
        assert not missing, missing
        return ''.join(out)

    def legacy_xml(self):
        out = ['<?xml version="1.0" encoding="utf-8"?>\n<table>\n']
        for e in self.els.values():
            out.append('  <element %s type="%s" level="%d"/>\n' % (
                self.attrs(dict(e, glob=False)), LEGACY[e['t']], -1 if e['glob'] else 1))
        out.append('</table>\n')
        return ''.join(out)

# ---------------------------------------------------------------- documents


class Node:
    """An element as it is laid out in a byte string."""
    __slots__ = ('id', 't', 'name', 'offset', 'start', 'end', 'kids', 'payload', 'depth', 'unk', 'multiple', 'parent')

    @property
    def size(self):
        return self.end - self.start

    def walk(self):
        yield self
        for k in self.kids or ():
            yield from k.walk()

    def value(self):
        return decode(self.t, self.payload)

    def __repr__(self):
        return '<%s 0x%X @%d+%d>' % (self.name, self.id, self.offset, self.end - self.offset)


def write_doc(trees, spec, base=0):
    """Write trees -> (bytes, [Node]).  A tree is ('l', id, payload, width) or
    ('m', id, [trees], width, unknown); width None is the shortest, a width too
    small for the content is raised to the shortest that fits."""
    def length(t):
        if t[0] == 'l':
            body = len(t[2])
            unk = False
        else:
            body = sum(length(k)[1] for k in t[2])
            unk = t[4]
        w = t[3] or 1
        if not unk:
            w = max(w, size_width(body))
        return body, len(id_bytes(t[1])) + w + body, w

    out = bytearray()

    def emit(t, depth, parent):
        n = Node()
        n.id, n.t, n.name, n.depth, n.parent = t[1], spec.type_of(t[1]), spec.name_of(t[1]), depth, parent
        e = spec.by_id.get(t[1])
        n.multiple = bool(e and e['multiple'])
        n.offset = base + len(out)
        body, _, w = length(t)
        n.unk = bool(t[0] == 'm' and t[4])
        out.extend(id_bytes(t[1]))
        out.extend(unknown_bytes(w) if n.unk else size_bytes(body, w))
        n.start = base + len(out)
        n.kids = None
        n.payload = None
        if t[0] == 'l':
            n.payload = bytes(t[2])
            out.extend(t[2])
        else:
            n.kids = []
            for k in t[2]:
                n.kids.append(emit(k, depth + 1, n))
        n.end = base + len(out)
        return n
    nodes = [emit(t, 0, None) for t in trees]
    return bytes(out), nodes


def read_doc(b, spec, base=0, end=None):
    """Independent reader of complete documents -> [Node]; ValueError or
    IndexError if the bytes are not a well-formed document."""
    end = len(b) if end is None else end

    def parse(pos, end, depth, parent):
        nodes = []
        while pos < end:
            n, pos = element(pos, end, depth, parent)
            nodes.append(n)
        return nodes

    def element(pos, end, depth, parent):
        n = Node()
        n.offset, n.depth, n.parent = base + pos, depth, parent
        n.id, w = read_id(b, pos)
        size, sw = read_size(b, pos + w)
        pos += w + sw
        n.t, n.name = spec.type_of(n.id), spec.name_of(n.id)
        e = spec.by_id.get(n.id)
        n.multiple = bool(e and e['multiple'])
        n.start = base + pos
        n.kids = n.payload = None
        n.unk = size is None
        if size is None:
            if n.t != 'master':
                raise ValueError('unknown size of a non-master')
            n.kids = []
            while pos < end:
                cid, _ = read_id(b, pos)
                if not spec.valid_child(n.id, cid):
                    break
                k, pos = element(pos, end, depth + 1, n)
                n.kids.append(k)
        else:
            if pos + size > end:
                raise ValueError('element %s at %d exceeds its parent' % (n.name, n.offset))
            if n.t == 'master':
                n.kids = parse(pos, pos + size, depth + 1, n)
            else:
                n.payload = bytes(b[pos:pos + size])
            pos += size
        n.end = base + pos
        return n, pos
    return parse(0, end, 0, None)


def dump(nodes):
    """What Document.dump() should give, in canonical values."""
    out = {}
    for n in nodes:
        v = dump(n.kids) if n.kids is not None else canon(n.value())
        if n.multiple:
            out.setdefault(n.name, []).append(v)
        else:
            out[n.name] = v
    return out


def value_tree(nodes):
    """Nested [id, name, value or children], for comparing content only."""
    return [[n.id, n.name, value_tree(n.kids) if n.kids is not None else canon(n.value())] for n in nodes]


def flat(nodes):
    for n in nodes:
        yield from n.walk()
