"""C12: XML trees built directly (edited, stale or missing sizes, requested widths, comments, unknown elements, with and
without headers) converted to EBML: an independent reader must find that tree, or the conversion raise; non-trivial = a
nested element, a size or width attribute, a comment or an unknown element."""
import base64
import io
import os
import shutil
import tempfile
from xml.etree import ElementTree as ET

from hypothesis import strategies as st

from .. import gen, ref, scale
from ..lib import UnknownElement, check_tree, schema
from ..run import Sub, expect, same
from ebmlite import util

# XML literal: (tag, attributes, text, [children]); tag '#' is a comment, '?' a processing instruction


def build(x):
    tag, attrs, text, kids = x
    if tag == '#':
        return ET.Comment(text)
    if tag == '?':
        return ET.ProcessingInstruction('pi', text)
    el = ET.Element(tag, attrs)
    el.text = text
    for k in kids:
        el.append(build(k))
    return el


def elements(xs):
    return [x for x in xs if x[0] not in '#?']


class Bad(Exception):
    """The reason why a conversion may or must raise."""
    def __init__(self, must, why):
        self.must, self.why = must, why


def leaf_value(t, attrs, text):
    if t in ('bin', 'unknown', 'void'):
        if not text:
            return b''
        if attrs.get('encoding', 'base64') == 'hex':
            return bytes.fromhex(''.join(w for w in text.split() if '[' not in w))
        return base64.b64decode(''.join(text.split()))
    v = attrs['value']
    return {'uint': int, 'int': int, 'float': float, 'date': ref.datetime.fromisoformat}.get(t, str)(v)


def natural(t, v):
    return len(v) if t in ('bin', 'unknown', 'void') else len(ref.encode(t, v))


def problems(spec, x, unknown, arg, out, parent_ok=True):
    """Collect reasons why the conversion of x may (False) or must (True) raise."""
    tag, attrs, text, kids = x
    e = spec.els.get(tag)
    if e is None:
        if not unknown or 'id' not in attrs:
            out.append((True, 'unknown element %s' % tag))
            return
        b = ref.id_bytes(int(attrs['id'], 16))
        if not 1 <= len(b) <= 4 or 9 - b[0].bit_length() != len(b):
            out.append((True, 'unreadable ID ' + attrs['id']))
            return
    t = e['t'] if e else 'unknown'
    size = int(attrs['size']) if 'size' in attrs else None
    if t == 'master':
        if arg is not None or attrs.get('sizeLength') == '1':
            out.append((False, 'width by argument or attribute'))
        for k in elements(kids):
            problems(spec, k, unknown, arg, out)
        return
    v = leaf_value(t, attrs, text)
    if (t == 'uint' and not 0 <= v < 2**64) or (t == 'int' and not -2**63 <= v < 2**63):
        out.append((True, 'value of %s out of range' % tag))
        return
    if t == 'date' and not -2**63 <= ref.date_ns(v) < 2**63:
        out.append((True, 'date out of range'))
        return
    n = natural(t, v)
    if size is not None:
        if t in ('uint', 'int') and size < n and not (size == 0 and v == 0):
            out.append((True, 'size too small for integer'))
        elif t == 'float' and size not in (0, 4, 8):
            out.append((True, 'bad size of float'))
        elif t == 'float' and size == 4 and not fits_single(v):
            out.append((False, 'float of size 4'))
        elif t == 'date' and size != 8:
            out.append((True, 'bad size of date'))
        elif t in ('bin', 'unknown') and size < n:
            out.append((True, 'size too small for binary'))
        elif t in ('uint', 'int') and size > 8:
            out.append((False, 'integer of more than 8 bytes'))
    final = n if size is None else size
    if 'sizeLength' in attrs and final >= (1 << 7 * int(attrs['sizeLength'])) - 1:
        out.append((True, 'sizeLength too small'))


def fits_single(v):
    try:
        return ref.float_key(ref.struct.unpack('>f', ref.struct.pack('>f', v))[0]) == ref.float_key(v)
    except OverflowError:
        return False


def compare(spec, data, n, x):
    """Node n (as read from the output) is XML element x."""
    tag, attrs, text, kids = x
    e = spec.els.get(tag)
    same(n.id, e['id'] if e else int(attrs['id'], 16), 'ID of %s' % tag)
    width = n.start - n.offset - len(ref.id_bytes(n.id))
    if 'sizeLength' in attrs:
        same(width, int(attrs['sizeLength']), 'width of the size descriptor of %s' % tag)
    if n.kids is not None:
        kids = elements(kids)
        same([k.name if k.t != 'unknown' else None for k in n.kids],
             [k[0] if k[0] in spec.els else None for k in kids], 'children of %s' % tag)
        for c, k in zip(n.kids, kids):
            compare(spec, data, c, k)
        return
    t = n.t
    v = leaf_value(t, attrs, text)
    size = int(attrs['size']) if 'size' in attrs else None
    if size is not None:
        same(n.size, size, 'size of %s' % tag)
    elif t != 'void':
        same(n.size, natural(t, v), 'size of %s' % tag)
    if t in ('bin', 'unknown'):
        same(n.payload, v.ljust(n.size, b'\0'), 'contents of %s' % tag)
    elif t == 'float':
        if size is None or size == 8 or (size == 4 and fits_single(v)):
            w = n.value()
            same(ref.canon(0.0 if w == 0 else w), ref.canon(0.0 if v == 0 else v), 'value of %s' % tag)
    elif t == 'date':
        same(n.value(), v, 'value of %s' % tag)
    elif t in ('uint', 'int'):
        same(n.value(), v, 'value of %s' % tag)
    elif t in ('str', 'uni'):
        b = ref.enc_ascii(v) if t == 'str' else v.encode('utf-8')
        same(n.payload, b[:n.size].ljust(n.size, b'\0'), 'text of %s' % tag)


def header_bytes(spec):
    kids = []
    for k in ('EBMLVersion', 'EBMLReadVersion', 'DocType', 'DocTypeVersion', 'DocTypeReadVersion'):
        e = spec.els.get(k)
        v = ref.default(e)
        if v is not None:
            kids.append(('l', e['id'], ref.encode(e['t'], v), None))
    return ref.write_doc([('m', 0x1A45DFA3, kids, None, False)], spec)[0]


@st.composite
def cases(draw, edits=6):
    lit, trees = draw(gen.docs(text=gen.XUNI, max_nodes=20, widths=st.none()))
    spec = ref.Spec(lit)
    p = draw(st.sampled_from([0, 1, 3, edits]))     # how many edits

    def node(t):
        t_, name = spec.type_of(t[1]), spec.name_of(t[1])
        attrs, text, kids = {}, None, []
        if t_ == 'unknown':
            name = draw(st.sampled_from(['UnknownElement', 'NotThere', 'Foo.bar']))
            if name in spec.els:
                name = 'UnknownElement'
            attrs['id'] = draw(st.sampled_from(['0x%X', '%x', '0x%08x'])) % t[1]
            if draw(st.integers(0, 60)) < p:
                del attrs['id']
            elif draw(st.integers(0, 60)) < p:
                attrs['id'] = draw(st.sampled_from(['0x5', '0x0', '0x8100', '0x4080FF', '0x1234567890']))
        elif draw(st.booleans()):
            attrs['id'] = '0x%X' % t[1]
        if t_ == 'master':
            kids = [node(k) for k in t[2]]
            for i in range(draw(st.integers(0, 1)) if p else 0):
                kids.insert(draw(st.integers(0, len(kids))), (draw(st.sampled_from('#?')), {}, 'note', []))
            text = draw(st.sampled_from([None, '\n  ']))
            size = draw(st.integers(0, 200))
            right = None
        else:
            pl = t[2]
            if t_ in ('bin', 'unknown'):
                if draw(st.booleans()):
                    attrs['encoding'] = 'base64'
                text = base64.b64encode(pl).decode()
                if draw(st.integers(0, 3)) == 0:
                    attrs['encoding'] = 'hex'
                    text = pl.hex()
                text = text or draw(st.sampled_from([None, '']))
            elif t_ != 'void':
                attrs['value'] = str(ref.decode(t_, pl))
                if t_ in ('uint', 'int') and draw(st.integers(0, 60)) < p:
                    attrs['value'] = str(draw(st.sampled_from([-1, 2**64, -2**63 - 1, 2**63, 2**64 - 1])))
            v = leaf_value(t_, attrs, text)
            right = len(pl) if t_ != 'void' else draw(st.integers(0, 20))
            if t_ in ('uint', 'int') and not -2**63 <= v < 2**64:
                right = 8
            size = right + draw(st.sampled_from([0, 0, 1, -1, 2, 7, 120, -right]))
        r = draw(st.integers(0, 9))
        if r < p and size >= 0:
            attrs['size'] = str(size)
        elif r == 9 and right is not None:
            attrs['size'] = str(right)
        if draw(st.integers(0, 12)) < p:
            attrs['sizeLength'] = str(draw(st.integers(1, 8)))
        return (name, attrs, text, kids)
    xs = [node(t) for t in trees]
    if draw(st.integers(0, 5)) == 0:
        xs.insert(draw(st.integers(0, len(xs))), ('#', {}, 'comment', []))
    root = draw(st.integers(0, 4))      # 0: a single element instead of a document
    kw = {}
    if draw(st.integers(0, 2)) == 0:
        kw['sizeLength'] = draw(st.integers(1, 8))
    if draw(st.booleans()):
        kw['headers'] = draw(st.booleans())
    if draw(st.integers(0, 2)) == 0:
        kw['unknown'] = draw(st.booleans())
    return (lit, xs, root, kw)


def root_of(sch, xs, single):
    if single is not None:
        return build(single)
    return build((sch.document.__name__, {}, None, xs))


def convert(case, note=None):
    """Convert; returns (bytes or None, what was expected to go wrong)."""
    lit, xs, root, kw = case
    spec = ref.Spec(lit)
    sch = schema(spec)
    els = elements(xs)
    single = els[0] if root == 0 and els and els[0][0] in spec.els else None
    if single is not None:
        els = [single]
    x = root_of(sch, xs, single)
    before = ET.tostring(x)
    unknown = kw.get('unknown', True)
    why = []
    for e in els:
        problems(spec, e, unknown, kw.get('sizeLength'), why)
    out = io.BytesIO()
    try:
        n = util.xml2ebml(x, out, sch, **kw)
    except Exception as e:
        expect(why, 'conversion raised', e)
        if note:
            note('refused: ' + sorted(why)[-1][1].split(' by')[0].split(' of ')[0])
            if any('unknown element' in w for m, w in why) and not any(m and 'unknown' not in w for m, w in why):
                expect(isinstance(e, NameError) or any(not m for m, w in why), 'unknown element raised', e)
        same(ET.tostring(x), before, 'XML tree after conversion')
        return None
    same(ET.tostring(x), before, 'XML tree after conversion')
    must = [w for m, w in why if m]
    expect(not must, 'conversion succeeded although:', must)
    data = out.getvalue()
    same(n, len(data), 'returned size')
    has_header = any(e[0] == 'EBML' for e in els)
    head = b''
    if kw.get('headers', True) and 'EBML' in spec.els and not has_header:
        head = header_bytes(spec)
        same(data[:len(head)], head, 'default header')
        if note:
            note('default header')
    nodes = ref.read_doc(data[len(head):], spec)
    same(len(nodes), len(els), 'number of root elements')
    for k, e in zip(nodes, els):
        compare(spec, data, k, e)
    return data


def check(case, note):
    lit, xs, root, kw = case
    spec = ref.Spec(lit)
    data = convert(case, note)
    flat = []

    def walk(xs):
        for x in xs:
            flat.append(x)
            walk(x[3])
    walk(xs)
    if data is not None:
        note('converted')
        sch = schema(spec)
        nodes = ref.read_doc(data, spec)
        if any(cut_inside(n) for n in ref.flat(nodes)):
            note('text cut inside a character: known finding K2 of C04, not read back')
        else:
            check_tree(sch.load(io.BytesIO(data), headers=True), nodes, values=False)
    note.nt(any(x[3] or x[0] in '#?' or 'sizeLength' in x[1] or 'size' in x[1] or x[0] not in spec.els for x in flat))
    for x in flat:
        if x[0] in '#?':
            note('comment')
        if 'sizeLength' in x[1]:
            note('sizeLength attribute')
        if 'size' in x[1]:
            note('size attribute')


def cut_inside(n):
    if n.t != 'uni':
        return False
    try:
        n.payload.split(b'\0')[0].decode('utf-8')
    except UnicodeDecodeError:
        return True
    return False


def sequence(cases, note):
    """Converting some documents does not affect converting and parsing others."""
    first = [convert(c) for c in cases]
    for c, b in zip(reversed(cases), reversed(first)):
        got = convert(c)
        same(got, b, 'second conversion of the same XML')
    spec = ref.Spec(dict(els=[dict(name='M', id=0x81, t='master')], kids={None: ['M']}))
    data, nodes = ref.write_doc([('m', 0x81, [('l', 0x4080, b'a', None), ('l', 0x82, b'b', None)], None, False),
                                 ('l', 0x203FFF, b'', None)], spec)
    check_tree(iter(schema(spec).loads(data)), nodes)
    note.nt(sum(b is not None for b in first) > 1)


def element(case, note):
    """xmlElement2ebml: a single element written to a stream; the number returned is the number of bytes."""
    lit, xs, root, kw = case
    spec = ref.Spec(lit)
    sch = schema(spec)
    kw = {k: v for k, v in kw.items() if k != 'headers'}
    out = io.BytesIO()
    for e in xs:
        x = build(e)
        pos = out.tell()
        if e[0] in '#?':
            same(util.xmlElement2ebml(x, out, sch, **kw), 0, 'size of a comment')
            same(out.tell(), pos, 'bytes written for a comment')
            continue
        why = []
        problems(spec, e, kw.get('unknown', True), kw.get('sizeLength'), why)
        try:
            n = util.xmlElement2ebml(x, out, sch, **kw)
        except Exception as ex:
            expect(why, 'conversion raised', ex)
            out.seek(pos)
            out.truncate()
            continue
        must = [w for m, w in why if m]
        expect(not must, 'conversion succeeded although:', must)
        data = out.getvalue()[pos:]
        same(n, len(data), 'returned size')
        nodes = ref.read_doc(data, spec)
        same(len(nodes), 1, 'number of elements written')
        compare(spec, data, nodes[0], e)
        note.nt(len(data) > 4)


BIG = dict(els=[dict(name='M', id=0x81, t='master'), dict(name='B', id=0x82, t='bin'), dict(name='S', id=0x83, t='str')],
           kids={None: ['M'], 'M': ['M', 'B', 'S']})


def big_cases():
    for n in (100, 126, 127, 128, 16380, 16382, 16383, 2097148, 2097151):
        for arg in (None, 1, 2, 3, 4, 8):
            for attr in (None, 1, 2, 3, 8):
                for size in (None, 5, 200000):
                    if n < 20000 or (attr in (None, 3) and size is None and arg in (None, 2)):
                        yield n, arg, attr, size


def big(case, note):
    """Contents larger than the requested descriptor width can say."""
    n, arg, attr, size = case
    note.nt()
    a = {}
    if attr is not None:
        a['sizeLength'] = str(attr)
    if size is not None:
        a['size'] = str(size)
    xs = [('M', a, None, [('S', {'value': 'x' * n}, None, [])])]
    spec = ref.Spec(BIG)
    sch = schema(spec)
    out = io.BytesIO()
    too_small = attr is not None and ref.size_width(n + 1 + ref.size_width(n)) > attr
    try:
        r = util.xml2ebml(root_of(sch, xs, None), out, sch, **({} if arg is None else dict(sizeLength=arg)))
    except Exception as e:
        expect(too_small or (arg is not None and ref.size_width(n + 9) > arg), 'conversion raised', e)
        return
    expect(not too_small, 'a width of', attr, 'was accepted for', n, 'bytes')
    same(r, len(out.getvalue()), 'returned size')
    nodes = ref.read_doc(out.getvalue(), spec)
    same(len(nodes), 1, 'elements')
    compare(spec, out.getvalue(), nodes[0], xs[0])


def wrong_root(case, note):
    lit, tag = case
    sch = schema(ref.Spec(lit))
    if tag in lit['kids'] or any(e['name'] == tag for e in lit['els']) or tag == sch.document.__name__:
        return
    out = io.BytesIO()
    note.nt()
    try:
        util.xml2ebml(ET.Element(tag, {'id': '0x4080'}), out, sch)
    except NameError:
        return
    raise AssertionError('XML with root %r accepted' % tag)


def temporary(case, note):
    """loadXml without a file name uses a new temporary file."""
    lit, trees = case
    spec = ref.Spec(lit)
    sch = schema(spec)
    data, nodes = ref.write_doc(trees, spec)
    x = util.toXml(sch.load(io.BytesIO(data), headers=True))
    d = tempfile.mkdtemp(prefix='pbt')
    old = tempfile.tempdir
    tempfile.tempdir = d
    try:
        open(os.path.join(d, 'other'), 'w').close()
        with util.loadXml(x, sch) as doc:
            roots = [n for n in nodes if n.name != 'EBML']
            same([(e.id, e.name) for e in doc], [(n.id, n.name) for n in roots], 'elements')
            expect(os.path.dirname(doc.filename) == d, 'file', doc.filename)
        same(os.path.getsize(os.path.join(d, 'other')), 0, 'another file')
    finally:
        tempfile.tempdir = old
        shutil.rmtree(d, ignore_errors=True)
    note.nt(len(nodes) > 1)


SUBS = [
    Sub('trees', check, cases(), quick=2400, thorough=60000, shards=5, rule='random XML trees'),
    Sub('elements', element, cases(), quick=800, thorough=20000, shards=2, rule='xmlElement2ebml on each root'),
    Sub('sequences', sequence, st.lists(cases(edits=3), min_size=2, max_size=3), quick=400, thorough=10000, shards=2,
        rule='several conversions after each other'),
    Sub('big', big, cases=lambda: list(big_cases()), shards=2,
        rule='enumerated content sizes x width by argument and attribute x stale size'),
    Sub('wrong-root', wrong_root, st.tuples(gen.specs(max_els=3), gen.NAMES), quick=100, thorough=2000, shards=1,
        rule='root element that is not in the schema'),
    Sub('temporary', temporary, gen.docs(text=gen.XUNI), quick=60, thorough=1000, shards=1,
        rule='loadXml with a temporary file'),
    scale.sub(scale.from_xml),
]
ASSUMPTIONS = ['only masters have child elements', 'schemata without fixed lengths',
               'a width requested by argument may be refused or increased if too small (documented as required)']
