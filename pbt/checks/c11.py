"""C11: random documents converted to XML with random options, serialised, parsed and converted back; compared by content
(and payload size) with the original, the XML tree with the element tree; non-trivial = a nested element, a non-ASCII
text, an unknown ID, an unknown size, a date, or a value of zero length."""
import io
import os
import shutil
import tempfile
from pathlib import Path
from xml.etree import ElementTree as ET

from hypothesis import strategies as st

from .. import gen, ref, scale
from ..lib import schema, Schema
from ..run import Skip, Sub, expect, same
from .c08 import admissible, flagged, streams
from ebmlite import core, util
from ebmlite.threaded_file import ThreadAwareFile
from ebmlite.xml_codecs import BINARY_CODECS


def tree_content(els):
    return [[e.id, e.name, tree_content(e) if e.dtype is list else e.value] for e in els]


def skip_dates(nodes):
    """Dates that, rounded down to microseconds, are before the first that can be encoded"""
    if any(n.t == 'date' and ref.date_ns(n.value()) < -2**63 for n in ref.flat(nodes)):
        raise Skip


def zero(v):
    """-0.0 is written as 0.0 where no size is given"""
    return 0.0 if isinstance(v, float) and v == 0 else v


def check_xml(x, n, o, codec_cls):
    """The XML element x shows node n."""
    w = 'XML of %r' % n
    same(x.tag, n.name, w + ' tag')
    if o['ids']:
        same(int(x.get('id'), 16), n.id, w + ' id')
    else:
        expect(x.get('id') is None, w, 'has an id')
    same(x.get('type'), ref.DTYPES[n.t].__name__ if o['types'] else None, w + ' type')
    same(x.get('offset'), str(n.offset) if o['offsets'] else None, w + ' offset')
    same(x.get('size'), str(n.size) if o['sizes'] or n.t == 'void' else None, w + ' size')
    if n.kids is not None:
        same([c.tag for c in x], [k.name for k in n.kids], w + ' children')
        for c, k in zip(x, n.kids):
            check_xml(c, k, o, codec_cls)
        return
    same(len(x), 0, w + ' children')
    if n.t in ('bin', 'unknown'):
        same(x.get('encoding'), codec_cls.NAME, w + ' encoding')
        if codec_cls.NAME != 'ignore':
            same(bytes(codec_cls.decode(x.text)), n.payload, w + ' contents')
        else:
            expect(not (x.text or '').strip(), w, 'has contents', x.text)
    elif n.t != 'void':
        same(x.get('value'), str(n.value()), w + ' value')


def check_back(els, nodes, sizes):
    els = list(els)
    same([(e.id, e.name) for e in els], [(n.id, n.name) for n in nodes], 'elements after conversion')
    for e, n in zip(els, nodes):
        if n.kids is not None:
            check_back(e, n.kids, sizes)
            continue
        f = (lambda v: v) if sizes else zero
        same(ref.canon(f(e.value)), ref.canon(f(n.value())), 'value of %r after conversion' % n)
        if sizes:
            same(e.size, n.size, 'size of %r after conversion' % n)


def options(binary=('base64', 'hex')):
    codec = st.one_of(st.sampled_from(binary), st.tuples(st.sampled_from(binary), st.fixed_dictionaries(
        {}, optional=dict(cols=st.sampled_from([None, 0, 1, 8, 32, 76, 80]), width=st.integers(1, 8),
                          offsets=st.booleans()))))
    return st.fixed_dictionaries(dict(offsets=st.booleans(), sizes=st.booleans(), types=st.booleans(),
                                      ids=st.booleans(), codec=codec,
                                      void=st.sampled_from([None, 'ignore', 'base64', 'hex'])))


def to_xml(el, o, parent=None):
    kw = {k: o[k] for k in ('offsets', 'sizes', 'types', 'ids')}
    c = o['codec']
    kw['binary_codec'] = c if isinstance(c, str) else BINARY_CODECS[c[0]](**c[1])
    if o['void']:
        kw['void_codec'] = o['void']
    x = util.toXml(el, **kw) if parent is None else util.toXml(el, parent, **kw)
    return x, BINARY_CODECS[c if isinstance(c, str) else c[0]]


# Names of files, some of them with characters that XML cannot carry
STEMS = ['in', 'in', 'in', 'a b', '\xfc\u4e2d', '\U0001f600', 'a\nb\tc', "q'\"&<>", 'c\x01', 'bad\udcff', 'x\ufffe', '\x7f\x85', '-x', '.x']


def xml_can(s):
    return all(c in '\t\n\r' or ' ' <= c <= '\ud7ff' or '\ue000' <= c <= '\ufffd' or c > '\uffff' for c in s)


@st.composite
def cases(draw, kind='docs'):
    o = draw(options())
    if kind == 'unk':
        lit, trees = draw(st.one_of(streams(), unk_docs()))
    else:
        lit, trees = draw(gen.docs(unknowns=True, text=gen.XUNI, max_nodes=30 if kind == 'docs' else 12))
    spec = ref.Spec(lit)
    if not o['ids'] and any(spec.type_of(t[1]) == 'unknown' for t in walk(trees)):
        o['ids'] = True
    how = (draw(st.sampled_from(['string', 'unicode', 'file', 'element', 'tree', 'path', 'pathlib', 'utf-16', 'iso-8859-1', 'us-ascii'])),
           draw(st.sampled_from(['bytesio', 'path', 'memory', 'pathlib', 'loadpath', 'bytesio', 'memory', 'loadstream'])),
           draw(st.sampled_from(['string', 'string', 'string', 'unnamed', 'file', 'filename'])),
           draw(st.sampled_from(['bytes', 'bytes', 'bytes', 'bytesname', 'path', 'pathlib', 'aware', 'fileio'])),
           draw(st.sampled_from(STEMS)))
    return (lit, trees, o, how)


@st.composite
def unk_docs(draw):
    lit, trees = draw(gen.docs(spec_kw=dict(min_masters=2, header=False), text=gen.XUNI))
    return lit, admissible(flagged(draw, trees, 6), ref.Spec(lit))


def walk(trees):
    for t in trees:
        yield t
        if t[0] == 'm':
            yield from walk(t[2])


def check(case, note):
    lit, trees, o, (src, dst, sch_from, ebml, stem) = case
    close = []
    spec = ref.Spec(lit)
    data, nodes = ref.write_doc(trees, spec)
    skip_dates(nodes)
    tmp = tempfile.mkdtemp(prefix='pbt') if (
        'file' in sch_from or src in ('file', 'path', 'pathlib') or 'path' in dst or ebml != 'bytes') else None
    try:
        sch_arg = None
        if sch_from == 'string':
            sch = schema(spec)
        elif sch_from == 'unnamed':
            sch = Schema(io.StringIO(spec.xml()))
        else:
            p = os.path.join(tmp, 'schema%s%d.xml' % (stem[2:], len(lit['els'])))
            with open(p, 'w', encoding='utf-8') as f:
                f.write(spec.xml())
            if sch_from == 'file':
                sch = Schema(p)
            else:
                sch = core.loadSchema(p)
                sch_arg = p
        if ebml == 'bytes':
            fin, fname = io.BytesIO(data), ''
        else:
            fname = os.path.join(tmp, stem + '.ebml')
            with open(fname, 'wb') as f:
                f.write(data)
            fin = {'bytesname': lambda: open(os.fsencode(fname), 'rb'), 'pathlib': lambda: Path(fname), 'path': lambda: fname,
                   'aware': lambda: ThreadAwareFile(Path(fname), 'rb'), 'fileio': lambda: io.FileIO(Path(fname))}[ebml]()
        doc = sch.load(fin, headers=True)
        if ebml != 'bytes':
            close += [doc.stream]
        x, codec_cls = to_xml(doc, o)
        if xml_can(fname):
            same(x.get('source'), fname, 'source')
        else:
            note('name of a file that XML cannot carry')
        same(x.tag, type(doc).__name__, 'tag of the root')
        if xml_can(sch.name or ''):
            same(x.get('schemaName'), sch.name or '', 'schemaName')
        same([c.tag for c in x], [n.name for n in nodes], 'root elements in XML')
        for c, n in zip(x, nodes):
            check_xml(c, n, o, codec_cls)
        # serialise and parse
        if src == 'element':
            xml = ET.fromstring(ET.tostring(x, encoding='utf-8'))
        elif src == 'tree':
            xml = ET.ElementTree(ET.fromstring(ET.tostring(x, encoding='unicode')))
        elif src in ('string', 'unicode', 'utf-16', 'iso-8859-1', 'us-ascii'):
            # (names of tags cannot be escaped)
            plain = src != 'string' and all(ord(c) < 128 for y in x.iter() for c in y.tag)
            s = ET.tostring(x, encoding=src if plain or src == 'unicode' or src == 'utf-16' else 'utf-8')
            xml = io.BytesIO(s) if isinstance(s, bytes) else io.StringIO(s)
        else:
            xml = os.path.join(tmp, 'x.xml')
            with open(xml, 'wb') as f:
                f.write(ET.tostring(x, encoding='utf-8', xml_declaration=True))
            if src == 'pathlib':
                xml = Path(xml)
            if src == 'file':
                xml = open(xml, 'rb')
        # and back
        own_header = bool(nodes) and nodes[0].name == 'EBML'
        added = 'EBML' in spec.els and not own_header
        if dst in ('memory', 'loadpath', 'loadstream'):
            p = os.path.join(tmp, 'y.ebml') if dst == 'loadpath' else ':memory:'
            if dst == 'loadstream':
                p = io.BytesIO(b'before')
                p.seek(0, 2)
            doc2 = util.loadXml(xml, sch_arg or sch, p)
            close.append(doc2)
            want = nodes[1:] if own_header else nodes
            if own_header:
                same(ref.canon(doc2.info), ref.dump(nodes[:1])['EBML'], 'info after conversion')
        else:
            out = io.BytesIO() if dst == 'bytesio' else os.path.join(tmp, 'y.ebml')
            util.xml2ebml(xml, Path(out) if dst == 'pathlib' else out, sch_arg or sch)
            if dst != 'bytesio':
                with open(out, 'rb') as f:
                    out = io.BytesIO(f.read())
            out.seek(0)
            doc2 = sch.load(out, headers=not added)
            want = nodes
        if src == 'file':
            xml.close()
        check_back(doc2, want, o['sizes'])
        note('to ' + dst)
        ts = {n.t for n in ref.flat(nodes)}
        for t in ts:
            note('type ' + t)
        note.nt(gen.depth(trees) > 1 or ts & {'unknown', 'date'} or any(
            n.unk or (n.kids is None and (n.size == 0 or (n.t == 'uni' and max(n.payload, default=0) > 127)))
            for n in ref.flat(nodes)))
    finally:
        for d in close:
            d.close()
        if tmp:
            shutil.rmtree(tmp, ignore_errors=True)


def one_element(case, note):
    """Conversion of an element below the root."""
    lit, trees, o, pick = case
    spec = ref.Spec(lit)
    sch = schema(spec)
    data, nodes = ref.write_doc(trees, spec)
    skip_dates(nodes)
    flat = [n for n in ref.flat(nodes)]
    n = flat[pick % len(flat)] if flat else None
    if n is None:
        return
    el = [e for e in util.flatiter(sch.load(io.BytesIO(data), headers=True))][flat.index(n)]
    x, codec_cls = to_xml(el, o)
    check_xml(x, n, o, codec_cls)
    parent = ET.Element('top')
    x2, _ = to_xml(el, o, parent)
    same(list(parent) == [x2], True, 'XML element appended to the parent')
    same(ET.tostring(x2), ET.tostring(x), 'XML with a parent')
    if n.t == 'unknown':
        return
    out = io.BytesIO()
    util.xml2ebml(x, out, sch, headers=False)
    check_back(sch.load(io.BytesIO(out.getvalue()), headers=True), [n], o['sizes'])
    note('type ' + n.t)
    note.nt(n.kids or n.kids is None)


@st.composite
def single(draw):
    o = draw(options())
    lit, trees = draw(gen.docs(unknowns=True, text=gen.XUNI))
    if any(ref.Spec(lit).type_of(t[1]) == 'unknown' for t in walk(trees)):
        o['ids'] = True
    return (lit, trees, o, draw(st.integers(0, 60)))


def ignoring(case, note):
    """With the lossy codec everything but binary contents is kept."""
    (lit, trees), o = case
    spec = ref.Spec(lit)
    sch = schema(spec)
    data, nodes = ref.write_doc(trees, spec)
    x, codec_cls = to_xml(sch.load(io.BytesIO(data), headers=True), dict(o, codec='ignore'))
    for c, n in zip(x, nodes):
        check_xml(c, n, o, codec_cls)
    note.nt(len(nodes) > 1)


SUBS = [
    Sub('documents', check, cases(), quick=1600, thorough=40000, shards=4, rule='random documents and options'),
    Sub('unknown-sizes', check, cases('unk'), quick=500, thorough=15000, shards=2,
        rule='documents with unknown-size masters'),
    Sub('elements', one_element, single(), quick=800, thorough=20000, shards=2, rule='single elements of a document'),
    Sub('ignore', ignoring, st.tuples(gen.docs(text=gen.XUNI), options()), quick=200, thorough=4000, shards=1,
        rule='the codec that leaves out contents'),
    scale.sub(scale.xml),
]
ASSUMPTIONS = ['text of characters that XML 1.0 can carry', 'unknown elements are converted with their IDs shown',
               '-0.0 is written as 0.0 if no size is given', 'schemata without fixed lengths',
               'dates within a microsecond of the earliest one (which round down to one that cannot be encoded) excluded']
