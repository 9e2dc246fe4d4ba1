"""C32: the schemata that come with the package, loaded by name, against a table of their elements: every element by ID and by
name, random documents over them read, walked, verified, converted to XML and back, random data encoded with them, also with
"infinite" sizes, and the sample recordings; non-trivial = at least three elements, one of them below the root."""
import io
import json
import os
import tempfile
from xml.etree import ElementTree as ET

from hypothesis import strategies as st

from .. import gen, ref
from ..lib import check_tree, kind
from ..run import REPO, Sub, expect, same
from . import c05
from .c08 import admissible, flagged
from .c11 import check_back, check_xml, skip_dates
from .c26 import precached
from ebmlite import core, util
from ebmlite.xml_codecs import BINARY_CODECS

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data', 'bundled.json')) as _f:
    TABLE = {n: ref.Spec(dict(els=v['els'], kids={k or None: x for k, x in v['kids'].items()}))
             for n, v in json.load(_f).items()}
NAMES = sorted(TABLE)
DOCTYPES = dict(matroska=('matroska', 1), mide_ide=('mide', 2), mide_config_ui=('mide.ss.config', 1), mide_manifest=('mide', 2))


def bundled(name):
    return core.loadSchema(name + '.xml')


def element(case, note):
    """One element of a table."""
    name, el = case
    spec, sch = TABLE[name], bundled(name)
    e = spec.els[el]
    c = sch[e['id']]
    w = '%s %s ' % (name, el)
    expect(sch[el] is c and sch.elements[e['id']] is c and sch.elementsByName[el] is c, w, 'is not one class')
    expect(el in sch and e['id'] in sch, w, 'is not in the schema')
    same((c.id, c.name, kind(c)), (e['id'], el, e['t']), w + 'ID, name and type')
    same((bool(c.multiple), bool(c.mandatory), c.length), (e['multiple'], e['mandatory'], e['length']),
         w + 'multiple, mandatory and length')
    expect((e['id'] in sch.globals) == e['glob'], w, 'global:', not e['glob'])
    if e['precache'] is not None:
        expect(bool(c.precache) == e['precache'], w, 'precache', c.precache)
    if e['t'] == 'master':
        less = spec.child_ids(el) - set(c.children or ())
        expect(not less, w, 'lacks the children', sorted(map(hex, less)))
    for p, kids in spec.kids.items():
        if el in kids:
            parent = sch.document if p is None else sch[p]
            expect(parent._isValidChild(e['id']) if hasattr(parent, '_isValidChild') else e['id'] in parent.children,
                   w, 'is not a child of', p)
    note.nt()


def whole(case, note):
    """A schema on the whole."""
    name, = case
    spec, sch = TABLE[name], bundled(name)
    same((sch.type, sch.version), DOCTYPES[name], name + ' type and version')
    less = set(spec.by_id) - set(sch.elements)
    expect(not less, name, 'lacks', sorted(map(hex, less)))
    same(len(set(sch.elementsByName)), len(sch.elements), 'names and IDs')
    less = spec.child_ids(None) - set(sch.document.children or ())
    expect(not less, name, 'lacks at its root', sorted(map(hex, less)))
    for i in sch.elements:
        # a descriptor of its own length (0x80 is used by Matroska)
        expect(len(ref.id_bytes(i)) == 8 - (ref.id_bytes(i)[0]).bit_length() + 1, name, 'ID', hex(i))
    expect(bundled(name) is sch, name, 'loaded twice')
    expect(core.loadSchema(os.path.join(REPO, 'ebmlite', 'schemata', name + '.xml')) is sch, name, 'is another file')
    expect(name + '.xml' in core.listSchemata(), name, 'is not listed')
    h = c05.header(spec)
    same(bytes(sch.encodes([], headers=True)), h, name + ' header')
    d = sch.loads(h)
    same((d.type, d.version, len(d)), DOCTYPES[name] + (0,), name + ' type and version of a document')
    note.nt()


def document(case, note):
    name, trees, headers, codec = case
    spec, sch = TABLE[name], bundled(name)
    data, nodes = ref.write_doc(trees, spec)
    shown = nodes if headers or not (nodes and nodes[0].name == 'EBML') else nodes[1:]
    check_tree(iter(sch.load(io.BytesIO(data), headers=headers)), shown)
    same([(e.id, e.offset) for e in util.flatiter(sch.load(io.BytesIO(data), headers=headers))],
         [(n.id, n.offset) for n in ref.flat(shown)], 'flat order')
    if all(len(n.payload) in (0, 4, 8) for n in ref.flat(nodes) if n.t == 'float'):
        expect(sch.verify(data) is True, 'verify')
    x = util.toXml(sch.load(io.BytesIO(data), headers=True), binary_codec=codec)
    same([c.tag for c in x], [n.name for n in nodes], 'root elements in XML')
    for c, n in zip(x, nodes):
        check_xml(c, n, dict.fromkeys(('ids', 'types', 'offsets', 'sizes'), True), BINARY_CODECS[codec])
    skip_dates(nodes)
    out = io.BytesIO()
    util.xml2ebml(ET.fromstring(ET.tostring(x)), out, name + '.xml', headers=False)
    check_back(sch.load(io.BytesIO(out.getvalue()), headers=True), nodes, True)
    flat = list(ref.flat(nodes))
    note(name)
    note('unknown sizes', any(n.unk for n in flat))
    note('elements', len(flat))
    note.nt(len(flat) > 2 and any(n.depth for n in flat))


@st.composite
def documents(draw):
    name = draw(st.sampled_from(NAMES))
    spec = TABLE[name]
    trees = gen.draw_trees(draw, spec, unknowns=False, anywhere=draw(st.booleans()), skip=('EBML',), text=gen.XUNI, max_nodes=40)
    if draw(st.booleans()):
        # from a master somewhere
        m = draw(st.sampled_from(sorted(n for n in spec.kids if n not in (None, 'EBML'))))
        trees.append(('m', spec.els[m]['id'], gen.draw_trees(draw, spec, m, 1, unknowns=False, anywhere=False, text=gen.XUNI),
                      None, False))
    if draw(st.booleans()):
        trees = admissible(flagged(draw, trees, draw(st.sampled_from([6, 9]))), spec)
    if draw(st.booleans()):
        h = gen.header_tree(draw, spec)
        trees = [h[:2] + ([t for t in h[2] if spec.type_of(t[1]) != 'master'],) + h[3:]] + trees
    return (name, trees, draw(st.booleans()), draw(st.sampled_from(['base64', 'hex'])))


def encoding(case, note):
    name, d, headers = case
    spec, sch = TABLE[name], bundled(name)
    exp = (c05.header(spec) if headers else b'') + c05.contents(spec, d)
    data = c05.live(spec, None, d)
    same(bytes(sch.encodes(data, headers=headers)), exp, 'encodes(%r)' % (data,))
    note(name)
    note.nt(c05.nodes(d) > 2)


@st.composite
def data(draw):
    name = draw(st.sampled_from(NAMES))
    spec = TABLE[name]
    d = c05.draw_contents(draw, spec, None, 0, gen._Budget(25), root=True)
    return (name, c05.repair(spec, None, d), draw(st.booleans()))


SAMPLES = [('matroska', 'video-1.mkv'), ('matroska', 'video-2.mkv'), ('matroska', 'video-3.mkv'), ('matroska', 'video-4.ebml'),
           ('mide_ide', 'SSX46714-doesnot.IDE')]


def sample(case, note):
    """A sample recording, read as an independent reader reads it."""
    name, f = case
    p = os.path.join(REPO, 'tests', f)
    if not os.path.exists(p):
        return
    with open(p, 'rb') as s:
        b = s.read()
    nodes = ref.read_doc(b, TABLE[name])
    with bundled(name).load(p, headers=True) as doc:
        check_tree(iter(doc), nodes)
    note('elements', sum(1 for _ in ref.flat(nodes)))
    note.nt()


SUBS = [
    Sub('elements', element, cases=lambda: [(n, e) for n in NAMES for e in TABLE[n].els], shards=1, rule='enumerated: all elements'),
    Sub('schemata', whole, cases=lambda: [(n,) for n in NAMES], shards=1, rule='enumerated: all bundled schemata'),
    Sub('documents', document, documents(), quick=900, thorough=25000, shards=5, rule='random documents over a bundled schema'),
    Sub('encoding', encoding, data(), quick=900, thorough=25000, shards=3, rule='random data over a bundled schema'),
    Sub('samples', sample, cases=lambda: SAMPLES, shards=2, rule='enumerated sample recordings of the repository'),
]
ASSUMPTIONS = ['elements may be added to the bundled schemata, and existing ones allowed in more places']
