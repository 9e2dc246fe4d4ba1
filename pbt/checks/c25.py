"""C25: random flat python-ebml tables (attribute order and spelling, extra attributes and tags, repeated entries, comments)
compared with the same definitions in the native format, and faulty variants of the tables; non-trivial = at least three
elements, a repeated entry, a global, a fixed length, or any faulty variant."""
import io
import random
import shutil
import tempfile
from xml.sax.saxutils import escape, quoteattr

from hypothesis import strategies as st

from .. import gen, ref, scale
from ..lib import BASES, Schema, check_tree, content, kind, must_raise, schema
from ..run import Sub, expect, same
from ebmlite import core
from . import c05
from .c14 import CHOICES, FALSE, PRECACHE, TRUE, Choices, free, is_nameless, load_xml

TYPES = ref.LEGACY
# Written by python-ebml and Matroska's tables; they mean nothing to ebmlite
EXTRA = [('minver', '1'), ('maxver', '3'), ('webm', '0'), ('range', '>0'), ('cppname', 'Foo'), ('bytesize', '4'),
         ('divx', '0'), ('recursive', '1')]


def entry(e, c):
    ids = ['0x%X' % e['id'], '%x' % e['id'], '0x%08x' % e['id'], '0X%x' % e['id'], ' 0x%x ' % e['id']]
    a = [('name', [e['name'], ' %s ' % e['name'], e['name']][c(3)]), ('id', ids[c(5)]),
         ('type', ['%s', ' %s', '%s '][c(3)] % TYPES[e['t']])]
    if e['glob']:
        a.append([('level', '-1'), ('global', '1'), ('level', ' -1 ')][c(3)])
    elif c(5) < 4:
        a.append(('level', ['1', '0', '2', '0+', '3', '1+', '+1'][c(7)]))
    for k in ('multiple', 'mandatory'):
        if e[k]:
            a.append((k, TRUE[c(4)]))
        elif c(3) < 2:
            a.append((k, FALSE[c(3)]))
    if e['precache'] is not None:
        a.append(('precache', TRUE[c(4)] if e['precache'] else FALSE[c(3)]))
    if e['length'] is not None:
        a.append(('length', ['%d', ' %d '][c(2)] % e['length']))
    if e['default'] is not None:
        a.append(('default', e['default']))
    if c(3) == 2:
        a.append(EXTRA[c(8)])
    if c(3):
        k = c(len(a))
        a = a[k:] + a[:k]
    return a


TEXTS = ['', 'Docs of this & <that>', '\n  ', '', 'One paragraph.\n\n   Another,\n\tindented.\n', ' \xfc\u4e2d ' * 200]


def table(spec, c, shuffle=0):
    """-> list of (attributes, text or None)."""
    els = list(spec.els.values())
    if shuffle:
        random.Random(shuffle).shuffle(els)
    rows = []
    for e in els:
        rows.append((entry(e, c), TEXTS[c(len(TEXTS))]))
    if c(3) == 2:                   # repeated entries that do not contradict
        for _ in range(1 + c(3)):
            a, _t = rows[c(len(els))]
            how = c(4)
            if how < 3:
                keep = [{'name', 'type'}, {'id', 'type'}, {'name', 'id', 'type'}][how]
                a = [(k, v) for k, v in a if k in keep]
            rows.append((a, ''))
    return rows


def to_xml(rows, c=lambda n: 0):
    out = ['<table>']
    for a, text in rows:
        out.append('<element%s>%s</element>' % (''.join(' %s=%s' % (k, quoteattr(v)) for k, v in a), escape(text))
                   if text or c(2) else '<element%s/>' % ''.join(' %s=%s' % (k, quoteattr(v)) for k, v in a))
        if c(9) == 8:
            out.append('<!-- comment -->')
        if c(9) == 8:
            out.append('<description><element/>other things</description>')
    return '\n'.join(out + ['</table>'])


def examine(spec, sch):
    same(set(sch.elements), set(spec.by_id), 'IDs of the schema')
    same(set(sch.elementsByName), set(spec.els), 'names of the schema')
    same(set(sch.globals), spec.globals, 'global elements')
    for name, e in spec.els.items():
        cls = sch[name]
        w = 'element %s: ' % name
        expect(sch[e['id']] is cls and sch.get(name) is cls and sch.get(e['id']) is cls, w + 'found by name and by ID')
        expect(name in sch and e['id'] in sch, w + 'is in the schema')
        same(cls.id, e['id'], w + 'id')
        same(cls.name, name, w + 'name')
        same(kind(cls), e['t'], w + 'type')
        expect(issubclass(cls, BASES[e['t']]), w + 'base class')
        expect(cls.dtype is ref.DTYPES[e['t']], w + 'dtype')
        same(bool(cls.multiple), e['multiple'], w + 'multiple')
        same(bool(cls.mandatory), e['mandatory'], w + 'mandatory')
        same(bool(cls.precache), PRECACHE.get(e['t'], False) if e['precache'] is None else e['precache'],
             w + 'precache')
        same(cls.length, e['length'], w + 'length')
        expect(cls.schema is sch, w + 'schema')
    for k in ('Nope', 'element', 'table', 0x80, 0x1A45DFA4, 0, None, ''):
        if k not in spec.els and k not in spec.by_id:
            expect(k not in sch and sch.get(k) is None, 'unknown key in schema', k)
            must_raise(lambda: sch[k], 'lookup of %r' % (k,), KeyError)
    same(sch.type, spec.by_id.get(0x4282, {}).get('default'), 'type')
    same(sch.version, ref.default(spec.by_id.get(0x4287)), 'version')


def check(case, note):
    (lit, trees), choices, how, shuffle = case
    spec = ref.Spec(lit)
    c = Choices(choices)
    rows = table(spec, c, shuffle)
    xml = to_xml(rows, c)
    tmp = None if is_nameless(how) else tempfile.mkdtemp(prefix='pbt')
    try:
        sch = load_xml(xml, how, tmp, **(dict(name='x') if is_nameless(how) else {}))
        native = schema(spec)
        examine(spec, sch)
        for (a, text), e in zip(rows, spec.els.values() if not shuffle else [spec.els[dict(a)['name'].strip()] for a, _ in rows[
                :len(spec.els)]]):
            same(sch.elementInfo[e['id']], dict(a), 'raw attributes of %s' % e['name'])
            same((sch[e['name']].__doc__ or '').strip(), text.strip(), 'documentation of %s' % e['name'])
        data, nodes = ref.write_doc(trees, spec)
        for headers in (True, False):
            doc = sch.load(io.BytesIO(data), headers=headers)
            nat = native.load(io.BytesIO(data), headers=headers)
            want = nodes if headers else [n for n in nodes if n.id != 0x1A45DFA3 or n.offset]
            check_tree(iter(doc), want)
            same(content(doc), content(nat), 'legacy and native content')
            same(plain(doc.dump()), plain(nat.dump()), 'legacy and native dump')
            same(doc.type, nat.type, 'type of the document')
            same(doc.version, nat.version, 'version of the document')
        note('source ' + how)
        note('shuffled', bool(shuffle))
        note('repeated entry', len(rows) > len(spec.els))
        note.nt(len(spec.els) >= 3 or len(rows) > len(spec.els) or spec.globals or
                any(e['length'] for e in spec.els.values()))
    finally:
        if tmp:
            shutil.rmtree(tmp, ignore_errors=True)


def plain(d):
    if isinstance(d, dict):
        return [(k, plain(v)) for k, v in d.items()]
    if isinstance(d, (list, tuple)):
        return [plain(x) for x in d]
    return ref.canon(d)


def encoding(case, note):
    (lit, d, headers), choices = case
    spec = ref.Spec(lit)
    sch = Schema(io.StringIO(to_xml(table(spec, Choices(choices)))), name='x')
    note.nt(c05.nodes(d) >= 2)
    note('with header' if headers and 'EBML' in spec.els else 'no header')
    data = c05.live(spec, None, d)
    exp = (c05.header(spec) if headers else b'') + c05.contents(spec, d)
    same(bytes(sch.encodes(data, headers=headers)), exp, 'encodes(%r)' % (data,))
    expect(sch.verify(exp), 'verify of its own encoding')
    for e in spec.els.values():
        if e['t'] in ('master', 'void', 'date', 'float') or e['multiple']:
            continue
        v = {'uint': 1, 'int': -1, 'str': 'a', 'uni': 'a', 'bin': b'a'}[e['t']]
        must_raise(lambda: sch[e['name']].encode([v, v]), 'several values of %s' % e['name'])


FAULTS = ['no type', 'unknown type', 'unknown type', 'other type', 'attribute', 'length', 'other id', 'other name',
          'no id', 'no name', 'bad name', 'bad id']
BAD_TYPES = ['int', 'uint', 'Integer', '', 'utf8', 'utf-8 string', 'UTF-8', 'unicode', 'str', 'master ,', 'container', 'void',
             'Element', 'IntegerElement', 'MasterElement', 'None', 'bool', 'sub-elements', 'binary binary', 'float64']


def faulty(case, note):
    lit, choices, fkind, pick, at = case
    spec = ref.Spec(lit)
    c = Choices(choices)
    rows = table(spec, c)
    good = to_xml(rows)
    Schema(io.StringIO(good), name='x')
    names = sorted(spec.els)
    e = spec.els[names[pick % len(names)]]
    other = spec.els[names[(pick // 7) % len(names)]]
    t = ('type', TYPES[e['t']])
    name, eid = ('name', e['name']), ('id', '0x%X' % e['id'])
    newname, newid = ('name', 'Unheard'), ('id', '0x%X' % free(spec))
    fresh = c(2)
    ident = [newname, newid] if fresh else [[name], [eid], [name, eid]][c(3)]
    if fkind == 'no type':
        a = ident
    elif fkind == 'unknown type':
        a = ident + [('type', BAD_TYPES[pick // 50 % len(BAD_TYPES)])]
        note('of a known element' if not fresh else 'of a new element')
    elif fkind == 'other type':
        a = [[name], [eid], [name, eid]][c(3)] + [('type', sorted(set(TYPES.values()) - {t[1]})[pick // 50 % 7])]
    elif fkind == 'attribute':
        k = ['multiple', 'mandatory'][c(2)]
        a = [name, eid, t, (k, '0' if e[k] else '1')]
    elif fkind == 'length':
        a = [name, eid, t, ('length', str((e['length'] or 0) + 1))]
    elif fkind == 'other id':
        a = [name, t, ('id', '0x%X' % (other['id'] if other is not e else free(spec)))]
    elif fkind == 'other name':
        a = [eid, t, newname]
    elif fkind == 'no id':
        a = [newname, t]
    elif fkind == 'no name':
        a = [newid, t]
    elif fkind == 'bad name':
        a = [('name', ['1st', '-x', '.y', '', '  ', '#', '0', ':a'][c(8)]), newid, t]
    elif fkind == 'bad id':
        a = [newname, t, ('id', ['xyz', '', '0x', '1.5', 'g'][c(5)])]
    if fkind in ('attribute', 'length'):
        # (in front of the first definition, it would be the first itself, the attributes of which the other may leave out)
        at = len(rows)
    rows.insert(at % (len(rows) + 1), (a, ''))
    note(fkind)
    note.nt()
    xml = to_xml(rows)
    must_raise(lambda: Schema(io.StringIO(xml), name='x'), 'table with fault %r, entry %r' % (fkind, a))
    must_raise(lambda: core.parseSchema(xml, name='pbt-faulty-table', reload=True), 'table with fault %r (parseSchema)' % fkind)
    examine(spec, core.parseSchema(good, name='pbt-faulty-table', reload=True))


def large(case, note):
    shape, shuffle = case
    note.nt()
    lit = scale.large(shape)
    spec = ref.Spec(lit)
    c = Choices([0] if not shuffle else [1, 2, 5, 0, 3, 7])
    rows = table(spec, c, shuffle)
    sch = Schema(io.StringIO(to_xml(rows, c)), name='x')
    examine(spec, sch)
    data, nodes = ref.write_doc(scale.filled(spec), spec)
    check_tree(sch.loads(data), nodes)
    rows.append(([('name', lit['els'][-1]['name']), ('id', '0x%X' % free(spec)), ('type', TYPES[lit['els'][-1]['t']])], ''))
    must_raise(lambda: Schema(io.StringIO(to_xml(rows)), name='x'), 'a large table with a fault at its end')


def roots(case, note):
    tag, lit = case
    note.nt()
    body = to_xml(table(ref.Spec(lit), Choices([0])))[len('<table>'):-len('</table>')]
    xml = '<%s>%s</%s>' % (tag, body, tag)
    must_raise(lambda: Schema(io.StringIO(xml), name='x'), 'table in a root element %s' % tag)


SHAPE = dict(redeclare=False, length=True)
SOURCES = st.sampled_from(['stringio', 'stringio', 'stringio', 'bytesio', 'path', 'pathlib', 'file',
                           'load', 'parse', 'tempfile', 'load:utf-16', 'load:cp1252', 'path:iso-8859-1'])


@st.composite
def sized(draw):
    lit, trees = draw(gen.docs(spec_kw=dict(length=True), unknowns=True))
    return lit, [sizes(t) for t in trees]


def sizes(t):
    return ('m', t[1], [sizes(k) for k in t[2]], t[3], False) if t[0] == 'm' else t


SUBS = [
    Sub('tables', check, st.tuples(sized(), CHOICES, SOURCES, st.integers(0, 6)),
        quick=1200, thorough=30000, shards=3, rule='random table and sized document, legacy and native compared'),
    Sub('encoding', encoding, st.tuples(c05.document(), CHOICES), quick=1200, thorough=30000, shards=2,
        rule='random table, document encoded with it'),
    Sub('faults', faulty, st.tuples(gen.specs(length=True), CHOICES, st.sampled_from(FAULTS), st.integers(0, 5000),
        st.integers(0, 40)), quick=1500, thorough=30000, shards=2, rule='a table with one fault anywhere'),
    Sub('large', large, cases=lambda: [(s, h) for s in scale.LARGE for h in (0, 5)], shards=4, rule='enumerated: tables of up to 2500 entries'),
    Sub('roots', roots, st.tuples(st.sampled_from(['Table', 'tables', 'TABLE', 'element', 'ebml', 'root', 'EBMLSchema', 'x']),
        gen.specs(length=True)), quick=80, thorough=1000, shards=1, rule='other root tags'),
]
ASSUMPTIONS = ['elements of unknown size are excluded: a table does not say which elements a master may contain']
