"""C14: random schemata rendered to XML in many equivalent ways (attribute order and spelling, re-declarations by name, ID or
both, contents split over declarations, foreign tags, comments) and faulty variants of them; non-trivial = a nested
element, a re-declaration, a global, a fixed length, or any faulty variant."""
import io
import os
import pathlib
import shutil
import tempfile
from xml.sax.saxutils import escape, quoteattr

from hypothesis import strategies as st

from .. import gen, ref, scale
from ..lib import BASES, Schema, check_tree, kind, must_raise, schema
from ..run import Sub, expect, same
from ebmlite import core

PRECACHE = dict(int=True, uint=True, float=True, date=True)     # "Numeric element types default to True"
TRUE, FALSE = ['1', 'True', 'true', 'T'], ['0', 'False', 'false']


class Choices:
    """Small decisions, from a drawn list; 0 is the plain rendering."""
    def __init__(self, xs):
        self.xs, self.i = xs or [0], 0

    def __call__(self, n):
        self.i += 1
        return self.xs[self.i % len(self.xs)] % n if n > 1 else 0


CHOICES = st.lists(st.integers(0, 59), max_size=40)


def attributes(e, c):
    """The attributes of the first declaration."""
    ids = ['0x%X' % e['id'], '%x' % e['id'], '0x%08x' % e['id'], '0X%x' % e['id']]
    a = [('name', ['%s', '%s', ' %s', '%s '][c(4)] % e['name']), ('id', ids[c(4)])]
    for k in ('multiple', 'mandatory'):
        if e[k]:
            a.append((k, TRUE[c(4)]))
        elif c(3) < 2:
            a.append((k, [FALSE[c(3)], ''][c(12) == 11]))
    if e['precache'] is not None:
        a.append(('precache', TRUE[c(4)] if e['precache'] else FALSE[c(3)]))
    if e['length'] is not None:
        a.append(('length', ['%d', ' %d ', '0x%X', '0x%02x'][c(4)] % e['length']))
    if e['glob']:
        a.append([('global', TRUE[c(4)]), ('global', TRUE[c(4)]), ('level', ['-1', ' -1', '-1 '][c(3)])][c(3)])
    elif c(4) == 3:
        a.append(('global', FALSE[c(3)]))
    if e['default'] is not None:
        a.append(('default', e['default']))
    if c(6) == 5:
        a.append(('minver', '2'))
    if c(3):
        k = c(len(a))
        a = a[k:] + a[:k]
    return a


TEXTS = ['', 'The docs of this & that', '\n  ', '', 'One paragraph.\n\n   Another <one>,\n\tindented.\n', ' \xfc\u4e2d ' * 200, ' "x" ']


def render(spec, c):
    """-> [tag, attributes, children, text] of the schema's root."""
    first = {}

    def declare(name):
        e = spec.els[name]
        tag = ref.TAGS[e['t']]
        if name not in first:
            a = first[name] = attributes(e, c)
            kids = spec.kids.get(name, [])
            cut = len(kids) - (c(len(kids) + 1) if c(3) == 2 else 0)
            text = TEXTS[c(len(TEXTS))]
            node = [tag, a, [], text]
            for k in kids[:cut]:
                node[2].extend(declare(k))
                if c(12) == 11:
                    node[2].append(['description', [('lang', 'en')], [], 'text'])
            out = [node]
            if cut < len(kids):
                more = [tag, redeclaration(name), [], '']
                for k in kids[cut:]:
                    more[2].extend(declare(k))
                out.append(more)
            return out
        return [[tag, redeclaration(name), [], '']]

    def redeclaration(name):
        a = dict(first[name])
        how = c(4)
        keep = [{'name'}, {'id'}, {'name', 'id'}, set(a)][how]
        if how == 2 and c(2):
            keep = keep | {sorted(a)[c(len(a))]}
        return [(k, v) for k, v in first[name] if k in keep]
    root = ['Schema', [], [], '']
    for k in spec.kids[None]:
        root[2].extend(declare(k))
        if c(12) == 11:
            root[2].append(['author', [], [['BinaryElement', [('name', 'NotReally'), ('id', '0xFD')], [], '']], 'me'])
    return root


def described(sch, spec, node, seen):
    """The raw attributes and the text of the first declaration of each element."""
    tag, attrs, kids, text = node
    if tag not in ref.TAGS.values() and tag != 'Schema':
        return
    a = dict(attrs)
    key = spec.els.get(a.get('name', '').strip()) or (spec.by_id[int(a['id'], 16)] if 'id' in a else None)
    if key is not None and key['id'] not in seen:
        seen.add(key['id'])
        same(sch.elementInfo[key['id']], a, 'raw attributes of %s' % key['name'])
        same(sch[key['name']].__doc__ or '', text.strip(), 'documentation of %s' % key['name'])
    for k in kids:
        described(sch, spec, k, seen)


def to_xml(node, comments=False):
    tag, attrs, kids, text = node
    return '<%s%s>%s%s%s</%s>' % (
        tag, ''.join(' %s=%s' % (k, quoteattr(v)) for k, v in attrs), escape(text),
        '<!-- c -->' if comments else '', '\n'.join(to_xml(k, comments) for k in kids), tag)


def load_xml(xml, how, tmp=None, **kw):
    if how == 'stringio':
        return Schema(io.StringIO(xml), **kw)
    how, _, enc = how.partition(':')
    enc = enc or 'utf-8'
    full = ('<?xml version="1.0" encoding="%s"?>\n' % enc + xml).encode(enc, 'xmlcharrefreplace')
    if how == 'bytesio':
        return Schema(io.BytesIO(full), **kw)
    if how == 'parse':
        return core.parseSchema(full, reload=True, **kw)
    if how in ('tempfile', 'parse-tempfile', 'parse-namedfile'):
        with (tempfile.NamedTemporaryFile() if how == 'parse-namedfile' else tempfile.TemporaryFile()) as f:
            f.write(full)
            f.seek(0)
            return Schema(f, **kw) if how == 'tempfile' else core.parseSchema(f, reload=True, **kw)
    p = os.path.join(tmp, kw.pop('base', 'some.schema') + '.xml')
    with open(p, 'wb') as f:
        f.write(full)
    if how == 'path':
        return Schema(p, **kw)
    if how == 'pathlib':
        return Schema(pathlib.Path(p), **kw)
    if how == 'load':
        return core.loadSchema(p, reload=True, **kw)
    if how in ('file', 'bytesname'):
        with open(p if how == 'file' else os.fsencode(p), 'rb') as f:
            return Schema(f, **kw)
    raise ValueError(how)


NAMELESS = ('stringio', 'bytesio', 'tempfile')


def is_nameless(how):
    return how.partition(':')[0] in NAMELESS + ('parse', 'parse-tempfile', 'parse-namedfile')


def examine(spec, sch):
    same(set(sch.elements), set(spec.by_id), 'IDs of the schema')
    same(set(sch.elementsByName), set(spec.els), 'names of the schema')
    same(set(sch.children), spec.child_ids(None), 'root elements')
    same(set(sch.globals), spec.globals, 'global elements')
    for name, e in spec.els.items():
        cls = sch[name]
        w = 'element %s: ' % name
        expect(sch[e['id']] is cls and sch.get(name) is cls and sch.get(e['id']) is cls, w + 'found by name and by ID')
        expect(name in sch and e['id'] in sch, w + 'is in the schema')
        same(cls.id, e['id'], w + 'id')
        same(cls.name, name, w + 'name')
        same(kind(cls), e['t'], w + 'type')
        expect(issubclass(cls, BASES[e['t']]), w + 'base class')
        expect(cls.dtype is ref.DTYPES[e['t']], w + 'dtype')
        same(bool(cls.multiple), e['multiple'], w + 'multiple')
        same(bool(cls.mandatory), e['mandatory'], w + 'mandatory')
        same(bool(cls.precache), PRECACHE.get(e['t'], False) if e['precache'] is None else e['precache'],
             w + 'precache')
        same(cls.length, e['length'], w + 'length')
        if e['t'] == 'master':
            same(set(cls.children or ()), spec.child_ids(name), w + 'children')
        else:
            expect(not cls.children, w + 'has children', cls.children)
        expect(cls.schema is sch, w + 'schema')
    for k in ('Nope', 'document', 0x80, 0x1A45DFA4, 0, -1, None, ''):
        if k not in spec.els and k not in spec.by_id:
            expect(k not in sch, 'unknown key in schema', k)
            expect(sch.get(k) is None and sch.get(k, 7) == 7, 'get of an unknown key', k)
            must_raise(lambda: sch[k], 'lookup of %r' % (k,), KeyError)
    d = spec.by_id.get(0x4282, {}).get('default')
    same(sch.type, d, 'type')
    same(sch.version, ref.default(spec.by_id.get(0x4287)), 'version')


def relations(spec, sch):
    """An unknown-size master takes in exactly its declared children and the globals."""
    for m in spec.els.values():
        if m['t'] != 'master':
            continue
        for e in spec.els.values():
            if e['name'] == 'EBML' or m['name'] == 'EBML':
                continue
            tail = ('m', e['id'], [], None, False) if e['t'] == 'master' else \
                ('l', e['id'], b'\0' * 8 if e['t'] == 'date' else b'', None)
            unk = ('m', m['id'], [], None, True)
            inside = spec.valid_child(m['id'], e['id'])
            trees = [('m', m['id'], [tail], None, True)] if inside else [unk, tail]
            data, nodes = ref.write_doc(trees, spec)
            check_tree(iter(sch.loads(data)), nodes, where='%s followed by %s: ' % (m['name'], e['name']))


def large(case, note):
    shape, how = case
    note.nt()
    lit = scale.large(shape)
    spec = ref.Spec(lit)
    root = render(spec, Choices([0] if how == 0 else [1, 2, 5, 0, 3, 7]))
    sch = Schema(io.StringIO(to_xml(root)), name='x')
    examine(spec, sch)
    data, nodes = ref.write_doc(scale.filled(spec), spec)
    check_tree(sch.loads(data), nodes)
    lengths(spec, sch)
    expect(sch == Schema(io.StringIO(to_xml(root)), name='y'), 'a second schema differs')
    last = lit['els'][-1]
    plain = Schema(io.StringIO(spec.xml()), name='x')
    for part in ('multiple', 'mandatory', 'id'):
        els = lit['els'][:-1] + [dict(last, **{part: free(spec) if part == 'id' else not last[part]})]
        b = Schema(io.StringIO(ref.Spec(dict(lit, els=els)).xml()), name='x')
        expect(plain != b and not b == plain, 'schemata whose last elements differ in %s are equal' % part)
    bad = ['UIntegerElement' if last['t'] != 'uint' else 'StringElement', [('name', last['name'])], [], '']
    ms = masters(root, [])
    ms[-1][2].append(bad)
    must_raise(lambda: Schema(io.StringIO(to_xml(root)), name='x'), 'a large schema with a fault at its end')


def lengths(spec, sch):
    for e in spec.els.values():
        if e['t'] in ('master', 'date', 'float'):
            continue
        v = {'uint': 1, 'int': -1, 'str': 'a', 'uni': 'a', 'bin': b'a', 'void': b''}[e['t']]
        want = ref.id_bytes(e['id']) + ref.size_bytes(e['length'] or int(e['t'] != 'void')) + ref.encode(e['t'], v, e['length'])
        same(bytes(sch[e['name']].encode(v)), want, 'encoding of %s' % e['name'])
        if e['multiple']:
            same(bytes(sch[e['id']].encode([v, v])), want * 2, 'encoding of several %s' % e['name'])
        else:
            must_raise(lambda: sch[e['name']].encode([v, v]), 'several values of %s' % e['name'])


def check(case, note):
    (lit, trees), choices, how, comments = case
    spec = ref.Spec(lit)
    c = Choices(choices)
    tree = render(spec, c)
    xml = to_xml(tree, comments)
    tmp = None if is_nameless(how) else tempfile.mkdtemp(prefix='pbt')
    try:
        sch = load_xml(xml, how, tmp, **(dict(name='x') if is_nameless(how) else {}))
        examine(spec, sch)
        seen = set()
        described(sch, spec, tree, seen)
        same(seen, set(spec.by_id), 'elements described')
        data, nodes = ref.write_doc(trees, spec)
        check_tree(iter(sch.load(io.BytesIO(data), headers=True)), nodes)
        relations(spec, sch)
        lengths(spec, sch)
        other = load_xml(xml, 'stringio', name='y')
        expect(sch == other and other == sch, 'a second schema of the same XML differs')
        examine(spec, sch)
        n = xml.count('Element ') + xml.count('Element>') // 2
        note('source ' + how)
        nested = any(spec.kids.get(k) for k in spec.kids if k)
        red = sum(len(v) for v in spec.kids.values()) > len(spec.els)
        note('nested', nested)
        note('re-declared', red)
        note.nt(nested or red or spec.globals or any(e['length'] for e in spec.els.values()) and n)
    finally:
        if tmp:
            shutil.rmtree(tmp, ignore_errors=True)


# ---------------------------------------------------------------- faulty schemata

def masters(node, out):
    out.append(node)
    for k in node[2]:
        if k[0] == 'MasterElement':
            masters(k, out)
    return out


TAGS = ['BinaryElement', 'DateElement', 'FloatElement', 'IntegerElement', 'MasterElement', 'StringElement',
        'UIntegerElement', 'UnicodeElement']


def free(spec):
    return next(i for i in range(0x1F00AA00, 0x1FFFFFFE) if i not in spec.by_id)


def fault(spec, fkind, c, pick):
    names = sorted(spec.els)
    e = spec.els[names[pick % len(names)]]
    other = spec.els[names[(pick // 7) % len(names)]]
    tag = ref.TAGS[e['t']]
    ident = [[('name', e['name'])], [('id', '0x%X' % e['id'])],
             [('name', e['name']), ('id', '0x%X' % e['id'])]][c(3)]
    if fkind == 'type':
        t = [x for x in TAGS if x != tag][pick % 7]
        return [t, ident, [], '']
    if fkind == 'attribute':
        k = ['multiple', 'mandatory'][c(2)]
        return [tag, ident + [(k, '0' if e[k] else '1')], [], '']
    if fkind == 'length':
        return [tag, ident + [('length', str((e['length'] or 0) + 1))], [], '']
    if fkind == 'global':
        return [tag, ident + [('global', '0' if e['glob'] else '1')], [], '']
    if fkind == 'other id':
        return [tag, [('name', e['name']), ('id', '0x%X' % (other['id'] if other is not e else free(spec)))], [], '']
    if fkind == 'other name':
        return [tag, [('id', '0x%X' % e['id']), ('name', 'Unheard')], [], '']
    if fkind == 'no id':
        return [tag, [('name', 'Unheard')], [], '']
    if fkind == 'no name':
        return [tag, [('id', '0x%X' % free(spec))], [], '']
    if fkind == 'neither':
        return [tag, [], [], '']
    if fkind == 'unknown type':
        return [['FooElement', 'VoidElement', 'Element', 'uintegerElement', 'XUIntegerElement'][c(5)],
                [('name', 'Unheard'), ('id', '0x%X' % free(spec))], [], '']
    if fkind == 'bad name':
        return [tag, [('name', ['1st', '-x', '.y', '', '  ', '#', '0', ':a'][c(8)]), ('id', '0x%X' % free(spec))], [], '']
    if fkind == 'bad id':
        return [tag, [('name', 'Unheard'), ('id', ['xyz', '', '0x', '1.5', 'g'][c(5)])], [], '']
    raise ValueError(fkind)


FAULTS = ['type', 'type', 'attribute', 'length', 'global', 'other id', 'other name', 'no id', 'no name', 'neither',
          'unknown type', 'bad name', 'bad id']


def faulty(case, note):
    lit, choices, fkind, pick, place, at = case
    spec = ref.Spec(lit)
    c = Choices(choices)
    root = render(spec, c)
    good = to_xml(root)
    Schema(io.StringIO(good), name='x')
    node = fault(spec, fkind, c, pick)
    ms = masters(root, [])
    m = ms[place % len(ms)]
    if fkind in ('attribute', 'length', 'global') and len(node[1]) > 2:
        # (in front of the first definition, it would be the first itself, the attributes of which the other may leave out)
        m, at = root, len(root[2])
    m[2].insert(at % (len(m[2]) + 1), node)
    xml = to_xml(root)
    note(fkind)
    note.nt()
    must_raise(lambda: Schema(io.StringIO(xml), name='x'), 'schema with fault %r, element %r' % (fkind, node))
    must_raise(lambda: core.parseSchema(xml, name='pbt-faulty', reload=True), 'schema with fault %r (parseSchema)' % fkind)
    examine(spec, core.parseSchema(good, name='pbt-faulty', reload=True))


def roots(case, note):
    note.nt()
    tag, inner = case
    xml = '<%s>%s</%s>' % (tag, inner, tag)
    must_raise(lambda: Schema(io.StringIO(xml), name='x'), 'root tag %s' % tag)


# ---------------------------------------------------------------- equality

def equality(case, note):
    lit, choices, edit, pick = case
    spec = ref.Spec(lit)
    xml = to_xml(render(spec, Choices(choices)))
    a = Schema(io.StringIO(xml), name='a')
    expect(a == a and a == Schema(io.StringIO(xml), name='b'), 'equal schemata differ')
    for foreign in (None, 1, 'Schema', object(), {}, spec.by_id):
        expect(not a == foreign and a != foreign, 'schema equals', foreign)
    lit2 = dict(els=[dict(e) for e in lit['els']], kids={k: list(v) for k, v in lit['kids'].items()})
    e = lit2['els'][pick % len(lit2['els'])]
    if edit == 'id':
        e['id'] = free(spec)
    elif edit == 'name':
        for v in lit2['kids'].values():
            v[:] = ['Unheard' if k == e['name'] else k for k in v]
        if e['name'] in lit2['kids']:
            lit2['kids']['Unheard'] = lit2['kids'].pop(e['name'])
        e['name'] = 'Unheard'
    elif edit in ('multiple', 'mandatory', 'glob'):
        e[edit] = not e.get(edit)
    elif edit == 'type':
        e = [x for x in lit2['els'] if x['t'] not in ('master', 'void')]
        if not e:
            return
        e = e[pick % len(e)]
        types = [t for t in gen.LEAVES if t != e['t']]
        e['t'] = types[pick // 7 % len(types)]
    elif edit == 'length':
        e['length'] = (e.get('length') or 0) + 1
    elif edit == 'more':
        lit2['els'].append(dict(name='Unheard', id=free(spec), t='uint'))
        lit2['kids'][None].append('Unheard')
    elif edit == 'fewer':
        last = [x for x in lit2['els'] if not lit2['kids'].get(x['name'])]
        if not last or len(lit2['els']) < 2:
            return
        lit2['els'].remove(last[-1])
        for v in lit2['kids'].values():
            v[:] = [k for k in v if k != last[-1]['name']]
    b = Schema(io.StringIO(ref.Spec(lit2).xml()), name='a')
    a = Schema(io.StringIO(spec.xml()), name='a')
    expect(not a == b and not b == a and a != b, 'schemata that differ in %s are equal' % edit)
    note(edit)
    note.nt()


# ---------------------------------------------------------------- names

def naming(case, note):
    lit, given, how, base = case
    spec = ref.Spec(lit)
    xml = spec.xml().split('?>', 1)[1]
    d = spec.by_id.get(0x4282, {}).get('default')
    tmp = tempfile.mkdtemp(prefix='pbt')
    try:
        kw = {} if given is None else dict(name=given)
        if how in NAMELESS:
            sch, stem = load_xml(xml, how, **kw), None
        elif how == 'parse':
            sch, stem = core.parseSchema(xml, reload=True, **kw), None
        else:
            sch, stem = load_xml(xml, how, tmp, base=base, **kw), base
            same(sch.filename, os.path.realpath(os.path.join(tmp, base + '.xml')), 'filename')
        want = given or d or stem
        if want is not None:
            same(sch.name, want, 'name of the schema')
            expect(repr(want) in repr(sch), 'name in the repr', repr(sch))
        expect(type(sch).__name__ in repr(sch), 'repr', repr(sch))
        examine(spec, sch)
        note('by ' + ('given name' if given else 'document type' if d else 'file name' if stem else 'nothing'))
        note.nt(not d or given)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ---------------------------------------------------------------- addElement

def added(case, note):
    """The first root declarations from XML, the others added one by one; a refused one leaves the schema as it was."""
    lit, choices, cut, bare, faults = case
    spec = ref.Spec(lit)
    c = Choices(choices)
    tree = render(spec, c)
    cut %= len(tree[2]) + 1
    sch = Schema(io.StringIO(to_xml([tree[0], tree[1], tree[2][:cut], ''])), name='x')
    src = io.StringIO(to_xml(tree))
    other = Schema(src, name='y')
    expect(other.source is src, 'source of the schema')
    count = refused = 0

    def add(node, parent):
        nonlocal count, refused
        tag, attrs, kids, text = node
        if tag not in Schema.BASE_CLASSES:
            return
        a = dict(attrs)
        eid = int(a['id'], 16) if 'id' in a else None
        name = a['name'].strip() if 'name' in a else None
        first = not (eid in sch.elements or name in sch.elementsByName)
        if count % 3 == 0 and count // 3 < len(faults):
            # refused
            f = faults[count // 3]
            before = set(sch.elements), set(sch.elementsByName), set(sch.children), set(sch.globals)
            old = next(iter(sch.elements.values()), None)
            args = {'no id': (None, 'Unheard', core.BinaryElement), 'no name': (free(spec), None, core.BinaryElement),
                    'text id': ('0x81', 'Unheard', core.BinaryElement), 'bad name': (free(spec), '1x', core.BinaryElement),
                    'name': (free(spec), 7, core.BinaryElement),
                    'type': old and (old.id, old.name, core.DateElement if kind(old) != 'date' else core.UIntegerElement),
                    'length': old and (old.id, None, old.__base__ if kind(old) != 'void' else core.BinaryElement,
                                       {'length': '99', 'x': 'y'})}[f]
            if args:
                must_raise(lambda: sch.addElement(*args, parent=parent), 'addElement%r' % (args,))
                same((set(sch.elements), set(sch.elementsByName), set(sch.children), set(sch.globals)), before,
                     'elements after a refused addElement%r' % (args,))
                refused += 1
        count += 1
        kw = {}
        if first or a and not bare:
            kw['attribs'] = a
        if parent is not None:
            kw['parent'] = parent
        if text.strip():
            kw['docs'] = text.strip()
        cls = sch.addElement(eid, name, Schema.BASE_CLASSES[tag], **kw)
        e = spec.els[name] if name else spec.by_id[eid]
        expect(cls is sch[e['id']] and cls is sch[e['name']], 'element returned for', e['name'])
        if tag == 'MasterElement':
            for k in kids:
                add(k, cls)
    for n in tree[2][cut:]:
        add(n, None if count % 2 else sch)
    examine(spec, sch)
    seen = set()
    described(sch, spec, tree, seen)
    relations(spec, sch)
    lengths(spec, sch)
    expect(sch == other and other == sch, 'the schema differs from that of the XML')
    # documents of the schema know the added elements
    roots_ = [k for k in spec.child_ids(None) if spec.by_id[k]['t'] in ('bin', 'str', 'uint')]
    data, nodes = ref.write_doc([('l', k, b'a', None) for k in roots_], spec)
    check_tree(iter(sch.loads(data)), nodes)
    note('elements added', count)
    note('refused', refused)
    note.nt(count > 1 or refused)


SPECS = st.one_of(gen.specs(length=True), gen.specs(max_els=14, min_els=4, length=True, min_masters=2))
DOCS = st.one_of(gen.docs(spec_kw=dict(length=True)), gen.docs(spec_kw=dict(length=True, max_els=14, min_els=4,
                                                                           min_masters=2)))
HOW = st.sampled_from(['stringio', 'bytesio', 'path', 'pathlib', 'file', 'stringio', 'bytesio', 'parse', 'tempfile', 'load',
                       'bytesname', 'parse-tempfile', 'parse-namedfile', 'load:utf-16', 'load:iso-8859-1', 'load:cp1252',
                       'path:utf-16', 'file:iso-8859-1', 'bytesio:us-ascii', 'parse:utf-16', 'parse-tempfile:cp1252'])
SUBS = [
    Sub('definitions', check, st.tuples(DOCS, CHOICES, HOW, st.booleans()), quick=900, thorough=25000, shards=4,
        rule='random schemata, renderings and sources'),
    Sub('faults', faulty, st.tuples(SPECS, CHOICES, st.sampled_from(FAULTS), st.integers(0, 200), st.integers(0, 20),
                                    st.integers(0, 20)), quick=1500, thorough=40000, shards=3,
        rule='one faulty declaration inserted anywhere'),
    Sub('roots', roots, cases=lambda: [(t, i) for t in ('schema', 'Table', 'EBMLSchema', 'x', 'element') for i in
                                       ('', '<UIntegerElement name="A" id="0x81"/>')], shards=1, rule='other root tags'),
    Sub('equality', equality, st.tuples(SPECS, CHOICES, st.sampled_from(
        ['id', 'name', 'multiple', 'mandatory', 'glob', 'length', 'more', 'fewer', 'type', 'type']), st.integers(0, 200)),
        quick=500, thorough=12000, shards=2, rule='one difference between two schemata'),
    Sub('large', large, cases=lambda: [(s, h) for s in scale.LARGE for h in (0, 1)], shards=4, rule='enumerated: schemata of up to 2500 elements and 110 levels'),
    Sub('added', added, st.tuples(SPECS, CHOICES, st.integers(0, 6), st.booleans(), st.lists(st.sampled_from(
        ['no id', 'no name', 'text id', 'bad name', 'name', 'type', 'length']), max_size=4)), quick=400, thorough=12000,
        shards=2, rule='schemata built by addElement, in part or from nothing'),
    Sub('names', naming, st.tuples(SPECS, st.one_of(st.none(), st.sampled_from(['given', 'A name', 'x.y'])),
                                   st.sampled_from(['stringio', 'bytesio', 'path', 'pathlib', 'file', 'parse', 'tempfile', 'bytesname',
                                                    'load']),
                                   st.sampled_from(['abc', 'my.schema', 'a b', 'é', 'X'])),
        quick=400, thorough=8000, shards=1, rule='random sources of the name'),
]
ASSUMPTIONS = ['Boolean attributes spelled 1/0, True/False, true/false, T; or level -1 for "global"',
               'attributes compared as written (as the code and docstring do) for equality of schemata']
