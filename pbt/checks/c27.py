"""C27: several related schemata (variants of one), with documents and data of their own, used in random interleavings, in
one thread and in several that are switched inside of the library; every result is compared with the reference model of
its own schema, or with the same call made before, and arguments with copies of them; non-trivial = operations on at
least two schemata or in two threads, or an argument that is not empty."""
import copy
import io
import os
import random
import shutil
import sys
import tempfile
import threading
from xml.etree import ElementTree as ET

from hypothesis import strategies as st

from .. import gen, ref
from ..lib import BASES, check_element, check_tree, must_raise, schema
from ..run import REPO, Sub, expect, same
from . import c05
from .c11 import check_back, check_xml, skip_dates
from .c14 import examine
from .c16 import plain_tree
from .c18 import Schedule
from ebmlite import core, decoding, encoding, util, xml_codecs
from ebmlite.xml_codecs import BINARY_CODECS

FILES = {os.path.realpath(m.__file__) for m in (core, decoding, encoding, util, xml_codecs)}
ATTRS = ('id', 'name', 'schema', 'multiple', 'mandatory', 'length', 'precache', 'children', 'dtype')
CLASSES = sorted(set(BASES.values()) | {core.Element, core.Document, core.Schema}, key=lambda c: c.__name__)


def base_classes():
    return {(c.__name__, a): repr(getattr(c, a, None)) for c in CLASSES for a in ATTRS
            if not callable(getattr(c, a, None)) or isinstance(getattr(c, a, None), type)}


def library():
    return base_classes(), list(core.SCHEMA_PATH), sorted(core.SCHEMATA), dict(BINARY_CODECS)


def variant(lit, how, k):
    """Another schema with the same names and IDs."""
    els = [dict(e) for e in lit['els']]
    kids = {a: list(b) for a, b in lit['kids'].items()}
    own = [e for e in els if e['id'] not in gen.RESERVED_IDS and e['name'] != 'Void']
    leaves = [e for e in own if e['t'] != 'master']
    if how == 'types':
        ts = [e['t'] for e in leaves]
        for i, e in enumerate(leaves):
            t = ts[(i + 1 + k) % len(ts)]
            if t != e['t']:
                e['t'] = t
                e.pop('length', None)
    elif how == 'ids':
        ids = [e['id'] for e in own]
        for i, e in enumerate(own):
            e['id'] = ids[(i + 1 + k) % len(ids)]
    elif how == 'flags':
        for i, e in enumerate(own):
            if (k + i) % 3:
                e['multiple'] = not e.get('multiple')
                e['mandatory'] = not e.get('mandatory')
    elif how == 'kids':
        for e in own:
            if e['name'] not in kids[None]:
                kids[None].append(e['name'])
    elif how == 'glob':
        for i, e in enumerate(own):
            e['glob'] = (k + i) % 2 == 0
    elif how == 'length':
        for e in leaves:
            e['length'] = {'uint': 8, 'int': 7, 'float': 8, 'date': 8}.get(e['t'], 30 + k)
    elif how == 'precache':
        for e in leaves:
            e['precache'] = not e.get('precache')
    elif how == 'fewer':
        gone = {e['name'] for e in leaves[k % (len(leaves) + 1):][:1]}
        els = [e for e in els if e['name'] not in gone]
        kids = {a: [n for n in b if n not in gone] for a, b in kids.items()}
    return dict(els=els, kids=kids)


def vary(draw, lit):
    for _ in range(draw(st.integers(1, 2))):
        lit = variant(lit, draw(st.sampled_from(['types', 'types', 'ids', 'flags', 'kids', 'glob', 'length', 'precache',
                                                 'fewer', 'same'])), draw(st.integers(0, 5)))
    return lit


class World:
    """A schema with a document and data to encode."""
    def __init__(self, lit, trees, data, sch=None):
        self.spec = ref.Spec(lit)
        self.sch = sch or schema(self.spec, fresh=True)
        self.own = sch is None
        self.bytes, self.nodes = ref.write_doc(trees, self.spec)
        self.texts = all(e.get('length') is None for e in self.spec.els.values())
        skip_dates(self.nodes)
        self.data = data
        self.doc = self.sch.load(io.BytesIO(self.bytes), headers=True)
        self.its = []
        self.memo = {}

    def again(self, key, value):
        """The same as the first time."""
        same(value, self.memo.setdefault(key, value), key)

    def run(self, op, k):
        spec, sch, nodes = self.spec, self.sch, self.nodes
        if op == 'iter':
            self.its.append([iter(self.doc), nodes, 0])
        elif op == 'next' and self.its:
            it = self.its[k % len(self.its)]
            e = next(it[0], None)
            if it[2] == len(it[1]):
                expect(e is None, 'an element too many', e)
                return
            n = it[1][it[2]]
            it[2] += 1
            check_element(e, n)
            if n.kids is not None:
                self.its.append([iter(e), n.kids, 0])
        elif op == 'walk':
            check_tree(iter(self.doc), nodes)
        elif op == 'load':
            check_tree(iter(sch.loads(self.bytes)), nodes[1:] if nodes and nodes[0].name == 'EBML' else nodes)
        elif op == 'dump':
            d = self.doc.dump()
            same(plain_tree(d), ref.dump(nodes), 'dump')
            spoil(d)
        elif op == 'info':
            head = nodes[0] if nodes and nodes[0].name == 'EBML' else None
            same(plain_tree(self.doc.info), ref.dump([head])['EBML'] if head else {}, 'info')
        elif op == 'encode':
            live = c05.live(spec, None, self.data)
            got = sch.encodes(live, headers=bool(k & 1))
            same(bytes(got), (c05.header(spec) if k & 1 else b'') + c05.contents(spec, self.data), 'encodes')
            got += b'more'
        elif op in ('xml', 'back'):
            codec = ['base64', 'hex'][k & 1]
            x = util.toXml(self.doc, binary_codec=codec)
            same([c.tag for c in x], [n.name for n in nodes], 'XML elements')
            for c, n in zip(x, nodes):
                check_xml(c, n, dict.fromkeys(('ids', 'types', 'offsets', 'sizes'), True), BINARY_CODECS[codec])
            if op == 'back':
                before = ET.tostring(x)
                out = io.BytesIO()
                util.xml2ebml(x, out, sch, headers=False)
                same(ET.tostring(x), before, 'XML afterwards')
                check_back(sch.load(io.BytesIO(out.getvalue()), headers=True), nodes, True)
            else:
                for c in list(x):
                    x.remove(c)
        elif op == 'print':
            out = io.StringIO()
            util.pprint(self.doc, out=out, binary_codec=['ignore', 'hex'][k & 1])
            self.again(('print', k & 1), out.getvalue())
        elif op == 'flat':
            same([(e.id, e.offset) for e in util.flatiter(self.doc)], [(n.id, n.offset) for n in ref.flat(nodes)], 'flat')
        elif op == 'ids':
            self.again(('ids', k), util.createID(sch, 'ABCD'[k % 4], count=k))
        elif op == 'refused':
            must_raise(lambda: sch.encodes({'NoSuchElement': 1}), 'an unknown name')
            for e in spec.els.values():
                if e['t'] in ('uint', 'int', 'float', 'date', 'master'):
                    must_raise(lambda: sch[e['name']].encode('text'), 'text for a number')
                if not e['multiple'] and e['t'] in ('uint', 'str'):
                    must_raise(lambda: sch[e['name']].encode([good(e), good(e)]), 'two values')
        elif op == 'class':
            examine(spec, sch)
        elif op == 'schema':
            examine(spec, schema(spec, fresh=True))
        elif op == 'broken':
            cut = self.bytes[:-1]
            try:
                check_tree(iter(sch.loads(cut)), [])
            except Exception:
                pass
            must_raise(lambda: schema_of('<Schema><UIntegerElement name="A"/></Schema>'), 'a schema without ID')

    def done(self):
        examine(self.spec, self.sch)


def schema_of(xml):
    return core.Schema(io.StringIO(xml), name='t')


def good(e):
    return {'uint': 1, 'str': 'a'}[e['t']]


def spoil(d):
    """Change a result in place, as its owner may."""
    for k, v in list(d.items()):
        for x in v if isinstance(v, list) else [v]:
            if isinstance(x, dict):
                spoil(x)
            elif isinstance(x, bytearray):
                x[:] = b'spoilt'
        if isinstance(v, list):
            v.append('more')
    d['more'] = 1


OPS = ['iter', 'next', 'next', 'next', 'walk', 'load', 'dump', 'info', 'encode', 'encode', 'xml', 'back', 'print', 'flat', 'ids',
       'refused', 'class', 'schema', 'broken']


@st.composite
def world(draw, lit, nodes=8):
    spec = ref.Spec(lit)
    trees = gen.draw_trees(draw, spec, max_nodes=nodes, skip=('EBML',), text=gen.XUNI)
    if 'EBML' in spec.els and draw(st.booleans()):
        trees = [gen.header_tree(draw, spec)] + trees
    data = c05.repair(spec, None, c05.draw_contents(draw, spec, None, 0, gen._Budget(8), root=True))
    return (lit, trees, data)


@st.composite
def worlds(draw, most=4, nodes=8):
    lit = draw(gen.specs(max_els=7))
    out = [draw(world(lit, nodes))]
    for _ in range(draw(st.integers(1, most - 1))):
        out.append(draw(world(vary(draw, draw(st.sampled_from(out))[0]), nodes)))
    return out


def make(ws, shared):
    out = []
    for lit, trees, data in ws:
        # Equal schemata may be one
        sch = next((w.sch for w in out if shared and w.spec.literal == lit), None)
        out.append(World(lit, trees, data, sch))
    return out


def usable(w, op):
    """Conversion from XML is not claimed to give back documents that ignore a fixed length."""
    return op != 'back' or w.texts


def interleaved(case, note):
    ws, shared, ops = case
    before = library()
    worlds = make(ws, shared)
    used = set()
    for i, op, k in ops:
        w = worlds[i % len(worlds)]
        if usable(w, op):
            w.run(op, k)
            used.add(i % len(worlds))
    for w in worlds:
        w.run('walk', 0)
        w.run('encode', 0)
        w.done()
    same(library(), before, 'state of the library')
    note('schemata %d' % len(worlds))
    for i, op, k in ops:
        note('operation ' + op)
    note.nt(len(used) > 1)


def threads(case, note):
    ws, shared, programs, seed, odds, opcodes = case
    before = library()
    worlds = make(ws, shared)

    def program(w, ops):
        def go():
            for op, k in ops:
                if usable(w, op):
                    w.run(op, k)
        return go
    n = Schedule(seed, odds, FILES, opcodes).run([program(w, p) for w, p in zip(worlds, programs)])
    for w in worlds:
        w.run('walk', 0)
        w.run('encode', 0)
        w.done()
    same(library(), before, 'state of the library')
    note('switches > 20' if n > 20 else 'switches <= 20')
    note('threads %d' % len(worlds))
    note('one schema in several threads', len({id(w.sch) for w in worlds}) < len(worlds))
    note.nt(n > 4 and sum(1 for p in programs if p) > 1)


@st.composite
def threaded(draw):
    ws = draw(worlds(3, 5))
    programs = [draw(st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 5)), min_size=1, max_size=4)) for _ in ws]
    return (ws, draw(st.booleans()), programs, draw(st.integers(0, 10**6)), draw(st.sampled_from([0.01, 0.05, 0.2])),
            draw(st.booleans()))


# ---------------------------------------------------------------- preemption

class Preempt:
    """Runs a function; at some lines (or bytecodes) of the library, another one runs as a whole, in another thread."""
    def __init__(self, other, seed, odds, opcodes, most=120):
        self.other, self.rnd, self.odds, self.opcodes, self.left = other, random.Random(seed), odds, opcodes, most
        self.files = {m.__file__ for m in (core, decoding, encoding, util, xml_codecs)}
        self.n, self.errors, self.waiting = 0, [], []

    def trace(self, frame, event, arg):
        if frame.f_code.co_filename not in self.files:
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        return self.local

    def local(self, frame, event, arg):
        if event == ('opcode' if self.opcodes else 'line') and self.left > 0 and self.rnd.random() < self.odds:
            self.left -= 1
            self.n += 1
            t = threading.Thread(target=self.body, daemon=True)
            t.start()
            t.join(0.5)         # (blocked, if the function holds a lock: it goes on later)
            if t.is_alive():
                self.waiting.append(t)
                self.left = 0
        return self.local

    def body(self):
        try:
            self.other()
        except BaseException as e:
            self.errors.append(e)

    def run(self, fn):
        sys.settrace(self.trace)
        try:
            fn()
        finally:
            sys.settrace(None)
            for t in self.waiting:
                t.join(30)
        if self.errors:
            raise self.errors[0]
        return self.n


STEADY = ['walk', 'walk', 'walk', 'load', 'dump', 'encode', 'encode', 'encode', 'xml', 'back', 'print', 'flat', 'class', 'schema',
          'refused']


def preempted(case, note):
    ws, shared, ops, seed, odds, opcodes = case
    before = library()
    worlds = make(ws, shared)
    a, b = worlds[0], worlds[-1]
    for (op, k), (other, j) in ops:
        if not usable(a, op) or not usable(b, other):
            continue
        n = Preempt(lambda: b.run(other, j), seed, odds, opcodes).run(lambda: a.run(op, k))
        note('%s during %s' % (other, op), n > 0)
        note('preemptions', n)
        note.nt(n > 2)
    for w in worlds:
        w.run('walk', 0)
        w.run('encode', 0)
        w.done()
    same(library(), before, 'state of the library')


@st.composite
def preemptions(draw):
    ws = draw(worlds(2, 7))
    same_op = draw(st.booleans())
    ops = []
    for _ in range(draw(st.integers(1, 2))):
        a = (draw(st.sampled_from(STEADY)), draw(st.integers(0, 5)))
        ops.append((a, (a[0] if same_op else draw(st.sampled_from(STEADY)), draw(st.integers(0, 5)))))
    opcodes = draw(st.integers(0, 3)) == 0
    return (ws, draw(st.booleans()), ops, draw(st.integers(0, 10**6)),
            draw(st.sampled_from([0.02, 0.1] if opcodes else [0.1, 0.3, 1.0])), opcodes)


# ---------------------------------------------------------------- primitives

VALUES = {t: gen.value_lit(t) for t in gen.LEAVES}
NAMED = {'uint': 'UInt', 'int': 'Int', 'float': 'Float', 'str': 'String', 'uni': 'Unicode', 'date': 'Date', 'bin': 'Binary'}
VALID_IDS = st.sampled_from([0x81, 0xFE, 0x4080, 0x7FFE, 0x204080, 0x10204080, 0x1A45DFA3])


def primitive(t, v):
    """A call of a function that reads or encodes one thing, and the result it should have."""
    if t == 'id':
        if v[1]:
            return (lambda: decoding.readElementID(io.BytesIO(ref.id_bytes(v[0])))), (v[0], len(ref.id_bytes(v[0])))
        return (lambda: bytes(encoding.encodeId(v[0]))), ref.id_bytes(v[0])
    if t == 'size':
        n, w = v
        data = ref.size_bytes(n, max(w or 0, ref.size_width(n)))
        if w is None:
            return (lambda: bytes(encoding.encodeSize(n))), ref.size_bytes(n)
        return (lambda: decoding.readElementSize(io.BytesIO(data))), (n, len(data))
    if t == 'unknown':
        if v[1]:
            return (lambda: decoding.readElementSize(io.BytesIO(ref.unknown_bytes(v[0])))), (None, v[0])
        return (lambda: bytes(encoding.encodeSize(None))), ref.unknown_bytes(1)
    v, reads = gen.live(t, v[0]), v[1]
    data = ref.encode(t, v)
    if reads and t != 'bin':
        fn = getattr(decoding, 'read' + NAMED[t])
        return (lambda: ref.canon(fn(io.BytesIO(data), len(data)))), ref.canon(ref.decode(t, data))
    fn = getattr(encoding, 'encode' + NAMED[t])
    return (lambda: bytes(fn(v))), data


def primitives(case, note):
    """A function, while others (and the same with other arguments) run at each of its lines or bytecodes."""
    first, others, opcodes = case
    call, want = primitive(*first)
    rest = [primitive(*o) for o in others]
    same(call(), want, first)

    def meanwhile():
        for (c, w), o in zip(rest, others):
            same(c(), w, ('during', first, ':', o))
    n = Preempt(meanwhile, 0, 1.1, opcodes).run(lambda: same(call(), want, ('interrupted by', others, ':', first)))
    note(first[0])
    note.nt(n > 0 and others[0][0] == first[0] and rest[0][1] != want)


def item(t):
    if t == 'id':
        return st.tuples(st.just(t), st.tuples(VALID_IDS, st.booleans()))
    if t == 'size':
        return st.tuples(st.just(t), st.tuples(st.integers(0, 300) | st.integers(0, 2**40), st.none() | st.integers(1, 8)))
    if t == 'unknown':
        return st.tuples(st.just(t), st.tuples(st.integers(1, 8), st.booleans()))
    return st.tuples(st.just(t), st.tuples(VALUES[t], st.booleans()))


@st.composite
def primitive_cases(draw):
    t = draw(st.sampled_from(sorted(VALUES) + ['id', 'size']))
    ops = [draw(item(t)), draw(item(t))]
    if t not in ('id', 'size', 'unknown') and draw(st.integers(0, 3)):    # the same function
        ops[1] = (t, (ops[1][1][0], ops[0][1][1]))
    more = draw(st.lists(st.sampled_from(sorted(VALUES) + ['id', 'size', 'unknown']).flatmap(item), max_size=2))
    return ops[0], ops[1:] + more, draw(st.booleans())


# ---------------------------------------------------------------- arguments

def arguments(case, note):
    path = list(core.SCHEMA_PATH)
    try:
        functions(case, note)
    finally:
        core.SCHEMA_PATH[:] = path


def functions(case, note):
    """Whatever is given to a function is the same afterwards, and so is what it does the next time."""
    what, (lit, trees, data), xs, k = case
    spec = ref.Spec(lit)
    sch = schema(spec)
    raw, nodes = ref.write_doc(trees, spec)
    core.loadSchema('matroska.xml')
    before = library()

    def twice(fn, arg, show, result=lambda r: r):
        first = show(arg)
        a = result(fn(arg))
        same(show(arg), first, 'argument of %s afterwards' % what)
        same(result(fn(arg)), a, 'result of %s the second time' % what)
        same(show(arg), first, 'argument of %s after the second time' % what)
    lib = os.path.join(REPO, 'ebmlite', 'schemata')
    pool = [lib, '{ebmlite}', '{ebmlite.schemata}', '/nonexistent', '', 'nowhere', '{no.such.module}']
    paths = [pool[x % len(pool)] for x in xs]
    if what == 'printSchemata':
        def fn(p):
            out = io.StringIO()
            util.printSchemata(p, out=out, absolute=bool(k & 1))
            return out.getvalue()
        twice(fn, paths if xs or k & 2 else None, lambda p: copy.copy(p))
        note.nt(xs)
    elif what == 'printSchemata path':
        def fn(p):
            out = io.StringIO()
            util.printSchemata(p, out=out)
            return out.getvalue()
        twice(fn, core.SCHEMA_PATH, list)
        note.nt()
    elif what == 'listSchemata':
        twice(lambda p: core.listSchemata(*p), paths, list, lambda r: {a: list(map(str, b)) for a, b in r.items()})
        r = core.listSchemata(*paths)
        spoil(r)
        expect('more' not in core.listSchemata(*paths), 'a list of schemata is shared')
        note.nt(xs)
    elif what == 'loadSchema':
        same(core.loadSchema('matroska.xml', paths=paths + [lib]) is not None, True, 'schema')
        p = paths + [lib]
        twice(lambda p: core.loadSchema('matroska.xml', paths=p), p, list, lambda r: r.name)
        note.nt(xs)
    elif what == 'createID':
        ids = [0x80 + x for x in xs]
        for ex in (list(ids), set(ids), dict.fromkeys(ids)):
            twice(lambda e: util.createID(sch, 'a', exclude=e, count=5), ex, copy.copy, list)
        r = util.createID(sch, 'a', count=3)
        r.append(1)
        expect(1 not in util.createID(sch, 'a', count=3), 'a list of IDs is shared')
        note.nt(xs)
    elif what == 'encode':
        live = c05.live(spec, None, data)
        twice(lambda d: sch.encodes(d), live, repr, bytes)
        twice(lambda d: sch.encodes(d, headers=True), live, repr, bytes)
        for n, byid, d in data[1]:
            twice(lambda d: sch[n].encode(d), c05.live(spec, spec.els[n], d), repr, bytes)
        note.nt(data[1])
    elif what == 'loads':
        # Results and sources are apart
        src = bytearray(raw)
        doc = sch.loads(src)
        src[:] = b'\xff' * len(src)
        check_tree(iter(doc), nodes[1:] if nodes and nodes[0].name == 'EBML' else nodes)
        src = bytearray(raw)
        sch.verify(raw) if not any(n.t == 'unknown' for n in ref.flat(nodes)) else None
        same(bytes(src), raw, 'source of a document')
        note.nt(nodes)
    elif what == 'load':
        f = io.BytesIO(raw)
        doc = sch.load(f, headers=True)
        check_tree(iter(doc), nodes)
        util.toXml(doc)
        list(util.flatiter(doc))
        same(f.getvalue(), raw, 'file of a document')
        note.nt(nodes)
    elif what == 'toXml':
        doc = sch.load(io.BytesIO(raw), headers=True)
        codec = BINARY_CODECS[['base64', 'hex'][k & 1]](cols=[None, 0, 4, 76][k % 4])
        twice(lambda c: ET.tostring(util.toXml(doc, binary_codec=c, void_codec=c)), codec, lambda c: repr(vars(c)))
        parent = ET.Element('parent', a='b')
        parent.append(ET.Element('child'))
        for i, e in enumerate(doc):
            x = util.toXml(e, parent)
            same((parent.tag, dict(parent.attrib), len(parent)), ('parent', {'a': 'b'}, i + 2), 'parent of the XML')
            expect(parent[i + 1] is x, 'XML is not appended to its parent')
            same(ET.tostring(x), ET.tostring(util.toXml(e)), 'XML with and without a parent')
        note.nt(nodes)
    elif what == 'xml2ebml':
        x = util.toXml(sch.load(io.BytesIO(raw), headers=True), sizes=bool(k & 1))
        x.append(ET.Comment('remark'))

        def fn(x):
            out = io.BytesIO()
            util.xml2ebml(x, out, sch, sizeLength=[None, 4, 8][k % 3])
            return out.getvalue()
        if all(e.get('length') is None for e in spec.els.values()):
            twice(fn, x, ET.tostring)
            t = ET.ElementTree(x)
            twice(fn, t, lambda t: ET.tostring(t.getroot()))
            d = util.loadXml(x, sch, ':memory:')
            same(ET.tostring(x), ET.tostring(t.getroot()), 'XML')
            list(d)
        note.nt(nodes)
    elif what == 'codec':
        b = bytearray(raw)
        for name in ('base64', 'hex'):
            c = BINARY_CODECS[name](cols=8 + k)
            twice(lambda b: c.encode(b, offset=k, indent='  '), b, bytes)
            text = c.encode(b)
            twice(lambda t: BINARY_CODECS[name].decode(t), text, str, bytes)
            r = BINARY_CODECS[name].decode(text)
            if isinstance(r, bytearray):
                r += b'more'
            same(bytes(BINARY_CODECS[name].decode(text)), raw, 'decoded')
        note.nt(raw)
    elif what == 'addElement':
        a = {k: v for k, v in [('multiple', '1'), ('mandatory', '0'), ('length', '4'), ('precache', '1'), ('default', '7'),
                               ('global', '0'), ('note', 'x')] if (xs or [0])[0] >> len(k) % 7 & 1}
        first = dict(a)
        s = core.Schema(io.StringIO(spec.xml()), name='t')
        new = next(i for i in range(0x4100, 0x4200) if i not in s)
        cls = s.addElement(new, 'Unheard', core.UIntegerElement, a)
        same(a, first, 'attributes given to addElement')
        same(s.elementInfo[new], first, 'attributes of the new element')
        expect(s.addElement(new, 'Unheard', core.UIntegerElement, dict(first)) is cls, 'added again')
        same(a, first, 'attributes given to addElement')
        expect(s[new] is cls and s['Unheard'] is cls, 'the new element')
        note.nt(a)
    elif what == 'encoders':
        b = bytearray(raw)
        for n in (None, len(b), len(b) + 3):
            twice(lambda b: encoding.encodeBinary(b, n), b, bytes, bytes)
        r = encoding.encodeBinary(b)
        same(bytes(r), raw, 'encodeBinary')
        note.nt(raw)
    examine(spec, sch)
    same(library(), before, 'state of the library')
    note(what)


CONVERTED = ref.Spec(dict(els=[dict(name='M', id=0x81, t='master', multiple=True), dict(name='B', id=0x4080, t='bin',
                               multiple=True), dict(name='U', id=0x82, t='uint', multiple=True)], kids={None: ['M'], 'M': ['B', 'U']}))


def converted(case, note):
    """Documents made by loadXml without a file name, read in turns (more than what is buffered when a file is opened)."""
    docs, same_schema, order, reverse = case
    d = tempfile.mkdtemp(prefix='pbt')
    old = tempfile.tempdir
    tempfile.tempdir = d
    open_docs, wanted = [], []
    sch = schema(CONVERTED)
    try:
        for n, size, byte in docs:
            tree = ('m', 0x81, [('l', 0x82, bytes([n]), None)] + [('l', 0x4080, bytes([byte + i]) * size, None) for i in range(n)],
                    None, False)
            data, nodes = ref.write_doc([tree], CONVERTED)
            s = sch if same_schema else core.Schema(io.StringIO(CONVERTED.xml()), name='t')
            open_docs.append(util.loadXml(util.toXml(s.load(io.BytesIO(data))), s))
            wanted.append([n] + [bytes([byte + i]) * size for i in range(n)])
        todo = [list(range(len(w))) for w in wanted]
        els = [None] * len(docs)
        for k in order:
            k %= len(docs)
            if els[k] is None:
                els[k] = list(open_docs[k][0])
                same(len(els[k]), len(wanted[k]), 'elements of document %d' % k)
            if todo[k]:
                i = todo[k].pop(-1 if reverse else 0)
                v = els[k][i].value
                expect(v == wanted[k][i], 'value %d of document %d' % (i, k), str(v)[:60])
        for k, doc in enumerate(open_docs):
            got = doc[0].dump()
            expect(got == {'U': [wanted[k][0]], 'B': wanted[k][1:]}, 'dump of document %d' % k, str(got)[:60])
        note.nt(len(docs) > 1)
        note('more than is buffered' if max(n * size for n, size, _ in docs) > 20000 else 'small')
    finally:
        for doc in open_docs:
            doc.close()
        tempfile.tempdir = old
        shutil.rmtree(d, ignore_errors=True)


WHAT = ['printSchemata', 'printSchemata path', 'listSchemata', 'loadSchema', 'createID', 'encode', 'loads', 'load', 'toXml',
        'xml2ebml', 'codec', 'encoders', 'addElement']
SUBS = [
    Sub('interleaved', interleaved, st.tuples(worlds(), st.booleans(), st.lists(
        st.tuples(st.integers(0, 3), st.sampled_from(OPS), st.integers(0, 5)), min_size=3, max_size=25)),
        quick=900, thorough=25000, shards=5, rule='several related schemata in random turns'),
    Sub('threads', threads, threaded(), quick=120, thorough=4000, shards=6,
        rule='threads with schemata and documents of their own, switched at lines or bytecodes of the library'),
    Sub('preempted', preempted, preemptions(), quick=240, thorough=6000, shards=6,
        rule='one operation run as a whole, in another thread, at lines or bytecodes of another'),
    Sub('primitives', primitives, primitive_cases(), quick=600, thorough=15000, shards=4,
        rule='a function interrupted by the same one with other arguments, at each line or bytecode'),
    Sub('arguments', arguments, st.tuples(st.sampled_from(WHAT), gen.specs(max_els=7).flatmap(world),
                                          st.lists(st.integers(0, 126), max_size=5), st.integers(0, 11)),
        quick=900, thorough=20000, shards=4, rule='random arguments given twice'),
    Sub('converted', converted, st.tuples(st.lists(st.tuples(st.integers(1, 6), st.sampled_from([3, 500, 9000, 30000]),
                                                             st.integers(1, 200)), min_size=2, max_size=4), st.booleans(),
                                          st.lists(st.integers(0, 3), max_size=12), st.booleans()),
        quick=120, thorough=3000, shards=1, rule='documents made by loadXml, read in turns'),
]
ASSUMPTIONS = ['each document and stream is used by one thread only', 'loadSchema may add the schema it loads to SCHEMATA']
