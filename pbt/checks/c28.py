"""C28: schemata with handlers for unknown IDs of several kinds (classes, functions, other callables, a subclass of Schema) and
codecs of the user's own, given as instances, by name or on the command line; which calls they get, where their results
appear, and that all else stays as it was; non-trivial = at least one call of the handler or codec."""
import io
import os
from xml.etree import ElementTree as ET

from hypothesis import strategies as st

from .. import gen, ref, scale
from ..lib import MasterElement, Schema, UnknownElement, check_element, check_tree, must_raise, schema
from ..run import Sub, expect, same
from .c08 import admissible, flagged, streams
from .c11 import skip_dates, walk
from .c16 import plain_tree
from .c21 import Scratch, put, run
from ebmlite import core, util, xml_codecs
from ebmlite.xml_codecs import BINARY_CODECS


class Handler:
    """Makes elements of some kind, and remembers what it was asked for."""
    def __init__(self, how, kind):
        self.how, self.kind = how, kind
        self.calls, self.made = [], []

    def cls(self, eid, sch):
        if self.kind == 'uint':
            return type('Late', (core.UIntegerElement,), {'id': eid, 'name': 'Late', 'schema': sch})
        if self.kind == 'bin':
            return type('Late', (core.BinaryElement,), {'id': eid, 'name': 'Late', 'schema': sch, 'precache': True})
        return None

    def __call__(self, stream=None, offset=0, size=0, payloadOffset=0, eid=None, schema=None):
        self.calls.append((stream, offset, size, payloadOffset, eid, schema))
        c = self.cls(eid, schema)
        e = c(stream, offset, size, payloadOffset) if c else self.fallback(stream, offset, size, payloadOffset, eid=eid,
                                                                          schema=schema)
        self.made.append(e)
        return e

    @staticmethod
    def fallback(*a, **kw):
        return UnknownElement(*a, **kw)

    def installed(self):
        """What to set as UNKNOWN."""
        if self.how == 'callable':
            return self
        if self.how == 'function':
            def handler(*a, **kw):
                return self(*a, **kw)
            return handler
        if self.how == 'method':
            return self.__call__
        me = self

        class Mine(UnknownElement):
            __slots__ = ()
            name = 'Mine'
            precache = self.kind == 'precached'

            def __init__(self, *a, **kw):
                super().__init__(*a, **kw)
                me.calls.append((self.stream, self.offset, self.size, self.payloadOffset, self.id, self.schema))
                me.made.append(self)
        return Mine

    def name(self):
        return 'Mine' if self.how == 'class' else 'Late' if self.kind in ('uint', 'bin') else 'UnknownElement'


def handlers(case, note):
    lit, trees, how, kind, sub, fail = case
    spec = ref.Spec(lit)
    data, nodes = ref.write_doc(trees, spec)
    unknown = {n.offset: n for n in ref.flat(nodes) if n.t == 'unknown'}
    h = Handler(how, kind)
    if sub:
        u = h.installed()
        mine = type('MySchema', (Schema,), {'UNKNOWN': staticmethod(u) if how == 'function' else u})
        sch = mine(io.StringIO(spec.xml()), name='t')
    else:
        sch = schema(spec, fresh=True)
        sch.UNKNOWN = h.installed()
    plain = schema(spec)
    other = plain.load(io.BytesIO(data), headers=True)
    doc = sch.load(io.BytesIO(data), headers=True)

    def compare(els, nodes):
        els = list(els)
        same([e.offset for e in els], [n.offset for n in nodes], 'offsets')
        for e, n in zip(els, nodes):
            if n.t != 'unknown':
                check_element(e, n)
                expect(not any(e is m for m in h.made), 'the handler was asked for', n)
            else:
                expect(any(e is m for m in h.made), n, 'is not what the handler made:', e)
                same((e.id, e.name, e.offset, e.payloadOffset, e.size), (n.id, h.name(), n.offset, n.start, n.size), n)
                want = n.payload
                if how != 'class' and kind == 'uint':
                    if n.size > 8:
                        continue
                    want = int.from_bytes(n.payload, 'big')
                same(ref.canon(e.value), ref.canon(want), 'value of %r' % n)
                same(bytes(e.getRaw()), data[n.offset:n.end], 'raw bytes of %r' % n)
            if n.kids is not None:
                compare(e, n.kids)
    compare(doc, nodes)
    for stream, offset, size, start, eid, s in h.calls:
        n = unknown.get(offset)
        expect(n is not None, 'the handler was called for offset', offset)
        expect(stream is doc.stream and s is sch, 'stream or schema given to the handler', stream, s)
        same((offset, size, start, eid), (n.offset, n.size, n.start, n.id), 'arguments of the handler')
    same({c[1] for c in h.calls}, set(unknown), 'offsets for which the handler was called')
    # indexing, flattening, printing and conversion see them, too
    for e in util.flatiter(doc):
        if e.offset in unknown:
            expect(any(e is m for m in h.made), 'flatiter gives', e)
    x = util.toXml(doc) if kind != 'uint' or how == 'class' else None
    if x is not None:
        same([y.tag for y in x.iter()][1:], [h.name() if n.t == 'unknown' else n.name for n in ref.flat(nodes)], 'XML tags')
        out = io.StringIO()
        util.pprint(doc, out=out)
        for n in unknown.values():
            expect('%s (ID 0x%X)' % (h.name(), n.id) in out.getvalue(), 'not printed:', n)
    # the others have theirs
    check_tree(other, nodes)
    k = len(h.calls)
    check_tree(schema(spec, fresh=True).load(io.BytesIO(data), headers=True), nodes)
    expect(Schema.UNKNOWN is UnknownElement, 'the default handler changed')
    same(len(h.calls), k, 'calls of the handler of another schema')
    # what the handler refuses is refused
    if fail and unknown and not any(n.unk for n in ref.flat(nodes)):
        class Refused(Exception):
            pass

        def refuse(*a, **kw):
            raise Refused
        sch.UNKNOWN = refuse
        must_raise(lambda: list(util.flatiter(sch.load(io.BytesIO(data), headers=True))), 'an element the handler refused',
                   Refused)
    note('%s making %s' % (how, kind))
    note('of a subclass of Schema', sub)
    note.nt(unknown)


@st.composite
def documents(draw, unk=True):
    lit = draw(gen.specs(min_masters=1))
    spec = ref.Spec(lit)
    trees = gen.draw_trees(draw, spec, max_nodes=14, skip=('EBML',), text=gen.XUNI)
    for _ in range(draw(st.integers(0, 3))):
        new = ('l', draw(gen.unknown_ids(spec)), draw(gen.BIN), None)
        where = draw(st.sampled_from([trees] + [t[2] for t in walk(trees) if t[0] == 'm']))
        where.insert(draw(st.integers(0, len(where))), new)
    if unk and draw(st.integers(0, 2)) == 0:
        trees = admissible(flagged(draw, trees, 8), spec)
    if 'EBML' in spec.els and draw(st.booleans()):
        trees = [gen.header_tree(draw, spec)] + trees
        trees = admissible(trees, spec)
    return lit, trees


# ---------------------------------------------------------------- masters

def masters(case, note):
    """A handler that makes masters of an ID the schema lacks: as if the schema had it."""
    lit, trees, name, how = case
    spec = ref.Spec(lit)
    x = spec.els[name]
    data, nodes = ref.write_doc(trees, spec)
    mine = {n.offset: n for n in ref.flat(nodes) if n.id == x['id']}
    own = [k for k in spec.kids.get(name, []) if k != name]
    less = dict(lit, els=[e for e in lit['els'] if e['name'] != name],
                kids={k: [y for y in v if y != name] for k, v in lit['kids'].items() if k != name})
    less['kids'][None] = less['kids'].get(None, []) + [k for k in own if k not in less['kids'].get(None, [])]
    spec2 = ref.Spec(less)
    sch = schema(spec2, fresh=True)
    calls, made = [], []
    valid = {e['id']: None for e in spec.els.values() if spec.valid_child(x['id'], e['id'])}
    late = type(name, (MasterElement,), dict(id=x['id'], name=name, schema=sch, children=valid, multiple=x['multiple'], __slots__=()))

    def handler(stream, offset, size, payloadOffset, eid=None, schema=None):
        calls.append((stream, offset, size, payloadOffset, eid, schema))
        if eid != x['id']:
            return UnknownElement(stream, offset, size, payloadOffset, eid=eid, schema=schema)
        e = late(stream, offset, size, payloadOffset)
        made.append(e)
        return e
    sch.UNKNOWN = handler
    doc = sch.load(io.BytesIO(data), headers=True)
    ops = [lambda: check_tree(doc, nodes), lambda: same(plain_tree(doc.dump()), ref.dump(nodes), 'dump'),
           lambda: same([(e.id, e.offset, e.size) for e in util.flatiter(doc)],
                        [(n.id, n.offset, n.size) for n in ref.flat(nodes)], 'flatiter'),
           lambda: same([y.tag for y in util.toXml(doc).iter()][1:], [n.name for n in ref.flat(nodes)], 'XML tags'),
           lambda: same(len(doc), len(nodes), 'len'), lambda: util.pprint(doc, out=io.StringIO())]
    for i in how:
        ops[i]()
    for stream, offset, size, start, eid, s in calls:
        n = mine.get(offset)
        if eid != x['id']:
            continue
        expect(n is not None, 'the handler was called for offset', offset)
        expect(stream is doc.stream and s is sch, 'stream or schema given to the handler', stream, s)
        same((offset, size, start), (n.offset, None if n.unk else n.size, n.start), 'arguments of the handler')
    same({c[1] for c in calls if c[4] == x['id']}, set(mine), 'offsets for which the handler was called')
    # Other handlers are given the same, and elements that are no masters cannot have unknown sizes
    def outer(ns):
        for n in ns:
            yield n
            if n.kids is not None and n.id != x['id']:
                for k in outer(n.kids):
                    yield k
    unk = [n for n in outer(nodes) if n.unk]
    for plain in (UnknownElement, lambda *a, eid=None, schema=None: UnknownElement(*a, eid=eid, schema=schema)):
        sch.UNKNOWN = plain
        if unk:
            must_raise(lambda: list(util.flatiter(sch.load(io.BytesIO(data), headers=True))),
                       'an element of unknown size that is no master')
        else:
            same([e.offset for e in util.flatiter(sch.load(io.BytesIO(data), headers=True))], [n.offset for n in outer(nodes)],
                 'elements given the default handler')
    note('of unknown size', any(n.unk for n in mine.values()))
    note.nt(mine)


@st.composite
def with_masters(draw):
    if draw(st.integers(0, 3)) == 0:
        lit, trees = draw(streams())
    else:
        lit = draw(gen.specs(min_masters=2))
        spec = ref.Spec(lit)
        trees = gen.draw_trees(draw, spec, max_nodes=16, skip=('EBML',), text=gen.XUNI, unknowns=draw(st.booleans()))
    used = sorted({t[1] for t in walk(trees) if t[0] == 'm'} - {0x1A45DFA3})
    ms = [e for e in lit['els'] if e['t'] == 'master' and e['name'] != 'EBML']
    x = draw(st.sampled_from([e for e in ms if e['id'] in used] or ms))

    def only(ts):
        return [t[:2] + (only(t[2]), t[3], t[1] == x['id'] and draw(st.integers(0, 3)) > 0) if t[0] == 'm' else t for t in ts]
    trees = admissible(only(trees), ref.Spec(lit))
    return lit, trees, x['name'], draw(st.lists(st.integers(0, 5), min_size=1, max_size=4)) + [0]


# ---------------------------------------------------------------- codecs

def codec_class(cname, form):
    """A codec of the user's own."""
    class Mine(xml_codecs.BinaryCodec):
        """ A codec (codecs are to have descriptions, which are shown in the help of the tools). """
        NAME = cname
        log = []
        decoded = []

        def __init__(self, suffix='', **kwargs):
            self.suffix = suffix

        def encode(self, data, stream=None, indent='', offset=0, **kwargs):
            Mine.log.append((bytes(data), offset, self.suffix))
            text = [' '.join('%o' % b for b in data), '-'.join('%d' % b for b in data), data.hex()[::-1]][form]
            if self.suffix:
                text += '#' + self.suffix
            if stream is None:
                return text
            return stream.write(text)

        @classmethod
        def decode(cls, data, stream=None):
            text = (data or '').partition('#')[0].strip()
            b = [lambda: bytes(int(x, 8) for x in text.split()), lambda: bytes(int(x) for x in text.split('-') if x),
                 lambda: bytes.fromhex(text[::-1])][form]()
            cls.decoded.append(b)
            if stream is not None:
                return stream.write(b)
            return b
    return Mine


def codecs(case, note):
    lit, trees, cname, form, how, suffix, mix = case
    spec = ref.Spec(lit)
    sch = schema(spec)
    data, nodes = ref.write_doc(trees, spec)
    skip_dates(nodes)
    flat = list(ref.flat(nodes))
    binary = [n for n in flat if n.t in ('bin', 'unknown')]
    Mine = codec_class(cname, form)
    names = list(BINARY_CODECS)
    doc = sch.load(io.BytesIO(data), headers=True)
    BINARY_CODECS[cname] = Mine
    try:
        given = cname if how != 'instance' else Mine(suffix=suffix)
        suffix = suffix if how == 'instance' else ''
        if how == 'cli':
            with Scratch() as s:
                put(s('d'), data)
                put(s('s.xml'), spec.xml().encode('utf-8'))
                code, out = run('ebml2xml', [s('d'), s('s.xml'), '-e', cname, '-m'], s.top)
                same(code, 0, 'exit status of ebml2xml')
                x = ET.fromstring(out.decode('utf-8'))
                x.tag = sch.document.__name__       # (the schema is named differently here)
        else:
            x = util.toXml(doc, binary_codec=given)
        same([(c[0], c[2]) for c in Mine.log], [(n.payload, suffix) for n in binary], 'calls of the codec')
        same([c[1] for c in Mine.log], [n.offset for n in binary], 'offsets given to the codec')
        els = list(x.iter())[1:]
        same(len(els), len(flat), 'XML elements')
        for e, n in zip(els, flat):
            if n in binary:
                same(e.get('encoding'), cname, 'encoding of %r' % n)
                same((e.text or '').strip(), Mine(suffix=suffix).encode(n.payload).strip(), 'text of %r' % n)
            elif n.kids is None and n.t != 'void':
                same((e.get('encoding'), e.get('value')), (None, str(n.value())), n)
        # each element is decoded as its own attribute says
        k = 0
        for e, n in zip(els, flat):
            if n in binary:
                k += 1
                if mix and k % 2:
                    e.set('encoding', 'hex')
                    e.text = n.payload.hex()
                elif mix and k % 3 == 0:
                    e.set('encoding', 'base64')
                    e.text = xml_codecs.Base64Codec().encode(n.payload)
        x = ET.fromstring(ET.tostring(x, encoding='utf-8'))
        out = io.BytesIO()
        util.xml2ebml(x, out, sch, headers=False)
        back = list(util.flatiter(sch.load(io.BytesIO(out.getvalue()), headers=True)))
        same([e.id for e in back], [n.id for n in flat], 'elements after conversion')
        for e, n in zip(back, flat):
            if n.kids is None:
                same(ref.canon(e.value), ref.canon(n.value()), 'value of %r after conversion' % n)
        want = [n.payload for i, n in enumerate(binary, 1) if not mix or i % 2 == 0 and i % 3]
        same(Mine.decoded, want, 'decoded by the codec')
        # printing
        del Mine.log[:]
        o = io.StringIO()
        util.pprint(doc, out=o, binary_codec=given if how != 'cli' else Mine())
        suffix = suffix if how == 'instance' else ''
        same({c[2] for c in Mine.log} - {suffix}, set(), 'other instances of the codec used when printing')
        expect({c[1] for c in Mine.log} <= {n.offset for n in flat}, 'offsets given to the codec when printing')
        shown = [c[0] for c in Mine.log]
        expect(shown == [n.payload for n in flat if n.t in ('bin', 'unknown')] or
               shown == [n.payload if n.t != 'void' else b'' for n in flat if n.t in ('bin', 'unknown', 'void')],
               'calls of the codec when printing', shown)
        for n in binary:
            expect('<%s>' % cname in o.getvalue() and Mine(suffix=suffix).encode(n.payload) in o.getvalue(), 'not printed:', n)
        # Void elements, and a codec for them only
        voids = [n for n in flat if n.t == 'void']
        if voids and how != 'cli':
            x = util.toXml(doc, void_codec=given, binary_codec='hex')
            for e, n in zip(list(x.iter())[1:], flat):
                if n.t == 'void':
                    same(e.get('encoding'), cname, 'encoding of %r' % n)
                elif n in binary:
                    same(e.get('encoding'), 'hex', 'encoding of %r' % n)
        x = util.toXml(doc, binary_codec=Mine())
    finally:
        BINARY_CODECS.pop(cname)
    same(list(BINARY_CODECS), names, 'codecs')
    # A codec that is not registered (any longer) cannot be used by name
    must_raise(lambda: util.toXml(doc, binary_codec=cname), 'the name of a codec that is not registered')
    if binary:
        must_raise(lambda: util.xml2ebml(x, io.BytesIO(), sch, headers=False), 'XML of a codec that is not registered')
    note(how)
    note('mixed', mix)
    note.nt(binary)


SUBS = [
    Sub('handlers', handlers, documents().flatmap(lambda d: st.tuples(
        st.just(d[0]), st.just(d[1]), st.sampled_from(['class', 'function', 'callable', 'method']),
        st.sampled_from(['unknown', 'precached', 'uint', 'bin']), st.booleans(), st.booleans())),
        quick=1200, thorough=30000, shards=4, rule='random documents and handlers of unknown IDs'),
    Sub('masters', masters, with_masters(), quick=900, thorough=20000, shards=3,
        rule='random documents, of which the masters of one ID, of known and unknown sizes, are made by a handler'),
    Sub('codecs', codecs, documents(unk=False).flatmap(lambda d: st.tuples(
        st.just(d[0]), st.just(d[1]), st.sampled_from(['mine', 'octal', 'x-1', 'base8']), st.integers(0, 2),
        st.sampled_from(['name', 'instance', 'instance', 'cli']), st.sampled_from(['', 'abc', 'z']), st.booleans())),
        quick=900, thorough=25000, shards=4, rule="random documents and codecs of the user's own"),
    scale.sub(scale.handler, scale.SMALL),
]
ASSUMPTIONS = ['handlers take the arguments of UnknownElement', 'names of codecs are lower case, as documented']
