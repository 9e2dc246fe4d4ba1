"""C20: flat iteration (any start, depth limit, several iterators interleaved with other reads) vs the reference order, and
the pretty-print of any element read back line by line vs the reference layout; non-trivial = at least four entries, or a
depth limit that matters, or binary contents printed."""
import io
import re

from hypothesis import strategies as st

from .. import gen, ref, scale
from ..lib import check_element, check_tree, schema
from ..run import Sub, expect, same
from .c06 import Opened, visible
from .c08 import documents, streams
from ebmlite import core, util, xml_codecs


def below(nodes, limit=None, level=1):
    """Nodes in file order, at most `limit` levels down."""
    for n in nodes:
        if limit is None or level <= limit:
            yield n
            yield from below(n.kids or (), limit, level + 1)


def starts(doc, nodes):
    """Every place to start at: (element, nodes of its children, its node or None)"""
    out = [(doc, nodes, None)]

    def walk(els, ns):
        for e, n in zip(els, ns):
            out.append((e, n.kids or [], n))
            if n.kids is not None:
                walk(e, n.kids)
    walk(doc, nodes)
    return out


# ---------------------------------------------------------------- flatiter


def flat(case, note):
    (lit, trees), source, starting, limits, ops = case
    spec = ref.Spec(lit)
    data, nodes = ref.write_doc(trees, spec)
    o = Opened(schema(spec), data, source)
    with o as doc:
        nodes = visible(nodes, o.shows_header)
        places = starts(doc, nodes)
        its = []
        for k, limit in zip(starting, limits):
            e, kids, n = places[k % len(places)]
            want = list(below(kids, limit if limit is not None and limit >= 0 else None))
            kw = [dict(), dict(depth=limit)][limit is not None]
            its.append([util.flatiter(e, **kw), want, 0])
            note('limit ' + ('none' if limit is None or limit < 0 else str(min(limit, 4))))
            note.nt(len(want) > 3 or (limit is not None and limit >= 0 and len(want) < len(list(below(kids)))))
        for i, what in ops:
            it = its[i % len(its)]
            if what == 'next':
                step(it)
            elif what == 'gc':
                doc.gc(recurse=bool(i & 1))
            elif what == 'value':
                e, kids, n = places[i % len(places)]
                e.value
            elif what == 'print':
                util.pprint(places[i % len(places)][0], out=io.StringIO())
            elif what == 'seek':
                doc.stream.seek(i % (len(data) + 1))
        for it in its:
            while step(it):
                pass
        check_tree(iter(doc), nodes, where='afterwards: ')


def step(it):
    e = next(it[0], None)
    want = it[1][it[2]] if it[2] < len(it[1]) else None
    if want is None:
        expect(e is None, 'flatiter goes on with', e, 'after', it[2], 'elements')
        return False
    expect(e is not None, 'flatiter ends after', it[2], 'of', len(it[1]), 'elements')
    check_element(e, want)
    it[2] += 1
    return True


# ---------------------------------------------------------------- pprint


class Plain(xml_codecs.BinaryCodec):
    """A codec of the user's."""
    NAME = 'decimal'

    def encode(self, data, stream=None, indent='', offset=0, **kwargs):
        s = ''.join('\n%s%d' % (indent, b) for b in data)
        return s if stream is None else stream.write(s)

    @classmethod
    def decode(cls, data, stream=None):
        b = bytes(int(x) for x in data.split())
        return b if stream is None else stream.write(b)


def codec(c):
    if c is None or c[0] == 'name':
        return None if c is None else c[1]
    if c[1] == 'decimal':
        return Plain()
    return xml_codecs.BINARY_CODECS[c[1]](**c[2])


def name_of(c):
    return 'ignore' if c is None else c[1]


class Out:
    """The least an output must have."""
    def __init__(self):
        self.parts = []

    def write(self, s):
        self.parts.append(s)
        return len(s)

    def flush(self):
        pass

    def getvalue(self):
        return ''.join(self.parts)


ENTRY = re.compile(r'^ *\d+ +\d+ .*\((ID 0x[0-9A-F]+\)|Document, type .*\)$)')


def printed(case, note):
    (lit, trees), source, k, values, indent, bc, vc, plain_out, twice = case
    spec = ref.Spec(lit)
    data, nodes = ref.write_doc(trees, spec)
    o = Opened(schema(spec), data, source)
    with o as doc:
        nodes = visible(nodes, o.shows_header)
        places = starts(doc, nodes)
        e, kids, n = places[k % len(places)]
        kw = {}
        if indent is not None:
            kw['indent'] = indent
        if values is not None:
            kw['values'] = values
        for name, c in (('binary_codec', bc), ('void_codec', vc)):
            if c is not None:
                kw[name] = codec(c)
        for _ in range(1 + twice):
            out = Out() if plain_out else io.StringIO()
            util.pprint(e, out=out, **kw)
            text = out.getvalue()
            compare(text, e, kids, n, values is not False, '  ' if indent is None else indent, name_of(bc), name_of(vc), bc,
                    note)
        check_tree(iter(doc), nodes, where='afterwards: ')
    note('start ' + ('document' if n is None else n.t))
    note.nt(text.count('\n') > 5)


def compare(text, e, kids, n, values, indent, bc, vc, bcase, note):
    expect(text.endswith('\n'), 'text ends with', text[-20:])
    lines = text[:-1].split('\n')
    same(len(lines) > 2, True, 'more than two lines in %r' % text)
    head = lines[0].split()
    same(head, ['Offset', 'Size', 'Element', '(ID):', 'Value'] if values else ['Offset', 'Size', 'Element', '(ID)'], 'header')
    same(set(lines[1]), {'=', ' '}, 'second line')
    pos = [2]

    def entry(depth, n, kids):
        where = 'entry %d, %r: ' % (pos[0] - 2, n)
        expect(pos[0] < len(lines), where, 'missing from', text)
        line = lines[pos[0]]
        pos[0] += 1
        tab = indent * depth
        if n is None:
            same(line, '%6s %6s %s %s (Document, type %s)' % (e.offset, e.size, tab, e.name, e.type), where + 'line')
        else:
            start = '%6d %6d %s %s (ID 0x%X): ' % (n.offset, n.size, tab, n.name, n.id)
            same(line[:len(start)], start, where + 'line')
            rest = line[len(start):]
            if n.kids is not None:
                same(rest, '(master) %d subelements' % len(kids), where + 'children')
            else:
                dt = '(%s)' % ref.DTYPES[n.t].__name__
                same(rest[:len(dt)], dt, where + 'type')
                rest = rest[len(dt):]
                more = []
                while pos[0] < len(lines) and not ENTRY.match(lines[pos[0]]):
                    more.append(lines[pos[0]])
                    pos[0] += 1
                if n.t in ('bin', 'void', 'unknown'):
                    binary(where, n, rest, more, tab)
                else:
                    same(more, [], where + 'more lines')
                    same(rest, ' %r' % (n.value(),) if values else '', where + 'value')
        for c in kids:
            entry(depth + 1, c, c.kids or [])

    def binary(where, n, rest, more, tab):
        for row in more:
            expect(not row or row.startswith(tab), where, 'row', row, 'is not indented')
        block = '\n'.join([rest] + [row[len(tab):] for row in more])
        if not values:
            same(block, '', where + 'contents')
            return
        if n.t == 'void':
            # the contents of Void elements are ignored
            if vc == bc == 'ignore':
                same(block, '', where + 'contents of Void')
            elif vc != 'ignore':
                same(block.strip(), '<%s>' % vc, where + 'contents of Void')
            else:
                expect(block.strip() in ('', '<%s>' % bc), where, 'contents of Void', block)
            return
        if bc == 'ignore':
            same(block, '', where + 'contents')
            return
        tag = ' <%s>' % bc
        same(block[:len(tag)], tag, where + 'codec')
        body = block[len(tag):]
        got = Plain.decode(body) if bc == 'decimal' else xml_codecs.BINARY_CODECS[bc].decode(body)
        same(bytes(got), bytes(n.payload), where + 'contents decoded')
        note('binary contents')
        note.nt(len(n.payload) > 0)
        if bc == 'hex' and bcase[0] == 'name':
            # rows are labelled with the offset in the document
            at = [int(x) for x in re.findall(r'\[(\d+)\]', body)]
            same(at, [n.offset + i for i in range(0, len(n.payload), 32)], where + 'offsets of the rows')
    entry(0, n, kids)
    same(lines[pos[0]:], [], 'lines after the last entry')


SRC = st.sampled_from(['loads', 'bytesio', 'path', 'stream', 'loads', 'threaded'])
DOCS = st.one_of(gen.docs(max_nodes=24), gen.docs(max_nodes=24), gen.docs(max_nodes=50, max_kids=9), documents(),
                 streams().filter(lambda d: gen.count(d[1]) < 120), gen.deep_docs(25))
BOPT = st.fixed_dictionaries({}, optional=dict(cols=st.one_of(st.none(), st.integers(1, 90)), offsets=st.booleans(),
                                               width=st.integers(1, 9)))
CODEC = st.one_of(st.none(), st.tuples(st.just('name'), st.sampled_from(['base64', 'hex', 'ignore'])),
                  st.tuples(st.just('instance'), st.sampled_from(['base64', 'hex', 'ignore', 'decimal', 'hex']), BOPT))
LIMIT = st.one_of(st.none(), st.integers(-3, 6), st.integers(-3, 6), st.integers(-10**9, 10**9))
SUBS = [
    Sub('flatiter', flat, st.tuples(DOCS, SRC, st.lists(st.one_of(st.just(0), st.integers(0, 60)), min_size=1, max_size=4),
                                    st.lists(LIMIT, min_size=4, max_size=4),
                                    st.lists(st.tuples(st.integers(0, 400), st.sampled_from(
                                        ['next', 'next', 'next', 'gc', 'value', 'print', 'seek'])), max_size=25)),
        quick=1600, thorough=40000, shards=4, rule='random documents, starts, depth limits and interleavings'),
    Sub('pprint', printed, st.tuples(DOCS, SRC, st.one_of(st.just(0), st.integers(0, 60)), st.sampled_from([None, True, False]),
                                     st.one_of(st.none(), st.none(), st.text(st.sampled_from(' \t.|-'), max_size=5)),
                                     CODEC, CODEC, st.booleans(), st.booleans()),
        quick=2400, thorough=60000, shards=5, rule='random documents, starts and options'),
    scale.sub(scale.flat, scale.SMALL),
    Sub('scale-print', scale.printed, cases=lambda: list(scale.SMALL), shards=2, rule='enumerated: deep, wide, long documents'),
]
ASSUMPTIONS = ['the layout of a line is the documented "Offset Size Element (ID): Value"',
               'hex rows are labelled from the offset of the element, as pprint() passes it']
