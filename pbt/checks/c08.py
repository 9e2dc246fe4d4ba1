"""C08: random documents in which a random set of masters is written with unknown size, compared with the layout they
were written from and with the same document written with definite sizes; masters for which the statement's condition
does not hold are written with a definite size; non-trivial = at least one unknown-size master with a child."""
import io

from hypothesis import strategies as st

from .. import gen, ref, scale
from ..lib import check_element, check_tree, content, schema
from ..run import Sub, same
from .c06 import Opened, visible


def admissible(trees, spec):
    """Clear the unknown flag of masters that would not end where they should: each child must be a valid child and
    the element after its end (in the whole document) must not be."""
    order = []

    def number(ts, depth):
        out = []
        for t in ts:
            i = len(order)
            order.append(None)
            if t[0] == 'm':
                kids = number(t[2], depth + 1)
                order[i] = (t[1], len(order))
                out.append((i, t, kids))
            else:
                order[i] = (t[1], len(order))
                out.append((i, t, None))
        return out
    tree = number(trees, 0)

    def fix(items):
        out = []
        for i, t, kids in items:
            if kids is None:
                out.append(t)
                continue
            unk = t[4]
            if unk:
                nxt = order[i][1]
                if any(not spec.valid_child(t[1], k[1][1]) for k in kids) or \
                        (nxt < len(order) and spec.valid_child(t[1], order[nxt][0])):
                    unk = False
            out.append(('m', t[1], fix(kids), t[3], unk))
        return out
    return fix(tree)


def flagged(draw, trees, p):
    out = []
    for t in trees:
        if t[0] == 'm':
            t = ('m', t[1], flagged(draw, t[2], p), t[3], draw(st.integers(0, 9)) < p)
        out.append(t)
    return out


@st.composite
def documents(draw, **kw):
    lit = draw(gen.specs(min_masters=2, header=kw.pop('header', False), max_els=9, **kw))
    spec = ref.Spec(lit)
    trees = gen.draw_trees(draw, spec, anywhere=draw(st.booleans()), unknowns=draw(st.booleans()), max_nodes=30,
                           skip=('EBML',))
    trees = admissible(flagged(draw, trees, draw(st.sampled_from([4, 9, 10]))), spec)
    if 'EBML' in spec.els:
        trees = [gen.header_tree(draw, spec)] + trees
        trees = admissible(trees, spec)
    return (lit, trees)


@st.composite
def streams(draw):
    """Segment (unknown) of Clusters (unknown) of Blocks, recursive levels, globals in between: the shape of live
    recordings."""
    levels = draw(st.integers(1, 5))
    els = [dict(name='L%d' % i, id=0x81 + i, t='master', multiple=True) for i in range(levels)]
    els += [dict(name='Uint', id=0x4081, t='uint', multiple=True), dict(name='Bin', id=0x4082, t='bin', multiple=True),
            dict(name='Other', id=0x4083, t='str', multiple=True),
            dict(name='Void', id=0xEC, t='void', glob=draw(st.booleans()), multiple=True),
            dict(name='CRC', id=0xBF, t='bin', glob=True, multiple=True),
            dict(name='Sig', id=0x1B538667, t='master', glob=draw(st.booleans()), multiple=True)]
    kids = {None: ['L0', 'Other', 'Void', 'CRC', 'Sig'], 'Sig': ['Uint']}
    for i in range(levels):
        kids['L%d' % i] = (['L%d' % (i + 1)] if i + 1 < levels else []) + draw(
            st.sampled_from([['Uint', 'Bin'], ['Uint'], ['Bin'], []]))
    if not any('Bin' in k for k in kids.values()):
        kids[None].append('Bin')
    lit = dict(els=els, kids=kids)
    spec = ref.Spec(lit)
    def level(i, budget):
        out = []
        for _ in range(draw(st.integers(0, 4))):
            budget[0] -= 1
            own = [k for k in spec.kids['L%d' % i] if not k.startswith('L')]
            if i + 1 < levels and (not own or draw(st.integers(0, 2))) and budget[0] > 0:
                out.append(level(i + 1, budget))
            elif own:
                e = spec.els[draw(st.sampled_from(own))]
                out.append(('l', e['id'], draw(gen.payload(e['t'])), draw(gen.WIDTHS)))
        return ('m', 0x81 + i, out, draw(gen.WIDTHS), False)
    if draw(st.integers(0, 3)):
        trees, budget = [], [30]
        for _ in range(draw(st.integers(1, 3))):
            trees.append(level(0, budget))
            if draw(st.integers(0, 3)) == 0:
                trees.append(('l', 0x4083, b'other', None))
    else:
        trees = gen.draw_trees(draw, spec, anywhere=draw(st.integers(0, 3)) == 0, unknowns=draw(st.booleans()),
                               max_nodes=40, max_depth=6)
    # global elements at any place
    def sprinkle(ts):
        out = []
        for t in ts:
            if draw(st.integers(0, 4)) == 0:
                out.append(('l', draw(st.sampled_from([0xBF, 0xEC])), draw(gen.BIN), draw(gen.WIDTHS)))
            out.append(('m', t[1], sprinkle(t[2]), t[3], t[4]) if t[0] == 'm' else t)
        return out
    if draw(st.booleans()):
        trees = sprinkle(trees)
    return (lit, admissible(flagged(draw, trees, draw(st.sampled_from([5, 10]))), spec))


def sized(trees):
    return [('m', t[1], sized(t[2]), t[3], False) if t[0] == 'm' else t for t in trees]


def check(case, note):
    (lit, trees), source, mode = case
    spec = ref.Spec(lit)
    sch = schema(spec)
    data, nodes = ref.write_doc(trees, spec)
    flat = list(ref.flat(nodes))
    unk = [n for n in flat if n.unk]
    note('unknown-size masters: %s' % min(len(unk), 4))
    note('nested in each other' if any(n.unk and n.parent and n.parent.unk for n in flat) else 'not nested')
    if any(n.unk and any(k.id in spec.globals for k in n.kids) for n in flat):
        note('with global child')
    note.nt(any(n.kids for n in unk))
    if ref.value_tree(ref.read_doc(data, spec)) != ref.value_tree(nodes):
        raise RuntimeError('reference reader disagrees with the writer')
    o = Opened(sch, data, source)
    with o as doc:
        vis = visible(nodes, o.shows_header)
        if mode == 0:
            check_tree(iter(doc), vis)
        elif mode == 1:
            # contents before sizes
            def crawl(els, ns):
                els = list(els)
                same([e.id for e in els], [n.id for n in ns], 'IDs')
                for e, n in zip(els, ns):
                    if n.kids is not None:
                        crawl(e.value, n.kids)
                        same(len(e), len(n.kids), 'len')
                    check_element(e, n)
            crawl(doc, vis)
        else:
            def crawl(els, ns):
                els = list(els)
                for e, n in zip(els, ns):
                    if n.kids is not None:
                        same(len(e), len(n.kids), 'len of %r' % n)
                        same(bytes(e.getRaw()), data[n.offset:n.end], 'raw bytes of %r' % n)
                        same(bytes(e.getRawValue()), data[n.start:n.end], 'raw value of %r' % n)
                        crawl(iter(e), n.kids)
                    check_element(e, n)
                same([e.id for e in els], [n.id for n in ns], 'IDs')
            crawl(doc, vis)
        got = content(doc)
    data2, nodes2 = ref.write_doc(sized(trees), spec)
    doc2 = sch.load(io.BytesIO(data2), headers=o.shows_header)
    same(got, content(doc2), 'content of unknown-size document and of sized document')


def series(case, note):
    """Long recordings: n unknown-size clusters after each other, in an unknown-size or definite parent, or roots."""
    n, parent, inner = case
    note.nt()
    lit = dict(els=[dict(name='Seg', id=0x81, t='master'), dict(name='Clu', id=0x82, t='master', multiple=True),
                    dict(name='Sub', id=0x84, t='master', multiple=True),
                    dict(name='U', id=0x83, t='uint', multiple=True)],
               kids={None: ['Seg', 'Clu'], 'Seg': ['Clu'], 'Clu': ['U', 'Sub'], 'Sub': ['U']})
    spec = ref.Spec(lit)
    clus = [('m', 0x82, [('l', 0x83, ref.enc_uint(i % 1000), None)] + (
        [('m', 0x84, [('l', 0x83, b'\x05', None)], None, True)] if inner else []), None, True) for i in range(n)]
    trees = clus if parent is None else [('m', 0x81, clus, None, parent)]
    data, nodes = ref.write_doc(trees, spec)
    doc = schema(spec).loads(data)
    check_tree(iter(doc), nodes)


SRC = st.sampled_from(['loads', 'bytesio', 'stream', 'bytesio', 'path', 'file'])
MODE = st.integers(0, 2)
SUBS = [
    Sub('documents', check, st.tuples(documents(), SRC, MODE), quick=1600, thorough=50000, shards=4,
        rule='random schemata and documents'),
    Sub('recordings', check, st.tuples(streams(), SRC, MODE), quick=1200, thorough=40000, shards=4,
        rule='levels of unknown-size masters with globals in between'),
    Sub('with-header', check, st.tuples(documents(header=True), SRC, MODE), quick=300, thorough=10000, shards=1,
        rule='with EBML header'),
    Sub('series', series, cases=lambda: [(n, p, i) for n in (10, 400, 2500) for p in (None, False, True)
                                         for i in (0, 1)], shards=2, rule='enumerated: long series of clusters'),
    scale.sub(scale.unsized, [s for s in scale.SHAPES if s[0] in ('deep', 'wide', 'bush')]),
]
ASSUMPTIONS = ['the end of the parent alone does not end an unknown-size element (documented); see the statement']
