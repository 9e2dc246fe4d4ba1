"""Hypothesis strategies.  All of them yield plain literals (see ref.py)."""
import struct

from hypothesis import strategies as st

from . import ref

# ---------------------------------------------------------------- scalars


def edges(bits, signed=False):
    """Integers of up to `bits` bits, with edges at every bit position."""
    lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
    near = st.builds(lambda k, d, s: s * (1 << k) + d, st.integers(0, bits), st.integers(-3, 3),
                     st.sampled_from([1, -1] if signed else [1])).map(lambda v: min(hi, max(lo, v)))
    sized = st.integers(1, bits).flatmap(lambda k: st.integers(max(lo, -(1 << k)), min(hi, 1 << k)) if signed
                                         else st.integers(0, (1 << k) - 1))
    return st.one_of(st.integers(lo, hi), near, sized, st.integers(max(lo, -300), 300))


U64, I64 = edges(64), edges(64, True)
SIZES = st.one_of(edges(56).map(lambda v: min(v, (1 << 56) - 2)),
                  st.builds(lambda k, d: max(0, min((1 << 56) - 2, (1 << 7 * k) + d)), st.integers(0, 8),
                            st.integers(-4, 4)))


def bits(f):
    return struct.unpack('>Q', struct.pack('>d', f))[0]


def unbits(b):
    return struct.unpack('>d', struct.pack('>Q', b))[0]


NEG0 = bits(-0.0)
F64 = st.one_of(st.floats().map(bits), st.integers(0, 2**64 - 1),
                st.sampled_from([0.0, 1.0, -1.0, float('inf'), float('-inf'), float('nan'), 5e-324, 1.5, 3.14,
                                 2.0**-126, 2.0**127, 1e300, -1e-300]).map(bits),
                st.integers(-1000, 1000).map(lambda i: bits(float(i))))
F64 = F64.map(lambda b: 0 if b == NEG0 else b)      # -0.0 == 0 is documented to be written as 0
DATE_US_MIN, DATE_US_MAX = -(2**63) // 1000 + 1, (2**63 - 1) // 1000
DATE_US = st.one_of(st.integers(DATE_US_MIN, DATE_US_MAX), edges(53, True), st.integers(-10**6 * 3, 10**6 * 3),
                    st.sampled_from([0, 1, -1, 999999, -999999, 10**6, -10**6, 86400 * 10**6, -86400 * 10**6,
                                     DATE_US_MIN, DATE_US_MAX]))



def bulky(s):
    """Values of s (text or bytes), a few of them repeated to several hundred or thousand characters."""
    def grow(x):
        v, k = x
        one = v or (b'b' if isinstance(v, bytes) else 'b')
        return v if k < 97 else one * (BULK[k - 97] // len(one) + 1)
    return st.tuples(s, st.integers(0, 99)).map(grow)


BULK = (400, 5000, 70000)
PRINTABLE = st.characters(min_codepoint=32, max_codepoint=126)
ASCII = bulky(st.one_of(st.text(PRINTABLE, max_size=12), st.text(PRINTABLE, max_size=80),
                  st.sampled_from(['', ' ', '~', 'a' * 126, 'a' * 127, 'a' * 128, '<&>"\'', "??", '0', 'True'])))
# NUL ends text in EBML; surrogates cannot be encoded
UCHAR = st.characters(codec='utf-8', exclude_characters='\0')
UNI = bulky(st.one_of(st.text(UCHAR, max_size=12), st.text(st.sampled_from('aé€😀~ \n\t߿ࠀ\uffff\ufeff\ufffe\x85\u2028\u200b\u0301\xa0\x1c'), max_size=50),
                st.sampled_from(['', '\ufeff', '\ufeffa', 'a\ufeff', '\x85', '\u2028a\u2029', '\x0b\x0c', '\x1f', 'é' * 63, 'é' * 64, '€' * 42, '😀' * 32, '\n', '\t x \r\n'])))
# characters that XML 1.0 can carry
XCHAR = st.one_of(st.characters(codec='utf-8', min_codepoint=0x20, exclude_characters='\ufffe\uffff',
                                exclude_categories=('Cs',)), st.sampled_from('\n\t\r é€😀&<>"\''))
XUNI = bulky(st.one_of(st.text(XCHAR, max_size=12), st.sampled_from(['', '\ufeff', '\ufeffa', 'a\x85b', '\u2028', '\u200b\xa0', 'é' * 64, '&amp;', '&#233;', 'a\nb\tc', ' x '])))
BIN = bulky(st.one_of(st.binary(max_size=12), st.binary(max_size=90), st.sampled_from(
    [b'', b'\0', b'\xff', b'\x00\x01', b'a' * 126, b'a' * 127, b'a' * 128, b'\x1a\x45\xdf\xa3', b'\xec\x81\x00'])))


def value_lit(t, text=UNI):
    return dict(uint=U64, int=I64, float=F64, date=DATE_US, str=ASCII, uni=text, bin=BIN,
                void=st.just(b''))[t]


def live(t, lit):
    """The Python value of a value literal."""
    if t == 'float':
        return unbits(lit)
    if t == 'date':
        return ref.EPOCH + ref.timedelta(microseconds=lit)
    return lit


def payload(t, text=UNI):
    """Payload bytes that are a readable value of type t."""
    if t in ('uint', 'int'):
        return st.one_of(st.binary(max_size=8), st.binary(min_size=1, max_size=2),
                         U64.map(ref.enc_uint), I64.map(ref.enc_int))
    if t == 'float':
        f32 = st.one_of(st.floats(width=32), st.sampled_from([float('inf'), float('-inf'), 0.0, 1.0])) \
            .map(lambda f: struct.pack('>f', f))
        return st.one_of(f32, F64.map(lambda b: struct.pack('>Q', b)), st.just(b''))
    if t == 'date':
        return st.one_of(DATE_US.map(lambda u: struct.pack('>q', u * 1000)), I64.map(lambda n: struct.pack('>q', n)))
    if t == 'str':
        return st.one_of(ASCII.map(str.encode), st.tuples(ASCII, st.integers(0, 9)).map(
            lambda x: x[0].encode() + b'\0' * x[1]))
    if t == 'uni':
        return st.one_of(text.map(lambda s: s.encode('utf-8')), st.tuples(text, st.integers(0, 9)).map(
            lambda x: x[0].encode('utf-8') + b'\0' * x[1]))
    return BIN


# ---------------------------------------------------------------- schemata

LEAVES = ['int', 'uint', 'float', 'str', 'uni', 'date', 'bin']
CLASS_IDS = [st.one_of(st.sampled_from([a, a + 1, b - 1, b]), st.integers(a, b)) for a, b in ref.ID_RANGES]
IDS = st.one_of(*CLASS_IDS)
NAME0 = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_'
NAMES = st.one_of(st.sampled_from(['A', 'B', 'C', 'D', 'E', 'F', 'a', 'b', 'Seg', 'Data', 'Item', 'Name', 'value',
                                   'size', 'id', 'type', 'offset', 'name', '_x', 'VoidX', 'EBMLX', 'Document']),
                  st.builds(lambda a, b: a + b, st.sampled_from(NAME0),
                            st.text(st.sampled_from(NAME0 + '0123456789-.'), max_size=7)),
                  st.builds(lambda a, b: a + b, st.sampled_from(NAME0 + 'ÉßЖ日'), st.text(st.sampled_from('aZ_0é日ж'), max_size=4)))
RESERVED_IDS = {0x1A45DFA3, 0x4286, 0x42F7, 0x4282, 0x4287, 0x4285, 0xEC, 0xBF}
RESERVED_NAMES = {'EBML', 'EBMLVersion', 'EBMLReadVersion', 'DocType', 'DocTypeVersion', 'DocTypeReadVersion',
                  'Void', 'CRC', 'UnknownElement', 'TDocument'}


def header_els(draw, defaults=True):
    d = (lambda s: draw(s)) if defaults else (lambda s: None)
    els = [dict(name='EBML', id=0x1A45DFA3, t='master', mandatory=True)]
    opt = [('EBMLVersion', 0x4286, 'uint', st.sampled_from(['1', '2', '0', None, 'one'])),
           ('EBMLReadVersion', 0x42F7, 'uint', st.sampled_from(['1', None, '0'])),
           ('DocType', 0x4282, 'str', st.sampled_from(['test', 'matroska', 'x y', '3gpp', 'a:b', 'mide.ide', '\u00e9', '', ' a', 'b  '])),
           ('DocTypeVersion', 0x4287, 'uint', st.sampled_from(['1', '2', '300', None, '0', ' 7', 'x', '1.0', ''])),
           ('DocTypeReadVersion', 0x4285, 'uint', st.sampled_from(['1', '4', None, '0', '65536']))]
    keep = draw(st.sampled_from([0b11111, 0b11111, 0b01100, 0b00100, 0b01010]))
    names = []
    for i, (n, eid, t, dv) in enumerate(opt):
        if keep >> (4 - i) & 1:
            els.append(dict(name=n, id=eid, t=t, default=d(dv)))
            names.append(n)
    return els, names


@st.composite
def specs(draw, max_els=9, min_els=1, types=None, header=None, void=None, glob=True, length=False, precache=True,
          multiple=None, redeclare=True, min_masters=0, recursive=True):
    """Schema literals. header/void: True, False or None (either)."""
    leaves = types or LEAVES
    n = draw(st.integers(max(min_els, min_masters), max_els))
    els, kids = [], {None: []}
    kinds = ['master'] * min_masters + [
        draw(st.sampled_from(['master'] * 3 + leaves + ([] if types else ['uint', 'bin'])))
        for _ in range(n - min_masters)]
    ids = draw(st.lists(IDS.filter(lambda i: i not in RESERVED_IDS), min_size=n, max_size=n, unique=True))
    names = draw(st.lists(NAMES.filter(lambda s: s not in RESERVED_NAMES), min_size=n, max_size=n, unique=True))
    masters = []
    for i in range(n):
        t = kinds[i]
        e = dict(name=names[i], id=ids[i], t=t)
        e['multiple'] = draw(st.booleans()) if multiple is None else multiple
        e['mandatory'] = draw(st.booleans()) if i < 2 else False
        if precache and t != 'master' and draw(st.integers(0, 3)) == 0:
            e['precache'] = draw(st.booleans())
        if glob and draw(st.integers(0, 9)) == 0:
            e['glob'] = True
        if length and t not in ('master',) and draw(st.integers(0, 3)) == 0:
            e['length'] = {'uint': st.integers(1, 8), 'int': st.integers(1, 8), 'float': st.sampled_from([4, 8]),
                           'date': st.just(8)}.get(t, st.integers(1, 40))
            e['length'] = draw(e['length'])
        els.append(e)
        parent = None if not masters else draw(st.sampled_from([None] + masters + masters[-1:]))
        kids.setdefault(parent, []).append(e['name'])
        if t == 'master':
            masters.append(e['name'])
            kids[e['name']] = []
    if redeclare and masters:
        for _ in range(draw(st.integers(0, 3))):
            p = draw(st.sampled_from(masters + [None]))
            c = draw(st.sampled_from(names))
            if c not in kids[p] and (recursive or c not in masters):
                kids[p].append(c)
    if draw(st.integers(0, 1)) if void is None else void:
        used = {e['id'] for e in els}
        v = dict(name='Void', id=draw(st.sampled_from([0xEC] * 5 + [i for i in (0x81, 0x7FFE, 0x4101, 0x3F0000, 0x1EC0ECEC)
                                                                    if i not in used])), t='void', multiple=True)
        if glob and draw(st.booleans()):
            v['glob'] = True
        if precache and draw(st.integers(0, 3)) == 0:
            v['precache'] = draw(st.booleans())
        if length and draw(st.integers(0, 3)) == 0:
            v['length'] = draw(st.integers(1, 40))
        els.append(v)
        kids[None].append('Void')
    if draw(st.integers(0, 2)) == 0 if header is None else header:
        h, names_ = header_els(draw)
        els += h
        kids[None].append('EBML')
        kids['EBML'] = names_
    return dict(els=els, kids=kids)


# ---------------------------------------------------------------- documents

WIDTHS = st.one_of(st.none(), st.none(), st.integers(1, 8))


@st.composite
def unknown_ids(draw, spec):
    eid = draw(IDS)
    while eid in spec.by_id or eid == 0x1A45DFA3:
        eid = eid - 1 if ref.valid_id(eid - 1) and eid - 1 not in spec.by_id and eid - 1 != 0x1A45DFA3 \
            else draw(IDS)
    return eid


class _Budget:
    def __init__(self, n):
        self.n = n


def _leaf(draw, spec, e, widths, text, fixed=None):
    pl = draw((fixed or payload)(e['t'], text) if e['t'] != 'void' else BIN)
    return ('l', e['id'], pl, draw(widths))


def draw_trees(draw, spec, parent=None, depth=0, budget=None, max_nodes=24, max_depth=5, widths=WIDTHS,
               unknowns=True, anywhere=True, text=UNI, leaf=_leaf, max_kids=5, skip=()):
    """A list of trees, children of `parent` (a name or None for the root)."""
    budget = budget or _Budget(max_nodes)
    own = [spec.els[k] for k in spec.kids.get(parent, []) if k not in skip]
    anys = [e for e in spec.els.values() if e['name'] not in skip and e['name'] != 'EBML']
    out = []
    n = draw(st.integers(0 if depth else 1, max_kids))
    for _ in range(n):
        if budget.n <= 0:
            break
        budget.n -= 1
        how = draw(st.integers(0, 9))
        if how == 9 and unknowns:
            out.append(('l', draw(unknown_ids(spec)), draw(BIN), draw(widths)))
            continue
        pool = own if own and (how < 7 or not anywhere) else (anys if anywhere else own)
        pool = [e for e in pool if e['t'] != 'master' or depth < max_depth]
        if not pool:
            continue
        e = draw(st.sampled_from(pool))
        if e['t'] == 'master':
            ch = draw_trees(draw, spec, e['name'], depth + 1, budget, max_nodes, max_depth, widths, unknowns,
                            anywhere, text, leaf, max_kids, skip)
            out.append(('m', e['id'], ch, draw(widths), False))
        else:
            out.append(leaf(draw, spec, e, widths, text))
    if out and max_nodes >= 20 and draw(st.integers(0, 59)) == 59:
        # many children
        i = draw(st.integers(0, len(out) - 1))
        if len(out[i][2]) < 200 and count(out[i:i + 1]) == 1:
            out[i:i] = [out[i]] * draw(st.sampled_from([20, 70, 150]))
    return out


def header_tree(draw, spec, widths=WIDTHS):
    ch = []
    for k in spec.kids.get('EBML', []):
        if draw(st.integers(0, 5)):
            e = spec.els[k]
            pl = draw(st.sampled_from([b'test', b'abc', b'matroska', b'x\0\0'])) if e['t'] == 'str' else \
                draw(st.integers(0, 300).map(ref.enc_uint))
            ch.append(('l', e['id'], pl, draw(widths)))
    return ('m', 0x1A45DFA3, ch, draw(widths), False)


@st.composite
def docs(draw, spec_kw=None, header=None, **kw):
    """(schema literal, trees). The EBML header, when the schema has one, is
    put first in most documents."""
    lit = draw(specs(**(spec_kw or {})))
    spec = ref.Spec(lit)
    trees = draw_trees(draw, spec, skip=('EBML',), **kw)
    if 'EBML' in spec.els and (draw(st.integers(0, 3)) if header is None else header):
        trees = [header_tree(draw, spec, kw.get('widths', WIDTHS))] + trees
    return (lit, trees)


@st.composite
def deep_docs(draw, max_depth=60, text=UNI, unknowns=True):
    """A chain of nested masters, with a few siblings on the way."""
    lit = draw(specs(max_els=4, min_masters=1, header=False))
    spec = ref.Spec(lit)
    ms = [e for e in spec.els.values() if e['t'] == 'master']
    lv = [e for e in spec.els.values() if e['t'] != 'master']
    tree = ('m', ms[0]['id'], [], None, False)
    for _ in range(draw(st.integers(6, max_depth))):
        side = []
        if lv and draw(st.integers(0, 3)) == 0:
            side = [_leaf(draw, spec, draw(st.sampled_from(lv)), WIDTHS, text)]
        e = draw(st.sampled_from(ms))
        tree = ('m', e['id'], [tree] + side if draw(st.booleans()) else side + [tree], None, False)
    return (lit, [tree])


def count(trees):
    return sum(1 + (count(t[2]) if t[0] == 'm' else 0) for t in trees)


def depth(trees):
    return max([1 + (depth(t[2]) if t[0] == 'm' else 0) for t in trees], default=0)
