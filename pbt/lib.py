"""Access to the code under test (through its public, documented API only)
and comparison of its elements with the reference model's nodes."""
import io

from . import ref
from .run import HarnessError, expect, same

from ebmlite import core
from ebmlite.core import (BinaryElement, DateElement, Document, FloatElement, IntegerElement, MasterElement,  # noqa
                          Schema, StringElement, UIntegerElement, UnicodeElement, UnknownElement, VoidElement)

BASES = dict(int=IntegerElement, uint=UIntegerElement, float=FloatElement, str=StringElement, uni=UnicodeElement,
             date=DateElement, bin=BinaryElement, void=VoidElement, unknown=UnknownElement, master=MasterElement)
_cache = {}


def schema(spec, legacy=False, name='t', fresh=False):
    """The ebmlite Schema of a ref.Spec (schemata are immutable: cached)."""
    xml = spec.legacy_xml() if legacy else spec.xml()
    key = (xml, name)
    if fresh or key not in _cache:
        s = Schema(io.StringIO(xml), name=name)
        if fresh:
            return s
        if len(_cache) > 200:
            _cache.clear()
        _cache[key] = s
    return _cache[key]


def kind(el):
    """The most specific base type name of an element (or element class)."""
    c = el if isinstance(el, type) else type(el)
    for k in ('unknown', 'void', 'uint', 'date', 'int', 'float', 'uni', 'str', 'bin', 'master'):
        if issubclass(c, BASES[k]):
            return k
    raise AssertionError('element of unexpected type %r' % (c,))


def check_element(el, n, values=True, where=''):
    """el reports exactly what node n is (children not included)."""
    w = '%s%r' % (where, n)
    same(el.id, n.id, w + ' id')
    same(el.name, n.name, w + ' name')
    same(kind(el), n.t, w + ' type')
    expect(el.dtype is ref.DTYPES[n.t], w, 'dtype', el.dtype)
    same(el.offset, n.offset, w + ' offset')
    same(el.payloadOffset, n.start, w + ' payloadOffset')
    same(el.size, n.size, w + ' size')
    if values and n.kids is None:
        v = el.value
        same(ref.canon(v), ref.canon(n.value()), w + ' value')
        expect(isinstance(v, ref.DTYPES[n.t]), w, 'type of the value', type(v))


def check_tree(els, nodes, values=True, where=''):
    """Compare a sequence of elements with nodes, recursively, by iteration."""
    els = list(els)
    for el, n in zip(els, nodes):
        check_element(el, n, values, where)
        if n.kids is not None:
            check_tree(iter(el), n.kids, values, where)
    same([e.id for e in els], [n.id for n in nodes], '%s: IDs of the elements' % where)


def content(els):
    """Nested [id, name, value or children], like ref.value_tree."""
    return [[e.id, e.name, content(e) if isinstance(e, MasterElement) else ref.canon(e.value)] for e in els]


def raises(fn, *a, **k):
    """The exception fn raises, or None."""
    try:
        fn(*a, **k)
    except Exception as e:
        return e
    return None


def must_raise(fn, what, exc=Exception):
    try:
        r = fn()
    except exc:
        return
    raise AssertionError('%s was accepted (result %r)' % (what, r if not isinstance(r, (bytes, bytearray)) or
                                                          len(r) < 200 else len(r)))
