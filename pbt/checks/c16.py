"""C16: random documents (with, without and with several EBML headers) opened in every way at any start offset, headers
shown or not, examined by random histories of len, indexing, iteration and closing; non-trivial = a header, a start
offset above 0, or an out-of-range index."""
import io
import os
import shutil
import tempfile
from pathlib import Path

from hypothesis import strategies as st

from .. import gen, ref, scale
from ..lib import check_element, check_tree, schema
from ..run import Sub, expect, same
from .c06 import Stream
from ebmlite.threaded_file import ThreadAwareFile


def fds(path):
    """Open file descriptors of this process for a file."""
    n = 0
    for f in os.listdir('/proc/self/fd'):
        try:
            n += os.path.realpath(os.readlink('/proc/self/fd/' + f)) == os.path.realpath(path)
        except OSError:
            pass
    return n


WAYS = ['bytesio', 'file', 'unbuffered', 'stream', 'tempfile', 'threaded', 'path', 'pathlib', 'loads', 'call', 'document',
        'document-path', 'default', 'default-path', 'bytesname']
OWN = {'path', 'pathlib', 'document-path', 'default-path'}


class Opener:
    """Open `prefix + data` at the end of the prefix (which is empty for sources opened by name)."""
    def __init__(self, sch, data, prefix, way, headers, extra):
        if way in OWN or way == 'loads':
            prefix = b''
        self.base = len(prefix)
        self.dir = tempfile.mkdtemp(prefix='pbt')
        self.path = os.path.join(self.dir, 'some.doc.ebml')
        with open(self.path, 'wb') as f:
            f.write(prefix + data)
        self.file = None
        kw = dict(extra, headers=headers)
        if way in ('path', 'document-path', 'default-path'):
            src = self.path
        elif way == 'pathlib':
            src = Path(self.path)
        elif way == 'loads':
            src = None
        else:
            src = {'file': lambda: open(self.path, 'rb'), 'bytesname': lambda: open(os.fsencode(self.path), 'rb'), 'unbuffered': lambda: open(self.path, 'rb', buffering=0),
                   'stream': lambda: Stream(prefix + data), 'threaded': lambda: ThreadAwareFile(self.path)}.get(
                       way, lambda: io.BytesIO(prefix + data))()
            if way == 'tempfile':
                src = tempfile.TemporaryFile()
                src.write(prefix + data)
            self.file = src
            src.seek(len(prefix))
        self.shown = headers
        named = {k: v for k, v in extra.items() if k == 'name'}
        if way == 'loads':
            self.doc, self.shown = sch.loads(data, **named), False
        elif way == 'call':
            self.doc, self.shown = sch(src, **named), False
        elif way in ('default', 'default-path'):
            self.doc, self.shown = sch.load(src, **extra), False
        elif way in ('document', 'document-path'):
            if headers:
                del kw['headers']       # the default of a document
            self.doc = sch.document(src, **kw)
        else:
            self.doc = sch.load(src, **kw)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        for f in (self.file, getattr(self.doc, 'stream', None)):
            if hasattr(f, 'close'):
                f.close()
        shutil.rmtree(self.dir, ignore_errors=True)


def header_info(nodes):
    return ref.dump(nodes[:1])['EBML'] if nodes and nodes[0].name == 'EBML' else {}


def plain(info):
    return {k: ref.canon(v) if not isinstance(v, list) else [ref.canon(x) for x in v] for k, v in info.items()}


def history(case, note):
    lit, trees, prefix, way, headers, ops, given = case
    spec = ref.Spec(lit)
    sch = schema(spec)
    data = ref.write_doc(trees, spec)[0]
    extra = {}
    if given & 1:
        extra['name'] = 'A name'
    if way not in ('loads', 'call') and given & 2:
        extra['size'] = len(data)
    with Opener(sch, data, prefix, way, headers, extra) as o:
        _, nodes = ref.write_doc(trees, spec, o.base)
        doc = o.doc
        info = header_info(nodes)
        has = bool(nodes) and nodes[0].name == 'EBML'
        shown = nodes[1:] if has and not o.shown else nodes
        n = len(shown)
        out = False
        its = []

        def meta(w):
            same((doc.offset, doc.id), (o.base, None), w + 'offset and ID of the document')
            same(doc.payloadOffset, nodes[0].end if has and not o.shown else o.base, w + 'offset of the root elements')
            same(plain(doc.info), info, w + 'info')
            d, v = info.get('DocType'), info.get('DocTypeVersion')
            same(None if doc.type is None else ref.canon(doc.type), d, w + 'type')
            same(None if doc.version is None else ref.canon(doc.version), v, w + 'version')
            expect(doc.schema is sch, w, 'schema')
            if 'name' in extra:
                same(doc.name, 'A name', w + 'name')
            elif way in OWN or way in ('file', 'unbuffered', 'threaded', 'bytesname'):
                same(doc.name, 'some.doc', w + 'name')
            else:
                same(doc.name, type(doc).__name__, w + 'name')
            if 'size' in extra:
                same(doc.size, extra['size'], w + 'size as given')
            elif way not in ('stream', 'tempfile'):
                same(doc.size, o.base + len(data), w + 'size')
        meta('at first: ')
        for op in ops:
            w = repr(op) + ': '
            k = op[0]
            if k == 'len':
                same(len(doc), n, w + 'length')
            elif k == 'index':
                i = op[1] if op[1] < 10 else n + op[1] - 12
                try:
                    e = doc[i]
                except IndexError:
                    expect(not 0 <= i < n, w, 'IndexError for', i, 'of', n)
                    out = True
                    continue
                expect(0 <= i < n, w, 'index', i, 'of', n, 'gave', e)
                check_element(e, shown[i], where=w)
                if shown[i].kids is not None:
                    check_tree(iter(e), shown[i].kids, where=w)
                    same(len(e), len(shown[i].kids), w + 'length of the element')
                    m = len(shown[i].kids)
                    if m:
                        check_element(e[m - 1], shown[i].kids[m - 1], where=w)
                    try:
                        e[m]
                        raise AssertionError('index %d of a master with %d children' % (m, m))
                    except IndexError:
                        pass
            elif k == 'badindex':
                i = BAD[op[1] % len(BAD)]
                try:
                    got = doc[i]
                except Exception:
                    pass
                else:
                    expect(isinstance(i, slice) and isinstance(got, (list, tuple)), w, 'index', i, 'gave', got)
                    check_tree(iter(got), shown[i], where=w)
                out = True
            elif k == 'repr':
                r = repr(doc)
                expect(isinstance(r, str) and (repr(doc.name) in r or type(doc).__name__ in r), w, 'repr', r)
            elif k == 'iter':
                check_tree(iter(doc), shown, where=w)
            elif k == 'value':
                check_tree(doc.value, shown, where=w)
            elif k == 'part':
                its.append((iter(doc), 0))
            elif k == 'next' and its:
                it, at = its.pop(op[1] % len(its))
                e = next(it, None)
                if e is None:
                    same(at, n, w + 'end of an iteration')
                else:
                    expect(at < n, w, 'too many elements')
                    check_element(e, shown[at], where=w)
                    its.append((it, at + 1))
            elif k == 'gc':
                same(doc.gc(recurse=op[1]), 0, w + 'gc')
            elif k == 'dump':
                same(plain_tree(doc.dump()), ref.dump(shown), w + 'dump')
            elif k == 'meta':
                meta(w)
            elif k == 'seek' and o.file is not None:
                o.file.seek(op[1] % (len(data) + o.base + 1))
        check_tree(iter(doc), shown, where='at the end: ')
        meta('at the end: ')
        note('way ' + way)
        note('header shown' if has and o.shown else 'header hidden' if has else 'no header')
        note('start offset > 0' if o.base else 'start offset 0')
        if out:
            note('out-of-range index')
        note.nt(has or o.base or out)


BAD = ['a', 1.0, None, slice(0, 1), slice(None), b'']


def plain_tree(v):
    if isinstance(v, dict):
        return {k: plain_tree(x) for k, x in v.items()}
    if isinstance(v, list):
        return [plain_tree(x) for x in v]
    return ref.canon(v)


class Boom(Exception):
    pass


def closing(case, note):
    lit, trees, prefix, way, headers, how, early, gone = case
    spec = ref.Spec(lit)
    sch = schema(spec)
    data = ref.write_doc(trees, spec)[0]
    with Opener(sch, data, prefix, way, headers, {}) as o:
        doc = o.doc
        _, nodes = ref.write_doc(trees, spec, o.base)
        shown = nodes[1:] if nodes and nodes[0].name == 'EBML' and not o.shown else nodes
        before = fds(o.path)
        if way in OWN:
            expect(before == 1, 'open descriptors of the file:', before)
        if way in OWN and gone == 'moved':
            os.rename(o.path, o.path + '2')
            o.path += '2'
        elif way in OWN and gone == 'removed':
            os.remove(o.path)
            o.path += ' (deleted)'
        it = iter(doc)
        if early and shown:
            check_element(next(it), shown[0])
        if how == 'close':
            doc.close()
        elif how == 'twice':
            doc.close()
            doc.close()
        elif how == 'with':
            with doc as d:
                expect(d is doc, 'with gives', d)
                check_tree(iter(d), shown)
        elif how == 'with-close':
            with doc as d:
                d.close()
        elif how in ('error', 'base error'):
            exc = Boom if how == 'error' else KeyboardInterrupt
            try:
                with doc:
                    check_tree(iter(doc), shown)
                    raise exc('x')
            except exc as e:
                expect(e.args == ('x',), 'exception', e)
            else:
                raise AssertionError('the exception did not leave the with block')
        elif how == 'nested':
            with doc:
                with doc:
                    pass
        elif how == 'generator':
            def g():
                with doc as d:
                    for x in d:
                        yield x
            gg = g()
            next(gg, None)
            gg.close()
        if way in OWN:
            same(fds(o.path), 0, 'open descriptors after closing')
            expect(doc.stream.closed, 'stream is open')
            try:
                list(doc)
            except Exception:
                pass
            else:
                raise AssertionError('a closed document can be read')
        else:
            same(fds(o.path), before, 'open descriptors of a source not opened by the document')
            expect(not getattr(doc.stream, 'closed', False), 'the source was closed')
            if o.file is not None:
                o.file.seek(o.base)
                same(o.file.read(len(data)), data, 'source after closing the document')
            check_tree(iter(doc), shown)
        # what is known about the document stays known
        same(plain(doc.info), header_info(nodes), 'info after closing')
        note('%s %s' % ('own' if way in OWN else 'foreign', how))
        if way in OWN:
            note('file ' + gone if gone else 'file in place')
        note.nt()


def not_streams(case, note):
    lit, what = case
    sch = schema(ref.Spec(lit))
    note.nt()
    src = {'bytes': b'\x81\x80', 'int': 5, 'none': None, 'missing': '/nonexistent/pbt/file.ebml', 'list': [],
           'missing-path': Path('/nonexistent/pbt/x')}[what]
    try:
        sch.load(src)
    except Exception:
        return
    raise AssertionError('%r was loaded' % (src,))


NAMES = ['some.doc.ebml', 'plain', '.hidden', '.hidden.ebml', '..x', '...', 'ends.', 'ends..', 'a..b', 'a b.ebml', ' .ebml', 'é😀.ebml',
         'x.tar.gz', '{a}.ebml', '~', '%s.ebml', 'new\nline.ebml', 'x' * 250 + '.eb', '0', '-.x', 'a.b c', '\udcff.ebml', 'a\\b.ebml']


def stem(name):
    """The base of a file name: without the last extension; dots at the start do not begin one."""
    head = len(name) - len(name.lstrip('.'))
    i = name.rfind('.')
    return name if i < head else name[:i]


def naming(case, note):
    base, folder, way, given = case
    note.nt()
    tmp = tempfile.mkdtemp(prefix='pbt')
    try:
        os.mkdir(os.path.join(tmp, folder))
        path = os.path.join(tmp, folder, base)
        with open(path, 'wb') as f:
            f.write(b'\x81\x81\x05')
        sch = schema(ref.Spec(dict(els=[dict(name='A', id=0x81, t='uint')], kids={None: ['A']})))
        src = dict(path=lambda: path, pathlib=lambda: Path(path), file=lambda: open(path, 'rb'),
                   bytes=lambda: open(os.fsencode(path), 'rb'), threaded=lambda: ThreadAwareFile(path))[way]()
        with sch.load(src, **(dict(name=given) if given is not None else {})) as doc:
            same(doc.name, stem(base) if given is None else given, 'name of the document %r' % base)
            same(doc.filename, path, 'filename')
            same(doc.size, 3, 'size')
            same(doc[0].value, 5, 'value')
        if hasattr(src, 'close'):
            src.close()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


@st.composite
def documents(draw):
    lit, trees = draw(st.one_of(
        gen.docs(spec_kw=dict(header=True), header=True), gen.docs(spec_kw=dict(header=True), header=True),
        gen.docs(spec_kw=dict(header=True), header=False), gen.docs(spec_kw=dict(header=False))))
    spec = ref.Spec(lit)
    if 'EBML' in spec.els and draw(st.integers(0, 4)) == 0:
        trees = list(trees)
        trees.insert(draw(st.integers(0, len(trees))), gen.header_tree(draw, spec))
    if draw(st.integers(0, 7)) == 0:
        trees = trees[:1]
    if trees and trees[0][1] == 0x1A45DFA3 and draw(st.booleans()):
        # unusual headers: repeated, foreign and unknown elements, any order, unknown size
        kids = list(trees[0][2])
        if kids and draw(st.booleans()):
            kids = kids + [draw(st.sampled_from(kids))]
        if draw(st.booleans()):
            kids.insert(draw(st.integers(0, len(kids))), ('l', draw(gen.unknown_ids(spec)), draw(gen.BIN), None))
        if 'Void' in spec.els and draw(st.booleans()):
            kids.insert(draw(st.integers(0, len(kids))), ('l', spec.els['Void']['id'], b'\xff' * draw(st.integers(0, 9)), None))
        if draw(st.booleans()):
            kids = draw(st.permutations(kids))
        unk = all(spec.valid_child(0x1A45DFA3, k[1]) for k in kids) and (
            len(trees) < 2 or not spec.valid_child(0x1A45DFA3, trees[1][1])) and draw(st.booleans())
        trees = [('m', 0x1A45DFA3, kids, trees[0][3], unk)] + list(trees[1:])
    return lit, trees


@st.composite
def cases(draw, closing=False):
    lit, trees = draw(documents())
    prefix = draw(st.one_of(st.just(b''), st.binary(min_size=1, max_size=20), st.just(b'\x1a\x45\xdf\xa3\x80'),
                            st.just(b'\0' * 130)))
    way = draw(st.sampled_from(WAYS + sorted(OWN) if closing else WAYS))
    headers = draw(st.booleans())
    if closing:
        if draw(st.integers(0, 9)) == 0:
            trees = []
        how = draw(st.sampled_from(['close', 'twice', 'with', 'with-close', 'error', 'base error', 'nested', 'generator']))
        return (lit, trees, prefix, way, headers, how, draw(st.booleans()),
                draw(st.sampled_from(['', '', 'moved', 'removed'])))
    op = st.one_of(st.tuples(st.just('len')), st.tuples(st.just('index'), st.integers(-3, 14)),
                   st.tuples(st.just('index'), st.integers(10, 14)), st.tuples(st.just('index'), st.integers(0, 5)),
                   st.tuples(st.just('badindex'), st.integers(0, 6)), st.tuples(st.just('repr')),
                   st.tuples(st.just('iter')), st.tuples(st.just('value')), st.tuples(st.just('part')),
                   st.tuples(st.just('next'), st.integers(0, 3)), st.tuples(st.just('next'), st.integers(0, 3)),
                   st.tuples(st.just('gc'), st.booleans()), st.tuples(st.just('dump')), st.tuples(st.just('meta')),
                   st.tuples(st.just('seek'), st.integers(0, 400)))
    return lit, trees, prefix, way, headers, draw(st.lists(op, max_size=12)), draw(st.integers(0, 3))


SUBS = [
    Sub('histories', history, cases(), quick=2400, thorough=60000, shards=6,
        rule='random documents, sources, start offsets and histories'),
    Sub('closing', closing, cases(True), quick=1200, thorough=25000, shards=3, rule='random sources and ways to close'),
    Sub('names', naming, cases=lambda: [(n, f, w, g) for n in NAMES for f in ('d', 'd.e') for w in (
        'path', 'pathlib', 'file', 'bytes', 'threaded') for g in (None, 'given')], shards=1, rule='enumerated file names'),
    Sub('not-streams', not_streams, cases=lambda: [(dict(els=[dict(name='A', id=0x81, t='uint')], kids={None: ['A']}), w)
                                                   for w in ('bytes', 'int', 'none', 'missing', 'list', 'missing-path')],
        shards=1, rule='enumerated objects that are not documents'),
    scale.sub(scale.indexing, [s for s in scale.SHAPES if s[0] == 'roots']),
]
ASSUMPTIONS = ['the header is the first root element; an EBML element further on is an element like any other']
