"""C06: random well-formed documents over random schemata, written by the reference writer, loaded from every kind of
source and walked; non-trivial = a nested element, an unknown ID, a Void, a non-minimal size descriptor or an empty
element."""
import gzip
import io
import lzma
import mmap
import os
import pathlib
import shutil
import tarfile
import tempfile
import zipfile

from hypothesis import strategies as st

from .. import gen, ref, scale
from ..lib import check_element, check_tree, schema
from ..run import Sub, expect, same
from ebmlite.threaded_file import ThreadAwareFile


class Stream:
    """The least a source must have: read, seek and tell."""
    def __init__(self, data):
        self._f = io.BytesIO(data)

    def read(self, n=-1):
        return self._f.read(n)

    def seek(self, pos, whence=0):
        return self._f.seek(pos, whence)

    def tell(self):
        return self._f.tell()


SOURCES = ['loads', 'bytesio', 'path', 'pathlib', 'file', 'unbuffered', 'stream', 'tempfile', 'threaded', 'call',
           'document', 'mmap', 'gzip', 'lzma', 'spooled', 'zip', 'tar', 'reader', 'update']


def stdlib_stream(kind, data):
    """The readable, seekable streams of the standard library that are neither files nor BytesIO."""
    if kind == 'mmap':
        m = mmap.mmap(-1, max(1, len(data)))
        m.write(data)
        m.seek(0)
        return m if data else io.BytesIO(data)
    if kind == 'gzip':
        return gzip.GzipFile(fileobj=io.BytesIO(gzip.compress(data, 1)))
    if kind == 'lzma':
        return lzma.LZMAFile(io.BytesIO(lzma.compress(data, preset=0)))
    if kind == 'spooled':
        f = tempfile.SpooledTemporaryFile(max_size=len(data) if len(data) % 2 else 1)
        f.write(data)
        f.seek(0)
        return f
    b = io.BytesIO()
    if kind == 'zip':
        with zipfile.ZipFile(b, 'w', zipfile.ZIP_DEFLATED if len(data) % 2 else zipfile.ZIP_STORED) as z:
            z.writestr('doc', data)
        return zipfile.ZipFile(b).open('doc')
    if kind == 'tar':
        with tarfile.open(fileobj=b, mode='w') as t:
            info = tarfile.TarInfo('doc')
            info.size = len(data)
            t.addfile(info, io.BytesIO(data))
        b.seek(0)
        return tarfile.open(fileobj=b).extractfile('doc')
    return io.BufferedReader(io.BytesIO(data), 7)


class Opened:
    """A document of `data` opened in the given way; the file, if any, is removed at the end."""
    def __init__(self, sch, data, source, headers=True):
        self.sch, self.data, self.source, self.headers = sch, data, source, headers

    def __enter__(self):
        self.dir, self.close = None, []
        s, kw = self.source, dict(headers=self.headers)
        if s in ('loads', 'call'):
            kw = {}
        if s in ('path', 'pathlib', 'file', 'unbuffered', 'threaded', 'update'):
            self.dir = tempfile.mkdtemp(prefix='pbt')
            p = os.path.join(self.dir, 'doc.ebml')
            with open(p, 'wb') as f:
                f.write(self.data)
        if s == 'loads':
            doc = self.sch.loads(self.data)
        elif s == 'call':
            doc = self.sch(io.BytesIO(self.data))
        elif s == 'document':
            doc = self.sch.document(io.BytesIO(self.data), **kw)
        elif s == 'bytesio':
            doc = self.sch.load(io.BytesIO(self.data), **kw)
        elif s == 'stream':
            doc = self.sch.load(Stream(self.data), **kw)
        elif s == 'tempfile':
            f = tempfile.TemporaryFile()
            f.write(self.data)
            f.seek(0)
            self.close.append(f)
            doc = self.sch.load(f, **kw)
        elif s in ('mmap', 'gzip', 'lzma', 'spooled', 'zip', 'tar', 'reader'):
            f = stdlib_stream(s, self.data)
            self.close.append(f)
            doc = self.sch.load(f, **kw)
        elif s in ('path', 'pathlib'):
            doc = self.sch.load(p if s == 'path' else pathlib.Path(p), **kw)
            self.close.append(doc)
        else:
            f = (ThreadAwareFile(p) if s == 'threaded' else
                 open(p, 'r+b' if s == 'update' else 'rb', buffering=0 if s == 'unbuffered' else -1))
            self.close.append(f)
            doc = self.sch.load(f, **kw)
        self.shows_header = kw.get('headers', False)
        return doc

    def __exit__(self, *a):
        for f in self.close:
            f.close()
        if self.dir:
            shutil.rmtree(self.dir, ignore_errors=True)


def visible(nodes, shows_header):
    """Root elements that a document reports."""
    return nodes[1:] if nodes and not shows_header and nodes[0].name == 'EBML' else nodes


def describe(trees, spec, note):
    n, d = gen.count(trees), gen.depth(trees)
    note('elements >= 8' if n >= 8 else 'elements < 8')
    note('depth >= 3' if d >= 3 else 'depth < 3')

    def labels(ts):
        out = set()
        for t in ts:
            out.add('type ' + spec.type_of(t[1]))
            if t[3] and t[3] > 1:
                out.add('wide descriptor')
            if not t[2]:
                out.add('empty')
            if t[0] == 'm':
                out |= labels(t[2])
        return out
    ls = labels(trees)
    for x in ls:
        note(x)
    note.nt(d >= 2 or ls & {'type unknown', 'type void', 'wide descriptor', 'empty'})


def parse(case, note):
    (lit, trees), source, mode = case
    spec = ref.Spec(lit)
    sch = schema(spec)
    data, nodes = ref.write_doc(trees, spec)
    describe(trees, spec, note)
    note('source ' + source)
    o = Opened(sch, data, source)
    with o as doc:
        nodes = visible(nodes, o.shows_header)
        if mode == 0:
            check_tree(iter(doc), nodes)
        elif mode == 1:
            # first the whole structure, then the values
            by = []

            def grab(els, ns):
                els = list(els)
                same([e.id for e in els], [n.id for n in ns], 'IDs')
                for e, n in zip(els, ns):
                    by.append((e, n))
                    if n.kids is not None:
                        grab(e, n.kids)
            grab(doc, nodes)
            for e, n in reversed(by):
                check_element(e, n)
        else:
            # through the value property and indexing
            def walk(els, ns):
                els = list(els)
                same(len(els), len(ns), 'number of elements')
                for e, n in zip(els, ns):
                    check_element(e, n)
                    expect(e.schema is sch, 'schema of the element')
                    if n.kids is not None:
                        walk(e.value, n.kids)
                        same(len(e), len(n.kids), 'len of master')
            walk(doc.value, nodes)
            for i, n in enumerate(nodes):
                check_element(doc[i], n)


def big_cases():
    for n in list(range(124, 131)) + list(range(16378, 16387)) + [65536, 2097149, 2097150, 2097151, 2097152]:
        for w in (None, 8):
            for nested in (0, 1, 2):
                if n < 20000 or (w is None and nested < 2):
                    yield (n, w, nested)


BIG = dict(els=[dict(name='M', id=0x81, t='master'), dict(name='B', id=0x82, t='bin'), dict(name='U', id=0x83, t='uint')],
           kids={None: ['M'], 'M': ['B', 'U']})


def big(case, note):
    n, w, nested = case
    note.nt()
    t = ('l', 0x82, bytes(i % 251 for i in range(n)), w)
    for _ in range(nested):
        t = ('m', 0x81, [t, ('l', 0x83, b'\x01', w)], w, False)
    spec = ref.Spec(BIG)
    data, nodes = ref.write_doc([t, ('l', 0x83, b'\x07', None), ('l', 0x4080, b'zz', None)], spec)
    check_tree(iter(schema(spec).loads(data)), nodes)


def many(case, note):
    """A wide document: thousands of siblings at one level."""
    n, seed = case
    note.nt()
    spec = ref.Spec(BIG)
    kids = [('l', 0x83, ref.enc_uint(i * seed % 65537), None) for i in range(n)]
    data, nodes = ref.write_doc([('m', 0x81, kids, None, False), ('l', 0x83, b'\x07', None)] + kids[:50], spec)
    doc = schema(spec).loads(data)
    check_tree(iter(doc), nodes)
    same(len(doc[0]), n, 'number of children')


SRC = st.sampled_from(SOURCES + ['loads', 'bytesio', 'stream'] * 3)
MODE = st.integers(0, 2)
KW = dict(precache=True)
SUBS = [
    Sub('documents', parse, st.tuples(gen.docs(), SRC, MODE), quick=2400, thorough=60000, shards=6,
        rule='random schema, document, source and way of walking'),
    Sub('many-elements', parse, st.tuples(gen.docs(spec_kw=dict(max_els=16, min_els=6), max_nodes=90, max_kids=12),
                                          SRC, MODE), quick=400, thorough=10000, shards=3,
        rule='larger documents'),
    Sub('deep', parse, st.tuples(gen.deep_docs(), SRC, MODE), quick=300, thorough=5000, shards=2,
        rule='chains of up to 60 nested masters'),
    Sub('sizes', big, cases=lambda: list(big_cases()), shards=1, rule='enumerated payload sizes at descriptor width edges'),
    Sub('wide', many, cases=lambda: [(n, s) for n in (126, 127, 128, 5000) for s in (1, 257)], shards=1,
        rule='enumerated: thousands of siblings'),
    scale.sub(scale.parse),
]
ASSUMPTIONS = ['numeric payloads of at most 8 bytes (the limit of EBML)', 'unknown-size elements are covered by C08']
