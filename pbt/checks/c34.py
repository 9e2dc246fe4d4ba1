"""C34: conversions, schemata and listings with sources and outputs given by name, valid and faulty, on devices that refuse
data too; the descriptors of this process, unclosed-file warnings and the contents of the files are compared with what is
stated and with the same operation on streams; non-trivial = a failure, or an output of more than a buffer, or a nested element."""
import gc
import io
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile
import warnings
from xml.etree import ElementTree as ET

from hypothesis import strategies as st

from .. import gen, ref
from ..lib import Schema, check_tree
from ..run import REPO, HarnessError, Sub, expect, same
from .c11 import skip_dates
from .c21 import MODULES, run
from ebmlite import core, util
from ebmlite.threaded_file import ThreadAwareFile

SIMPLE = ['  ', 'é&<>', 'x' * 40]


def held(tmp):
    """Files of the scratch directory (and devices) that are open in this process."""
    out = []
    for f in os.listdir('/proc/self/fd'):
        try:
            p = os.readlink('/proc/self/fd/' + f)
        except OSError:
            continue
        if p.startswith(tmp) or p == '/dev/full':
            out.append(os.path.basename(p))
    return sorted(out)


class Watch:
    """Unclosed files (as Python reports them) below tmp."""
    def __init__(self, tmp):
        self.tmp = tmp

    def __enter__(self):
        self.w = warnings.catch_warnings(record=True)
        self.seen = self.w.__enter__()
        warnings.simplefilter('always', ResourceWarning)
        return self

    def __exit__(self, *exc):
        gc.collect()
        self.w.__exit__(*exc)

    def left(self):
        gc.collect()
        return [str(x.message) for x in self.seen if x.category is ResourceWarning
                and (self.tmp in str(x.message) or '/dev/full' in str(x.message))]


def plain(n):
    x = ET.Element(n.name, {'id': hex(n.id)} if n.t == 'unknown' else {})
    if n.kids is not None:
        x.extend([plain(k) for k in n.kids])
    elif n.t in ('bin', 'unknown', 'void'):
        x.set('encoding', 'hex')
        x.text = n.payload.hex()
    else:
        v = n.value()
        x.set('value', v.isoformat() if n.t == 'date' else repr(v) if n.t == 'float' else str(v))
    return x


class World:
    def __init__(self, case):
        lit, trees, self.naming, self.headers = case
        self.spec = ref.Spec(lit)
        self.bytes, self.nodes = ref.write_doc(trees, self.spec)
        skip_dates(self.nodes)
        self.tmp = os.path.realpath(tempfile.mkdtemp(prefix='pbt34'))
        with open(self.p('s.xml'), 'w', encoding='utf-8') as f:
            f.write(self.spec.xml())
        self.sch = Schema(self.p('s.xml'))
        root = ET.Element(self.sch.document.__name__)
        root.extend([plain(n) for n in self.nodes])
        self.root = root
        self.write('in.xml', ET.tostring(root, encoding='utf-8'))
        self.write('in.ebml', self.bytes)
        out = io.BytesIO()
        util.xml2ebml(self.p('in.xml'), out, self.sch, headers=self.headers)
        self.want = out.getvalue()

    def p(self, name):
        return os.path.join(self.tmp, name)

    def n(self, name):
        p = name if os.path.isabs(name) else self.p(name)
        return pathlib.Path(p) if self.naming & 1 else p

    def write(self, name, data):
        with open(self.p(name), 'wb') as f:
            f.write(data)

    def read(self, name):
        with open(self.p(name), 'rb') as f:
            return f.read()

    def end(self):
        shutil.rmtree(self.tmp, ignore_errors=True)
        for k in [k for k in core.SCHEMATA if self.tmp in str(k)]:
            del core.SCHEMATA[k]


def faulty_xml(w, fault):
    """An XML source with a fault, the file's name."""
    if fault == 'missing':
        return 'nothing.xml'
    text = w.read('in.xml')
    root = ET.fromstring(text)
    if fault == 'truncated':
        w.write('bad.xml', text[:len(text) - 1 - len(text) // 3])
        return 'bad.xml'
    if fault == 'root':
        root.tag = 'Elsewhere'
    elif fault == 'name':
        root.append(ET.Element('NotThere', {'value': '1'}))
    elif fault == 'value':
        e = [e for e in w.spec.els.values() if e['t'] in ('uint', 'int', 'float', 'date')]
        if not e:
            root.append(ET.Element('NotThere', {'value': '1'}))
        else:
            root.append(ET.Element(e[0]['name'], {'value': 'text'}))
    elif fault == 'id':
        root.append(ET.Element('Other', {'id': '0x1', 'encoding': 'hex'}))
    w.write('bad.xml', ET.tostring(root, encoding='utf-8'))
    return 'bad.xml'


FAULTS = ['missing', 'truncated', 'root', 'name', 'value', 'id', 'schema', 'schema xml', 'directory', 'full', 'full', 'full', 'no directory']


def attempt(fn):
    """-> (result or None, exception or None); the exception keeps its traceback, and thus what the frames refer to."""
    try:
        return fn(), None
    except Exception as e:
        return None, e


def conversion(case, note):
    world, op, fault, pick = case
    w = World(world)
    try:
        with Watch(w.tmp) as watch:
            before = held(w.tmp)
            same(before, [], 'self-test: open files')
            src, schema, out = w.n('in.xml'), [w.sch, w.n('s.xml')][pick % 2], w.n('out.ebml')
            if fault in ('missing', 'truncated', 'root', 'name', 'value', 'id'):
                src = w.n(faulty_xml(w, fault))
            elif fault == 'schema':
                schema = w.n('nowhere.xml')
            elif fault == 'schema xml':
                w.write('broken.xml', b'<Schema><UIntegerElement name="A"/></Schema>')
                schema = w.n('broken.xml')
            elif fault == 'directory':
                out = w.n('.')
            elif fault == 'no directory':
                out = w.n('none/out.ebml')
            elif fault == 'full':
                out = w.n('/dev/full')
            if pick & 2 and src == w.n('in.xml'):
                src = [w.root, ET.ElementTree(w.root)][pick >> 2 & 1]
            if fault is None and pick & 8:
                w.write('out.ebml', b'old contents' * 3000)
            kw = dict(headers=w.headers) if op == 'xml2ebml' else {}
            want = w.want
            if op == 'loadXml':
                b = io.BytesIO()
                util.xml2ebml(w.p('in.xml'), b, w.sch)
                want = b.getvalue()
            if op == 'xml2ebml':
                got, exc = attempt(lambda: util.xml2ebml(src, out, schema, **kw))
            else:
                got, exc = attempt(lambda: util.loadXml(src, schema, str(out) if pick & 16 else out))
            empty = fault == 'full' and not want
            expect((exc is None) == (fault is None or empty), op, 'with fault', fault, 'gave', got, exc)
            if exc is None and op == 'loadXml':
                if fault is None:
                    same(held(w.tmp), ['out.ebml'], 'files open while the document is')
                    same(w.read('out.ebml'), want, 'file of the document')
                got.close()
            same(held(w.tmp), [], 'files left open by %s with fault %s' % (op, fault))
            if exc is None and op == 'xml2ebml' and not empty:
                same(w.read('out.ebml'), want, 'output')
                same(got, len(want), 'size returned')
            elif exc is not None and os.path.exists(w.p('out.ebml')):
                part = w.read('out.ebml')
                expect(want.startswith(part) or fault not in ('name', 'value', 'id'),
                       'the output of a failed conversion is not the beginning of the complete one')
            exc = got = None
            same(watch.left(), [], 'unclosed files')
        note('%s: %s' % (op, fault or 'valid'))
        note.nt(fault or len(want) > 8192 or any(n.kids for n in w.nodes))
    finally:
        w.end()


def streams(case, note):
    """What the caller opened stays open, and the position is behind the output."""
    world, op, fault, pick = case
    w = World(world)
    try:
        with Watch(w.tmp) as watch, open(w.p('in.xml'), 'rb') as src, open(w.p('out.ebml'), 'w+b') as out:
            if fault:
                src.close()
                src = open(w.p(faulty_xml(w, fault)), 'rb')
            out.write(b'before')
            if op == 'xml2ebml':
                got, exc = attempt(lambda: util.xml2ebml(src, out, w.n('s.xml') if pick & 1 else w.sch, headers=w.headers))
            else:
                got, exc = attempt(lambda: util.loadXml(src, w.n('s.xml') if pick & 1 else w.sch, out))
            expect((exc is None) == (fault is None), op, 'with fault', fault, 'gave', got, exc)
            expect(not src.closed and not out.closed, 'a stream of the caller was closed')
            same(held(w.tmp), sorted([os.path.basename(src.name), 'out.ebml']), 'open files')
            if exc is None and op == 'xml2ebml':
                same(out.tell(), 6 + len(w.want), 'position behind the output')
                out.seek(0)
                same(out.read(), b'before' + w.want, 'output')
            elif exc is None:
                got.close()
                expect(not out.closed, 'a stream of the caller was closed by the document')
            src.close()
            exc = got = None
            same(watch.left(), [], 'unclosed files')
        note('%s: %s' % (op, fault or 'valid'))
        note.nt(fault or len(w.want) > 8192 or any(n.kids for n in w.nodes))
    finally:
        w.end()


class Oddity(BaseException):
    pass


class Sized(io.StringIO):
    """A stream that has a length, and so is false while it is empty"""
    def __len__(self):
        return len(self.getvalue())


def sources(case, note):
    """Schemata and documents by name: loaded, reloaded, listed, printed; from streams."""
    world, ops = case
    w = World(world)
    try:
        bad = b'<Schema><UIntegerElement name="A"/></Schema>'
        w.write('broken.xml', bad)
        w.write('text.xml', b'no XML')
        os.mkdir(w.p('dir.xml'))
        keep = []
        with Watch(w.tmp) as watch:
            for op, k in ops:
                name = ['s.xml', 's.xml', 'broken.xml', 'text.xml', 'dir.xml', 'none.xml'][k % 6]
                good = name == 's.xml'
                if op in ('load', 'reload'):
                    got, exc = attempt(lambda: core.loadSchema(w.n(name), reload=op == 'reload'))
                    expect((exc is None) == good, op, name, got, exc)
                elif op == 'Schema':
                    got, exc = attempt(lambda: Schema(w.n(name)))
                    expect((exc is None) == good, op, name, got, exc)
                elif op == 'stream' and os.path.isfile(w.p(name)):
                    with open(w.p(name), 'rb') as f:
                        got, exc = attempt(lambda: Schema(f) if k & 8 else core.parseSchema(f, name=w.tmp + str(k), reload=True))
                        expect((exc is None) == good, op, name, got, exc)
                        expect(not f.closed, 'the stream was closed')
                elif op == 'list':
                    got, exc = attempt(lambda: core.listSchemata(w.n('.')))
                    same({n: len(v) for n, v in (got or {}).items()}, {'s.xml': 1, 'broken.xml': 1}, 'schemata listed')
                elif op == 'print':
                    got, exc = attempt(lambda: util.printSchemata([w.n('.')], out=w.n('list.txt')))
                    expect(exc is None, 'listing raised', exc)
                    lines = w.read('list.txt').decode().split('\n')
                    expect('s.xml' in lines and lines[-1] == '', 'listing on the disk', lines)
                elif op == 'print stream':
                    out = Sized() if k & 1 else io.StringIO()
                    got, exc = attempt(lambda: util.printSchemata([w.n('.')], out=out))
                    expect(exc is None, 'listing raised', exc)
                    with open(w.p('list.txt'), 'w') as f:
                        util.printSchemata([w.n('.')], out=f)
                        expect(not f.closed, 'a stream of the caller was closed')
                    same(w.read('list.txt').decode(), out.getvalue(), 'listings written to streams')
                    expect('\ns.xml\n' in '\n' + out.getvalue(), 'listing', out.getvalue())
                elif op == 'print full':
                    got, exc = attempt(lambda: util.printSchemata([w.n('.')], out=w.n('/dev/full')))
                    expect(exc is not None, 'a listing that could not be written')
                elif op == 'document':
                    got, exc = attempt(lambda: w.sch.load(w.n('in.ebml'), headers=True))
                    same(held(w.tmp), ['in.ebml'], 'open files of a document')
                    if k & 1:
                        check_tree(iter(got), w.nodes)
                    else:
                        keep.append(attempt(lambda: next(iter(got), None)))
                    if k & 2:
                        got.close()
                    else:
                        def inside(x):
                            with x:
                                yield x
                        it = inside(got)
                        next(it)
                        # the block ends, is left by an exception, or by the end of the generator it is in
                        err = [None, Oddity, GeneratorExit, KeyboardInterrupt, SystemExit, StopIteration, ValueError, OSError][k >> 2 & 7]
                        end = None
                        try:
                            next(it, None) if err is None else it.close() if k & 32 else it.throw(err())
                        except BaseException as e:
                            end = e
                        same(held(w.tmp), [], 'files of a document open after its with statement, left by %r' % (err,))
                        if err is not None and not k & 32 and err is not StopIteration:
                            expect(isinstance(end, err), 'exception in the with statement', err, 'came out as', end)
                        del it, end
                elif op == 'no document':
                    where = ['.', 'none.ebml', 'pipe'][k % 3]
                    if where == 'pipe':
                        if not os.path.exists(w.p('pipe')):
                            os.mkfifo(w.p('pipe'))
                        peer = os.open(w.p('pipe'), os.O_RDWR | os.O_NONBLOCK)     # (opening the pipe does not wait)
                    got, exc = attempt(lambda: w.sch.load(w.n(where)))
                    if where == 'pipe':
                        os.close(peer)
                    expect(exc is not None, 'document from', where)
                elif op == 'threads':
                    got, exc = attempt(lambda: ThreadAwareFile(w.p('in.ebml'), 'rb'))
                    import threading
                    t = [threading.Thread(target=lambda: keep.append(got.read(3))) for _ in range(k % 4)]
                    for x in t:
                        x.start()
                    for x in t:
                        x.join()
                    same(got.read(), w.bytes, 'contents')
                    got.closeAll()
                else:
                    continue
                same(held(w.tmp), [], 'files left open by %s of %s' % (op, name))
                keep.append((got, exc))
                note(op)
            keep.clear()
            got = exc = None
            same([m for m in watch.left() if 'in.ebml' not in m], [], 'unclosed files')
        note.nt(len(ops) > 1)
    finally:
        w.end()


def tools(case, note):
    """The tools' output files: complete, or the failure reported."""
    world, tool, full, pick = case
    w = World(world)
    try:
        src = {'xml2ebml': 'in.xml', 'ebml2xml': 'in.ebml', 'view': 'in.ebml', 'list': None}[tool]
        args = [w.p(src), w.p('s.xml')] if src else [w.tmp]
        out = '/dev/full' if full else w.p('out')
        opts = ['-o', out]
        if tool != 'list':
            opts.append('-c')
        if tool == 'ebml2xml':
            opts += [[], ['-s'], ['-m']][pick % 3]
        if not any(n.t in ('str', 'uni') and any(c < 32 for c in n.payload) for n in ref.flat(w.nodes)) or tool != 'ebml2xml':
            code, text = run(tool, args + opts, w.tmp, process=pick % 16 == 0)
            empty = full and tool == 'xml2ebml' and not w.want
            if full:
                expect(code != 0 or empty, tool, 'reports success though nothing could be written')
            else:
                same(code, 0, 'exit status of ' + tool)
                same(held(w.tmp).count('out'), 0, 'output left open')
                data = w.read('out')
                if tool == 'xml2ebml':
                    b = io.BytesIO()
                    util.xml2ebml(w.p('in.xml'), b, w.sch)
                    same(data, b.getvalue(), 'output')
                else:
                    code, text = run(tool, args + opts[2:], w.tmp)
                    same(data, text, 'output file and standard output')
            note('%s %s' % (tool, 'full' if full else 'file'))
        note.nt()
    finally:
        w.end()


WORLD = st.tuples(gen.docs(text=gen.XUNI), st.integers(0, 1), st.booleans()).map(lambda x: x[0] + x[1:])
SUBS = [
    Sub('conversions', conversion, st.tuples(WORLD, st.sampled_from(['xml2ebml', 'xml2ebml', 'loadXml']),
        st.one_of(st.none(), st.sampled_from(FAULTS)), st.integers(0, 31)), quick=700, thorough=15000, shards=4,
        rule='random documents as XML, by name, with a fault or none'),
    Sub('streams', streams, st.tuples(WORLD, st.sampled_from(['xml2ebml', 'loadXml']), st.one_of(
        st.none(), st.sampled_from(['truncated', 'root', 'name', 'value', 'id'])), st.integers(0, 1)), quick=300, thorough=6000,
        shards=2, rule='the same with streams of the caller'),
    Sub('sources', sources, st.tuples(WORLD, st.lists(st.tuples(st.sampled_from(
        ['load', 'reload', 'Schema', 'stream', 'list', 'print', 'print full', 'print stream', 'document', 'no document', 'threads']),
        st.integers(0, 59)), min_size=1, max_size=8)), quick=300, thorough=6000, shards=2, rule='random histories of openings by name'),
    Sub('tools', tools, st.tuples(WORLD, st.sampled_from(['xml2ebml', 'ebml2xml', 'view', 'list']), st.booleans(),
        st.integers(0, 63)), quick=160, thorough=3000, shards=2, rule='random documents through the command-line tools'),
]
ASSUMPTIONS = ['a document that is dropped without being closed is the caller\'s (the tools do so)',
               'when a conversion fails, what was written may be kept']
