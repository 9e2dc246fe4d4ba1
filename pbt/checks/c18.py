"""C18: one shared ThreadAwareFile used by several threads: random histories of operations (threads starting and ending in
between) compared, operation by operation, with a private file of each thread; random schedules that switch threads between
lines or bytecodes of the library; writing modes and methods; non-trivial = at least two threads that both read."""
import gc
import os
import queue
import random
import shutil
import sys
import tempfile
import threading

from hypothesis import strategies as st

from .. import gen, ref
from ..lib import check_tree, raises, schema
from ..run import Sub, expect, same
from .c08 import streams
from .c16 import fds
from ebmlite import core, threaded_file
from ebmlite.threaded_file import ThreadAwareFile

# ---------------------------------------------------------------- operations


def act(op, f, its):
    """Perform an operation on a file; its: the iterator of this thread."""
    k, a = op
    if k == 'read':
        return f.read(a)
    if k == 'readall':
        return f.read()
    if k == 'readall()':
        return f.readall()
    if k == 'readline':
        return f.readline() if a is None else f.readline(a)
    if k == 'readlines':
        return f.readlines() if a is None else f.readlines(a)
    if k == 'readinto':
        b = bytearray(b'.' * a)
        return (f.readinto(b), bytes(b))
    if k == 'seek':
        return f.seek(*a)
    if k == 'tell':
        return f.tell()
    if k == 'next':
        if its.get('it') is None:
            its['it'] = iter(f)
        return next(its['it'], None)
    if k == 'next()':
        return next(f, None)
    if k == 'for':
        out = []
        for line in f:
            out.append(line)
            if len(out) > a:
                break
        return out
    if k == 'attr':
        return (f.readable(), f.writable(), f.seekable(), f.closed, f.name, f.mode, f.isatty(), f.flush())
    if k == 'descriptor':
        return os.lseek(f.fileno(), 0, os.SEEK_CUR)
    raise ValueError(k)


def attempt(op, f, its):
    try:
        return ('value', act(op, f, its))
    except Exception as e:
        return ('raised', type(e).__name__)


class Reader:
    """What one thread knows: the shared file and its own private one."""
    def __init__(self, f, path):
        self.f, self.path, self.ref = f, path, None
        self.its, self.rits = {}, {}

    def step(self, op, who):
        if self.ref is None:
            self.ref = open(self.path, 'rb', buffering=0)
        want = attempt(op, self.ref, self.rits)
        got = attempt(op, self.f, self.its)
        same(got, want, 'thread %s, %r' % (who, op))

    def done(self):
        self.its.clear()
        self.rits.clear()
        if self.ref is not None:
            self.ref.close()


class Worker:
    """A thread that performs calls on request, one at a time."""
    def __init__(self):
        self.q, self.out = queue.Queue(), queue.Queue()
        self.t = threading.Thread(target=self.run, daemon=True)
        self.t.start()

    def run(self):
        while True:
            fn = self.q.get()
            if fn is None:
                return
            try:
                self.out.put((fn(), None))
            except BaseException as e:
                self.out.put((None, e))

    def call(self, fn):
        self.q.put(fn)
        try:
            r, e = self.out.get(timeout=30)
        except queue.Empty:
            raise AssertionError('an operation blocked for 30 s')
        if e is not None:
            raise e
        return r

    def end(self):
        self.q.put(None)
        self.t.join(30)


def history(case, note):
    content, how, ops = case
    tmp = tempfile.mkdtemp(prefix='pbt')
    path = os.path.join(tmp, 'f.bin')
    with open(path, 'wb') as f:
        f.write(content)
    workers, readers, closed = {}, {}, set()
    readers_used = set()
    f = None
    try:
        def worker(i):
            if i not in workers:
                workers[i] = Worker()
            return workers[i]

        def create():
            if how == 'new':
                return ThreadAwareFile(path)
            if how == 'mode':
                return ThreadAwareFile(path, 'rb')
            if how == 'keyword':
                return ThreadAwareFile(path, mode='r')
            if how == 'keywords':
                return ThreadAwareFile(file=path, mode='rb', timeout=30.0)
            g = open(path, 'rb', buffering=0 if how == 'made raw' else -1)
            t = ThreadAwareFile.makeThreadAware(g)
            expect(ThreadAwareFile.makeThreadAware(t) is t, 'makeThreadAware of a ThreadAwareFile')
            return t
        f = worker(0).call(create)
        if len(ops) % 2:
            # in a thread that has not used it
            expect(worker(1).call(lambda: ThreadAwareFile.makeThreadAware(f)) is f, 'makeThreadAware of a ThreadAwareFile')
        epoch = {}
        for i, k, a in ops:
            if k == 'end':
                if i in workers:
                    workers.pop(i).end()
                    r = readers.pop(i, None)
                    if r:
                        r.done()
                    closed.discard(i)
                    epoch[i] = epoch.get(i, 0) + 1
                    note('thread ended')
                continue
            if k == 'closeAll':
                continue        # at the end
            if i in closed:
                continue        # a file closed by a thread is not read by it
            if how == 'made' and k in ('readall()', 'descriptor'):
                continue        # buffered files differ in these
            w = worker(i)
            r = readers.get(i)
            if r is None:
                r = readers[i] = Reader(f, path)
            if k in ('close', 'with'):
                def leave():
                    with f as g:
                        expect(g is f, 'with gives another object')
                        r.step(('tell', None), i)
                        r.step(('read', 1), i)
                        if a:
                            raise KeyError(a)
                if k == 'with':
                    e = w.call(lambda: raises(leave))
                    expect(e is None if not a else isinstance(e, KeyError), 'with raised', e)
                    readers_used.add((i, epoch.get(i, 0)))
                    note('with')
                else:
                    e = w.call(lambda: raises(f.close))
                    expect(e is None, 'close in thread', i, 'raised', e)
                expect(w.call(lambda: f.closed), 'file not closed in thread', i)
                expect('closed' in w.call(lambda: repr(f)), 'repr of a closed file')
                closed.add(i)
                note('closed in a thread')
                continue
            w.call(lambda: r.step((k, a), i))
            readers_used.add((i, epoch.get(i, 0)))
            note(k)
        live = [i for i in readers if i not in closed]
        for i in live:
            used = readers[i].ref is not None
            if used:
                text = workers[i].call(lambda: repr(f))
                expect('ThreadAwareFile' in text and repr(path) in text and 'closed' not in text, 'repr of an open file', text)
                expect(not workers[i].call(lambda: f.closed), 'file is closed in thread', i)
        if any(k == 'closeAll' for _, k, _ in ops):
            by = ops[-1][0]
            e = worker(by).call(lambda: raises(f.closeAll))
            expect(e is None, 'closeAll raised', e)
            for i in live:
                expect(workers[i].call(lambda: f.closed), 'file not closed in thread', i, 'after closeAll')
            for i, r in readers.items():
                r.done()
            gc.collect()
            same(fds(path), 0, 'open descriptors after closeAll')
            note('closeAll')
        with open(path, 'rb') as g:
            same(g.read(), content, 'the file on disk')
        note('how ' + how)
        note.nt(len(readers_used) > 1)
    finally:
        for r in readers.values():
            r.done()
        if f is not None:
            try:
                f.closeAll()
            except Exception:
                pass
        for w in workers.values():
            w.end()
        shutil.rmtree(tmp, ignore_errors=True)


CONTENT = st.one_of(st.binary(max_size=60), st.lists(st.binary(max_size=9), max_size=12).map(b'\n'.join),
                    st.sampled_from([b'', b'\n', b'\n' * 9, b'abc' * 3000 + b'\nxyz\n' * 50, bytes(range(256))]))
SMALL = st.one_of(st.integers(0, 20), st.just(-1), st.just(5000))
OP = st.one_of(
    st.tuples(st.just('read'), SMALL), st.tuples(st.just('read'), st.integers(1, 9)),
    st.tuples(st.sampled_from(['readall', 'readall()', 'tell', 'attr', 'next', 'next()', 'tell', 'next', 'descriptor']),
              st.none()),
    st.tuples(st.just('readline'), st.one_of(st.none(), SMALL)),
    st.tuples(st.just('readlines'), st.one_of(st.none(), st.integers(0, 20))),
    st.tuples(st.just('readinto'), st.integers(0, 30)), st.tuples(st.just('for'), st.integers(0, 4)),
    st.tuples(st.just('seek'), st.one_of(
        st.tuples(st.integers(-1, 40)), st.tuples(st.integers(0, 40), st.just(0)),
        st.tuples(st.integers(-5, 9), st.just(1)), st.tuples(st.integers(-20, 3), st.just(2)))))


@st.composite
def histories(draw):
    n = draw(st.integers(2, 4))
    who = st.integers(0, n - 1)
    op = st.one_of(*[st.tuples(who, OP).map(lambda x: (x[0],) + x[1])] * 9,
                   st.tuples(who, st.just('close'), st.none()), st.tuples(who, st.just('with'), st.booleans()), st.tuples(who, st.just('end'), st.none()))
    ops = draw(st.lists(op, min_size=2, max_size=24))
    if draw(st.booleans()):
        ops.append((draw(who), 'closeAll', None))
    return draw(CONTENT), draw(st.sampled_from(['new', 'new', 'mode', 'keyword', 'keywords', 'made', 'made raw'])), ops


# ---------------------------------------------------------------- schedules

FILES = {os.path.realpath(threaded_file.__file__), os.path.realpath(core.__file__)}


class Schedule:
    """Runs functions in threads; at every line (or bytecode) of the given files the running thread stops with a given
    probability and another one, chosen at random, goes on.  A thread that blocks in the code under test is left to
    itself until it gets on, so that locks and events behave as they do in fact."""
    PATIENCE = 0.02

    def __init__(self, seed, odds, files, opcodes):
        self.rnd, self.odds, self.files, self.opcodes = random.Random(seed), odds, files, opcodes
        self.cv = threading.Condition()
        self.state = {}         # worker -> 'parked', 'running', 'blocked', 'done'
        self.errors = []
        self.switches = 0

    def trace(self, frame, event, arg):
        if os.path.realpath(frame.f_code.co_filename) not in self.files:
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        return self.local

    def local(self, frame, event, arg):
        if event == ('opcode' if self.opcodes else 'line') and self.rnd.random() < self.odds:
            self.park()
        return self.local

    def park(self):
        me = threading.current_thread()
        with self.cv:
            self.state[me] = 'parked'
            self.switches += 1
            self.cv.notify_all()
            while self.state[me] == 'parked':
                if not self.cv.wait(60):
                    raise AssertionError('schedule stuck')

    def body(self, fn):
        me = threading.current_thread()
        self.park()
        sys.settrace(self.trace)
        try:
            fn()
        except BaseException as e:
            self.errors.append(e)
        finally:
            sys.settrace(None)
            with self.cv:
                self.state[me] = 'done'
                self.cv.notify_all()

    def run(self, fns):
        ts = [threading.Thread(target=self.body, args=(fn,), daemon=True) for fn in fns]
        for t in ts:
            self.state[t] = 'new'
        for t in ts:
            t.start()
        with self.cv:
            while any(self.state[t] == 'new' for t in ts):
                self.cv.wait(30)
            while True:
                if self.errors:
                    # let the others finish
                    self.odds = 0
                parked = [t for t in ts if self.state[t] == 'parked']
                if not parked:
                    if all(self.state[t] == 'done' for t in ts):
                        break
                    if not self.cv.wait(30):
                        raise AssertionError('threads are blocked for 30 s')
                    continue
                t = parked[self.rnd.randrange(len(parked))]
                self.state[t] = 'running'
                self.cv.notify_all()
                if not self.cv.wait_for(lambda: self.state[t] != 'running', self.PATIENCE):
                    self.state[t] = 'blocked'
        for t in ts:
            t.join(30)
        if self.errors:
            raise self.errors[0]
        return self.switches


def interleaved(case, note):
    """Programs of operations, threads switched inside of the library."""
    content, programs, seed, odds, opcodes, first = case
    tmp = tempfile.mkdtemp(prefix='pbt')
    path = os.path.join(tmp, 'f.bin')
    with open(path, 'wb') as f:
        f.write(content)
    f = ThreadAwareFile(path)
    readers = []
    try:
        if first is not None:
            f.seek(first)

        def program(i, ops):
            r = Reader(f, path)
            readers.append(r)

            def go():
                for op in ops:
                    if op[0] == 'close':
                        f.close()
                        expect(f.closed, 'file not closed in thread', i)
                        return
                    r.step(op, i)
            return go
        s = Schedule(seed, odds, FILES, opcodes)
        n = s.run([program(i, p) for i, p in enumerate(programs)])
        if first is not None:
            same(f.tell(), first, 'position of the main thread')
        f.closeAll()
        for r in readers:
            r.done()
        gc.collect()
        same(fds(path), 0, 'open descriptors after closeAll')
        note('switches > 20' if n > 20 else 'switches <= 20')
        note('opcodes' if opcodes else 'lines')
        note.nt(sum(any(op[0] != 'close' for op in p) for p in programs) > 1 and n > 4)
    finally:
        for r in readers:
            r.done()
        f.closeAll()
        shutil.rmtree(tmp, ignore_errors=True)


@st.composite
def interleavings(draw):
    op = st.one_of(*[OP] * 6, st.tuples(st.just('close'), st.none()))
    programs = draw(st.lists(st.lists(op, min_size=1, max_size=5), min_size=2, max_size=4))
    return (draw(CONTENT), programs, draw(st.integers(0, 10**6)), draw(st.sampled_from([0.3, 0.7, 1.0])),
            draw(st.booleans()), draw(st.one_of(st.none(), st.integers(0, 9))))


def closings(case, note):
    """Several threads that have used the file close it at the same time."""
    uses, acts, seed, odds, opcodes = case
    tmp = tempfile.mkdtemp(prefix='pbt')
    path = os.path.join(tmp, 'f.bin')
    with open(path, 'wb') as f:
        f.write(b'0123456789' * 10)
    f = ThreadAwareFile(path)
    closed = {}
    try:
        def program(i, a):
            def go():
                if uses[i % len(uses)]:
                    same(f.read(i + 1), (b'0123456789' * 2)[:i + 1], 'read')
                if a == 'close':
                    f.close()
                    closed[i] = f.closed
                elif a == 'closeAll':
                    f.closeAll()
                elif a == 'twice':
                    f.close()
                    f.close()
                    closed[i] = f.closed
                elif a == 'query':
                    f.closed
                    repr(f)
            return go
        s = Schedule(seed, odds, FILES, opcodes)
        s.run([program(i, a) for i, a in enumerate(acts)])
        expect(all(closed.values()), 'closed after close:', closed)
        f.closeAll()
        gc.collect()
        same(fds(path), 0, 'open descriptors after closeAll')
        note(' '.join(sorted(set(acts))))
        note.nt(len([a for a in acts if a != 'query']) > 1)
    finally:
        f.closeAll()
        shutil.rmtree(tmp, ignore_errors=True)


@st.composite
def closing_cases(draw):
    acts = draw(st.lists(st.sampled_from(['close', 'close', 'twice', 'query']), min_size=2, max_size=4))
    uses = [True] * len(acts)
    if draw(st.booleans()):
        # threads that may be overtaken by closeAll only close, they do not read
        acts.append('closeAll')
        uses = [False] * len(acts)
    return uses, acts, draw(st.integers(0, 10**6)), draw(st.sampled_from([0.3, 0.7, 1.0])), draw(st.booleans())


def crawl(case, note):
    """Threads walk one document (or elements of it) at the same time."""
    (lit, trees), n, seed, odds, share = case
    spec = ref.Spec(lit)
    sch = schema(spec)
    data, nodes = ref.write_doc(trees, spec)
    tmp = tempfile.mkdtemp(prefix='pbt')
    path = os.path.join(tmp, 'f.ebml')
    with open(path, 'wb') as g:
        g.write(data)
    f = ThreadAwareFile(path)
    try:
        doc = sch.load(f, headers=True)
        els = list(doc) if share else None

        def program(i):
            def go():
                if els is None:
                    check_tree(iter(doc), nodes, where='thread %d: ' % i)
                else:
                    check_tree(els if i % 2 else els[::-1], nodes if i % 2 else nodes[::-1], where='thread %d: ' % i)
                    for e, m in zip(els, nodes):
                        same(bytes(e.getRaw()), data[m.offset:m.end], 'thread %d: raw bytes of %r' % (i, m))
            return go
        s = Schedule(seed, odds, FILES, False)
        k = s.run([program(i) for i in range(n)])
        check_tree(iter(doc), nodes, where='afterwards: ')
        note('shared elements' if share else 'shared document')
        note('switches > 100' if k > 100 else 'switches <= 100')
        note.nt(k > 10 and nodes)
    finally:
        f.closeAll()
        shutil.rmtree(tmp, ignore_errors=True)


def turnover(case, note):
    """Threads one after the other, each starting at 0; their idents are likely to be reused."""
    n, k, close = case
    note.nt()
    tmp = tempfile.mkdtemp(prefix='pbt')
    path = os.path.join(tmp, 'f.bin')
    with open(path, 'wb') as g:
        g.write(bytes(range(200)))
    f = ThreadAwareFile(path)
    try:
        f.seek(50)
        bad = []

        def go(i):
            try:
                same(f.tell(), 0, 'position in thread %d' % i)
                same(f.read(k), bytes(range(k)), 'read in thread %d' % i)
                same(f.tell(), k, 'position in thread %d' % i)
                if close and i % 2:
                    f.close()
            except BaseException as e:
                bad.append(e)
        for i in range(n):
            t = threading.Thread(target=go, args=(i,))
            t.start()
            t.join()
            del t
        if bad:
            raise bad[0]
        same(f.tell(), 50, 'position in the first thread')
    finally:
        f.closeAll()
        shutil.rmtree(tmp, ignore_errors=True)


def crowd(case, note):
    """Many threads that use the file at a time, each at a position of its own."""
    n, how = case
    note.nt()
    content = bytes(i * i % 251 for i in range(8 * n + 40))
    tmp = tempfile.mkdtemp(prefix='pbt')
    path = os.path.join(tmp, 'f.bin')
    workers, f = [], None
    try:
        with open(path, 'wb') as g:
            g.write(content)
        f = ThreadAwareFile(path)
        f.seek(3)
        workers += [Worker() for _ in range(n)]
        for i, w in enumerate(workers):
            same(w.call(lambda: (f.tell(), f.seek(i * 8), f.read(4))), (0, i * 8, content[i * 8:i * 8 + 4]), 'first use in thread %d' % i)
        for i, w in list(enumerate(workers))[::-1]:
            same(w.call(lambda: (f.tell(), f.read(3), f.closed)), (i * 8 + 4, content[i * 8 + 4:i * 8 + 7], False),
                 'second use in thread %d' % i)
        if how == 'one':
            workers[n // 2].call(f.close)
        elif how == 'ended':
            for w in workers[::2]:
                w.end()
            workers[::2] = [Worker() for _ in workers[::2]]
        for i, w in enumerate(workers):
            if how == 'one' and i == n // 2:
                expect(w.call(lambda: f.closed), 'not closed in the thread that closed it')
                continue
            at = 0 if how == 'ended' and i % 2 == 0 else i * 8 + 7
            same(w.call(lambda: (f.tell(), f.read(2))), (at, content[at:at + 2]), 'third use in thread %d' % i)
        same((f.tell(), f.read(2)), (3, content[3:5]), 'use in the first thread')
        f.closeAll()
        for i, w in enumerate(workers):
            expect(w.call(lambda: f.closed), 'not closed in thread %d' % i)
        expect(f.closed, 'not closed in the first thread')
    finally:
        for w in workers:
            w.end()
        if f is not None:
            f.closeAll()
        shutil.rmtree(tmp, ignore_errors=True)


# ---------------------------------------------------------------- no writing

MODES = ['w', 'wb', 'bw', 'w+', 'wb+', 'w+b', 'a', 'ab', 'a+', 'ab+', 'x', 'xb', 'x+', 'r+', 'rb+', 'r+b', '+r', 'br+', 'wt',
         'at', 'rw', 'rwb', 'ra', 'rx', 'U+', 'rU+', '+', '']


def modes(case, note):
    mode, passing, exists, content = case
    tmp = tempfile.mkdtemp(prefix='pbt')
    path = os.path.join(tmp, 'f.bin')
    f = None
    try:
        if exists:
            with open(path, 'wb') as g:
                g.write(content)
        before = os.stat(path) if exists else None
        e = None
        try:
            if passing == 'positional':
                f = ThreadAwareFile(path, mode)
            elif passing == 'keyword':
                f = ThreadAwareFile(path, mode=mode)
            elif passing == 'file keyword':
                f = ThreadAwareFile(file=path, mode=mode)
            elif passing == 'timeout':
                f = ThreadAwareFile(path, mode=mode, timeout=1.0)
            elif passing == 'closefd':
                f = ThreadAwareFile(path, mode, True)
        except Exception as x:
            e = x
        same(os.path.exists(path), exists, 'existence of the file')
        if exists:
            with open(path, 'rb') as g:
                same(g.read(), content, 'contents of the file')
            same(os.stat(path).st_mtime_ns, before.st_mtime_ns, 'time of the file')
        writing = any(c in mode for c in 'wax+')
        if writing:
            expect(e is not None, 'mode', mode, passing, 'was accepted')
        elif mode in ('r', 'rb') and exists:
            expect(e is None, 'mode', mode, 'raised', e)
        if f is not None:
            refused(f, path, content)
        note(('writing ' if writing else 'other ') + passing)
        note.nt(writing)
    finally:
        if f is not None:
            f.closeAll()
        shutil.rmtree(tmp, ignore_errors=True)


def refused(f, path, content):
    errors = []

    def go():
        try:
            for name, args in (('write', (b'x',)), ('write', (b'',)), ('writelines', ([b'x'],)), ('writelines', ([],)),
                               ('truncate', ()), ('truncate', (1,)), ('truncate', (None,))):
                try:
                    getattr(f, name)(*args)
                except Exception:
                    continue
                raise AssertionError('%s%r was accepted' % (name, args))
            same(f.writable(), False, 'writable')
            same(f.read(), content, 'read after refused writing')
        except BaseException as e:
            errors.append(e)
    go()
    t = threading.Thread(target=go)
    t.start()
    t.join()
    if errors:
        raise errors[0]
    with open(path, 'rb') as g:
        same(g.read(), content, 'contents of the file')


def writing(case, note):
    """Streams made thread-aware, or opened to read, do not write."""
    how, mode, content = case
    tmp = tempfile.mkdtemp(prefix='pbt')
    path = os.path.join(tmp, 'f.bin')
    note.nt()
    try:
        with open(path, 'wb') as g:
            g.write(content)
        if how == 'open':
            f = ThreadAwareFile(path, *([mode] if mode else []))
            refused(f, path, content)
            f.closeAll()
        elif how == 'made':
            with open(path, mode) as g:
                if any(c in mode for c in 'wax+'):
                    content = content if mode != 'wb' else b''
                    expect(raises(lambda: ThreadAwareFile.makeThreadAware(g)) is not None,
                           'file of mode', mode, 'was made thread-aware')
                else:
                    f = ThreadAwareFile.makeThreadAware(g)
                    refused(f, path, content)
                    f.closeAll()
            with open(path, 'rb') as g:
                same(g.read(), content, 'contents of the file')
        elif how == 'foreign':
            for x in (b'abc', 5, None, path, [], object()):
                expect(raises(lambda: ThreadAwareFile.makeThreadAware(x)) is not None, 'made thread-aware', repr(x))
        elif how == 'with':
            with ThreadAwareFile(path) as f:
                same(f.read(2), content[:2], 'read')
                res = []
                t = threading.Thread(target=lambda: res.append(f.read(3)))
                t.start()
                t.join()
                same(res, [content[:3]], 'read in another thread')
                same(f.read(), content[2:], 'read')
            expect(f.closed, 'not closed by with')
            f.closeAll()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


DOCS = st.one_of(gen.docs(max_nodes=10, max_kids=4), gen.docs(max_nodes=10, max_kids=4), streams().filter(
    lambda d: gen.count(d[1]) < 30))
SUBS = [
    Sub('histories', history, histories(), quick=1200, thorough=30000, shards=3,
        rule='random operations of 2 to 4 threads, one at a time'),
    Sub('interleavings', interleaved, interleavings(), quick=900, thorough=25000, shards=4,
        rule='random programs, threads switched between lines or bytecodes of the library'),
    Sub('closings', closings, closing_cases(), quick=400, thorough=10000, shards=2,
        rule='concurrent close and closeAll'),
    Sub('documents', crawl, st.tuples(DOCS, st.integers(2, 3), st.integers(0, 10**6), st.sampled_from([0.1, 0.4, 1.0]),
                                      st.booleans()), quick=200, thorough=6000, shards=4,
        rule='random documents walked by two or three threads at once'),
    Sub('turnover', turnover, cases=lambda: [(n, k, c) for n in (3, 30) for k in (1, 7) for c in (False, True)], shards=1,
        rule='enumerated: threads one after the other'),
    Sub('crowd', crowd, cases=lambda: [(n, h) for n in (5, 40, 120) for h in ('all', 'one', 'ended')], shards=1,
        rule='enumerated: many threads at a time'),
    Sub('modes', modes, st.tuples(st.one_of(st.sampled_from(MODES + ['r', 'rb']), st.text(
        st.sampled_from('rwaxb+tU'), max_size=4)), st.sampled_from(['positional', 'keyword', 'timeout', 'closefd', 'file keyword']),
        st.booleans(), st.binary(min_size=1, max_size=9)), quick=800, thorough=10000, shards=1,
        rule='random mode strings and ways of passing them'),
    Sub('writing', writing, cases=lambda: [('open', m, b'content\n') for m in ('', 'r', 'rb')] + [
        ('made', m, b'content\n') for m in ('rb', 'rb+', 'ab', 'wb', 'r+', 'ab+')] + [('foreign', '', b'x'), ('with', '', b'abcdefg')],
        shards=1, rule='enumerated writing methods and sources'),
]
ASSUMPTIONS = ['what a thread reads after it has closed the file is not specified',
               'the working directory stays the same while a file named by a relative path is in use',
               'a file opened by path (streams of one descriptor share its position)',
               'reads that overlap with closeAll in another thread are not checked']
