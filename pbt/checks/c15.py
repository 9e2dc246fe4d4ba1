"""C15: histories of schema loads (by base name, path, other spellings, module), parses, reloads and failures over a random
search path of scratch directories and modules, against a model of the files; non-trivial = a base name found in several
places, a second load of a loaded file, or a failure in between."""
import importlib
import io
import itertools
import json
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

from hypothesis import strategies as st

from ..lib import raises
from ..run import REPO, Sub, expect, same
from ebmlite import core

# directories of a case: name -> (path below the scratch directory, module or None)
DIRS = ['cwd', 'd0', 'd1', 'deep/d2', 'mod', 'mod/sub', 'mod/data']
# Directories whose names are not like those of the others
REAL = {'d1': 'd1{', 'deep/d2': 'de{e}p/d}2', 'mod/data': 'mod/da}t{a}'}
NAMES = ['a.xml', 'b.xml', 'c.d.xml', 'UP.XML', 'sp ace.xml', 'x{1}.xml']
_count = itertools.count()


def contents(marker, flaw=None, doctype=''):
    if flaw == 'cut':
        return '<Schema><UIntegerElement name="A" id="0x81"'
    if flaw == 'empty':
        return ''
    if flaw == 'garbage':
        return '\x00\x01\x02 not xml'
    if flaw == 'root':
        return '<Other/>'
    if flaw == 'type':
        return '<Schema><FooElement name="A" id="0x81"/></Schema>'
    if flaw == 'clash':
        return ('<Schema><UIntegerElement name="A" id="0x81"/><MasterElement name="M" id="0x82">'
                '<BinaryElement name="A" id="0x81"/></MasterElement></Schema>')
    if flaw == 'encoding':
        return '<?xml version="1.0" encoding="no-such"?><Schema/>'
    return ('<?xml version="1.0"?>\n<Schema><UIntegerElement name="M%d" id="0x%X" multiple="1"/>'
            '<MasterElement name="R" id="0x81">\xe9<UIntegerElement name="M%d"/></MasterElement>%s</Schema>'
            % (marker, 0x4080 + marker, marker,
               doctype and '<StringElement name="DocType" id="0x4282" default="%s"/>' % doctype))


def marker(sch):
    ids = [i for i, e in sch.elements.items() if e.name not in ('R', 'DocType')]
    same(len(ids), 1, 'number of elements of the loaded schema')
    return ids[0] - 0x4080


class World:
    def __init__(self, files, path, extra):
        self.root = os.path.realpath(tempfile.mkdtemp(prefix='pbt'))
        self.mod = 'pbtmod_%d_%d' % (os.getpid(), next(_count))
        self.files = {}         # (dir, name) -> marker or flaw
        self.cached = {}        # (dir, name) -> Schema
        self.named = {}         # name given to parseSchema -> Schema
        for d in DIRS:
            os.makedirs(self.dir(d), exist_ok=True)
        for m in ('mod', 'mod/sub'):
            open(os.path.join(self.dir(m), '__init__.py'), 'w').close()
        for i, (d, n, flaw) in enumerate(files):
            if (d, n) not in self.files:
                self.write(d, n, i + 1 if flaw is None else flaw)
        for d, n in extra:
            p = os.path.join(self.dir(d), n)
            if n == 'dir.xml' or n in NAMES:
                if (d, n) not in self.files:
                    os.mkdir(p)     # a directory with the name of a schema
            else:
                with open(p, 'wb') as f:
                    f.write(dict({'legacy.xml': b'<table/>', 'bin.xml': b'\x00\xff' * 9, 'void.xml': b'',
                                  'enc.xml': b'<?xml version="1.0" encoding="utf-7x"?><Schema/>',
                                  'wide.xml': b'<?xml version="1.0" encoding="utf-32"?><Schema/>',
                                  'latin.xml': b'<?xml version="1.0" encoding="utf-8"?><Schema>\xe9</Schema>',
                                  'notes.txt': b'<Schema/>', 'svg.xml': b'<svg/>', 'noext': b'<Schema/>'})[n])
        self.path = path

    def dir(self, d):
        d = REAL.get(d, d)
        return os.path.join(self.root, self.mod if d == 'mod' else d.replace('mod/', self.mod + '/'))

    def file(self, d, n):
        return os.path.join(self.dir(d), n)

    def write(self, d, n, what):
        self.files[d, n] = what
        text = contents(what) if isinstance(what, int) else contents(0, what)
        enc = 'utf-8'
        if isinstance(what, int) and what % 4:
            enc = (None, 'utf-16', 'iso-8859-1', 'cp1252')[what % 4]
            text = text.replace('"1.0"?', '"1.0" encoding="%s"?' % enc)
        with open(self.file(d, n), 'w', encoding=enc) as f:
            f.write(text)

    def entry(self, e):
        """An entry of the search path, from (kind, dir)."""
        k, d = e
        if k == 'cwd':
            return ''
        if k == 'str':
            return self.dir(d)
        if k == 'path':
            return Path(self.dir(d))
        if k == 'rel':
            return os.path.relpath(self.dir(d), self.dir('cwd'))
        if k == 'module':
            return {'mod': '{%s}', 'mod/sub': '{%s.sub}', 'mod/data': '{%s}/da}t{a}'}[d] % self.mod
        if k == 'instance':
            return importlib.import_module(self.mod + ('.sub' if d == 'mod/sub' else ''))
        if k == 'missing':
            return os.path.join(self.root, 'nowhere')
        if k == 'nomodule':
            return '{pbt_no_such_module}'
        raise ValueError(k)

    def expand(self, p):
        """A listed name as a path; '{package.module}/x' is in that module's directory."""
        if not p.startswith('{'):
            return p
        m, rest = p[1:].split('}', 1)
        return os.path.join(self.root, *m.split('.')) + rest

    def search(self, entries, n):
        """Where a base name is found; the current directory is tried first."""
        for k, d in [('cwd', 'cwd')] + [e for e in entries if e[0] not in ('missing', 'nomodule')]:
            if (d, n) in self.files:
                return d
        return None

    def spell(self, how, d, n):
        p = self.file(d, n)
        rel = os.path.relpath(p, self.dir('cwd'))
        if how == 'abs':
            return p
        if how == 'pathlib':
            return Path(p)
        if how == 'pure':
            return pathlib.PurePosixPath(p)
        if how == 'rel':
            return rel if os.sep in rel else './' + rel
        if how == 'dotrel':
            return os.path.join(self.dir(d), '..', os.path.basename(self.dir(d)), '.', n)
        if how == 'home':
            return '~/' + os.path.relpath(p, self.root)
        if how == 'link':
            ln = os.path.join(self.root, 'link%d' % DIRS.index(d))
            if not os.path.lexists(ln):
                os.symlink(self.dir(d), ln)
            return os.path.join(ln, n)
        if how == 'module':
            if not d.startswith('mod'):
                return p
            return self.entry(('module', d)) + '/' + n
        raise ValueError(how)

    def __enter__(self):
        self.saved = (os.getcwd(), dict(core.SCHEMATA), list(core.SCHEMA_PATH), os.environ.get('HOME'))
        sys.path.insert(0, self.root)
        importlib.invalidate_caches()
        os.chdir(self.dir('cwd'))
        os.environ['HOME'] = self.root
        core.SCHEMATA.clear()
        core.SCHEMA_PATH[:] = [self.entry(e) for e in self.path]
        return self

    def __exit__(self, *a):
        os.chdir(self.saved[0])
        core.SCHEMATA.clear()
        core.SCHEMATA.update(self.saved[1])
        core.SCHEMA_PATH[:] = self.saved[2]
        if self.saved[3] is None:
            os.environ.pop('HOME', None)
        else:
            os.environ['HOME'] = self.saved[3]
        sys.path.remove(self.root)
        for m in [m for m in sys.modules if m.split('.')[0] == self.mod]:
            del sys.modules[m]
        shutil.rmtree(self.root, ignore_errors=True)


def got(w, where, reload, call, what):
    """`call` loads file `where`; compare with the model, and update it."""
    d = w.files[where]
    old = w.cached.get(where)
    if old is not None and not reload:
        s = call()
        expect(s is old, what, ': another object than the one loaded before')
        return 'again'
    if not isinstance(d, int):
        e = raises(call)
        expect(e is not None, what, ': a faulty schema was loaded')
        return 'faulty'
    s = call()
    same(marker(s), d, what + ': contents')
    expect(all(s is not o for o in w.cached.values()), what, ': not a new object')
    if old is not None:
        expect(s is not old, what, ': reload returned the old object')
        if marker(old) == d:
            expect(s == old and old == s, what, ': reloaded schema differs')
    w.cached[where] = s
    return 'reloaded' if old is not None else 'loaded'


def listing(w, entries):
    out = {}
    for e in entries:
        if e[0] in ('missing', 'nomodule'):
            continue
        for (d, n), c in w.files.items():
            if d == e[1] and (isinstance(c, int) or c in ('type', 'clash')):
                out.setdefault(n, []).append(os.path.realpath(w.file(d, n)))
    return out


def check(case, note):
    files, path, extra, ops = case
    interesting = 0
    with World(files, path, extra) as w:
        for op in ops:
            k = op[0]
            what = repr(op)
            if k == 'base':
                _, n, reload = op
                d = w.search(path, n)
                if d is None:
                    e = raises(lambda: core.loadSchema(n, reload=reload))
                    expect(isinstance(e, IOError), what, 'missing schema:', e)
                    note('missing')
                    continue
                r = got(w, (d, n), reload, lambda: core.loadSchema(n, **(dict(reload=True) if reload else {})), what)
                if sum((x, n) in w.files for x in DIRS) > 1:
                    note('base name in several places')
                    interesting += 1
                note('base ' + r)
                interesting += r in ('again', 'faulty', 'reloaded')
            elif k == 'file':
                _, i, how, reload = op
                if not w.files:
                    continue
                d, n = sorted(w.files)[i % len(w.files)]
                sp = w.spell(how, d, n)
                kw = dict(reload=True) if reload else {}
                if i % 3 == 1:
                    kw['name'] = 'given %d' % i
                r = got(w, (d, n), reload, lambda: core.loadSchema(sp, **kw), what + ' %s' % sp)
                if 'name' in kw and r in ('loaded', 'reloaded'):
                    same(w.cached[d, n].name, kw['name'], what + ': name')
                note('%s %s' % (how, r))
                interesting += r in ('again', 'faulty', 'reloaded')
            elif k == 'alternative':
                # a name of its own: names are cached whatever path they were searched in
                _, i, kind = op
                n = 'alt%d.xml' % i
                dirs = [d for d in DIRS[1:]]
                d = dirs[i % len(dirs)]
                if (d, n) not in w.files:
                    w.write(d, n, 1000 + i)
                e = {'d0': 'str', 'd1': 'path', 'deep/d2': 'rel'}.get(d, 'module')
                paths = [w.entry(('missing', None)), w.entry((e, d))]
                r = got(w, (d, n), False, lambda: core.loadSchema(n, paths=paths), what)
                note('alternative path ' + r)
            elif k == 'elsewhere':
                # found in the search path, but not in the paths given
                _, i, given = op
                at = [e[1] for e in path if e[0] in ('str', 'path', 'rel', 'module', 'instance')]
                if not at:
                    continue
                d, n = at[i % len(at)], 'only%d.xml' % i
                if (d, n) not in w.files:
                    w.write(d, n, 900 + i)
                others = [w.entry(('missing', None)), w.entry(('nomodule', None))] + [w.dir(x) for x in DIRS[1:] if x != d]
                paths = [others[j] for j in (given, given // 2)][:1 + given % 2]
                if (d, n) in w.cached:
                    continue
                e = raises(lambda: core.loadSchema(n, paths=paths))
                expect(isinstance(e, IOError), what, 'a schema that is not in the paths given:', e)
                got(w, (d, n), False, lambda: core.loadSchema(n), what)
                note('elsewhere')
            elif k == 'bad':
                bad = [w.file('d0', 'nothing.xml'), 'nothing.xml', './nothing.xml', '{pbt_no_such_module}/a.xml',
                       '{unclosed/a.xml', w.dir('d0'), 'no.such.dir/a.xml', Path('nothing.xml')][op[1]]
                e = raises(lambda: core.loadSchema(bad))
                expect(isinstance(e, (IOError, ImportError, ValueError)), what, 'loading', bad, 'gave', e)
                note('refused')
                interesting += 1
            elif k == 'rewrite':
                _, i, flaw = op
                if w.files:
                    where = sorted(w.files)[i % len(w.files)]
                    w.write(*where, 500 + i if flaw is None else flaw)
                    note('rewritten')
            elif k == 'parse':
                _, i, m, reload, bytes_ = op
                n = 'parsed%d' % i
                src = contents(m)
                src = {0: src, 1: src.encode(), 2: io.BytesIO(src.encode()), 3: bytearray(src, 'utf-8')}[bytes_]
                s = core.parseSchema(src, name=n, **(dict(reload=True) if reload else {}))
                old = w.named.get(n)
                if old is None or reload:
                    expect(s is not old, what, ': reload returned the old object')
                    same(marker(s), m, what + ': contents')
                    same(s.name, n, what + ': name')
                    w.named[n] = s
                else:
                    expect(s is old, what, ': another object')
                    interesting += 1
                expect(core.loadSchema(n) is s, what, ': loadSchema with the name of a parsed schema')
                note('parse')
            elif k == 'nameless':
                # takes its name from its document type, or has none
                _, i, m, typed = op
                n = 'parsed%d' % i
                s = core.parseSchema(contents(m, doctype=n if typed else ''))
                if typed and n in w.named:
                    expect(core.loadSchema(n) is s, what, ': later load')
                else:
                    expect(not any(s is x for x in list(w.named.values()) + list(w.cached.values())), what, ': another schema')
                    same(marker(s), m, what + ': contents')
                    if typed:
                        same(s.name, n, what + ': name')
                        expect(core.loadSchema(n) is s, what, ': loadSchema with the document type of a parsed schema')
                        expect(core.parseSchema(contents(m + 1), name=n) is s, what, ': parseSchema with that name')
                    else:
                        again = core.parseSchema(contents(m + 1))
                        expect(again is not s, what, ': the second schema without a name is the first')
                        same(marker(again), m + 1, what + ': contents of the second')
                if typed:
                    w.named[n] = s
                note('parse without a name')
            elif k == 'badparse':
                n = 'parsed%d' % op[1]
                src = contents(0, op[2])
                e = raises(lambda: core.parseSchema(src, name=n, reload=True))
                expect(e is not None, what, ': faulty schema was accepted')
                if n not in w.named:
                    e = raises(lambda: core.loadSchema(n))
                    expect(isinstance(e, IOError), what, ': name of a faulty schema:', e)
                else:
                    expect(core.loadSchema(n) is w.named[n], what, ': later load')
                note('bad parse')
            elif k == 'list':
                absolute = op[1]
                kw = {} if absolute else dict(absolute=False)      # absolute by default
                if op[2]:
                    entries = [e for e in op[2] if e[0] != 'cwd']
                    got_ = core.listSchemata(*[w.entry(e) for e in entries], **kw)
                else:
                    entries = path
                    got_ = core.listSchemata(**kw)
                want = listing(w, entries)
                listed = [k for k, c in w.files.items() if isinstance(c, int) or c in ('type', 'clash')]
                res = {n: [os.path.realpath(w.expand(str(p))) for p in v] for n, v in got_.items()} \
                    if absolute or not any(e[0] == 'instance' for e in entries) else None
                if res is not None:
                    same({n: len(v) for n, v in res.items()}, {n: len(v) for n, v in want.items()}, what + ': schemata')
                    same(res, want, what + ': listing')
                    if absolute:
                        names = [str(p) for v in got_.values() for p in v]
                        expect(all(os.path.isabs(p) for p in names), what, ': not absolute', names)
                else:
                    same(set(got_), set(want), what + ': names')
                if not op[2] and not any(e[0] == 'instance' for e in entries):
                    for n, v in got_.items():
                        d = w.search(path, n)
                        if (d, n) not in listed:    # a faulty file comes first, and is not listed
                            continue
                        same(want[n][0], os.path.realpath(w.file(d, n)), what + ': first')
                        first = raises(lambda: got(w, (d, n), False, lambda: core.loadSchema(n), what))
                        again = raises(lambda: got(w, (d, n), False, lambda: core.loadSchema(str(v[0])), what))
                        expect(first is None and again is None, what, first, again)
                note('listing of %s' % ('several' if len(want) > 1 else 'few'))
        # everything loaded is still there
        for (d, n), s in w.cached.items():
            expect(core.loadSchema(w.file(d, n)) is s, 'final load of', (d, n))
        for n, s in w.named.items():
            expect(core.loadSchema(n) is s, 'final load of', n)
        note.nt(interesting)


# the modules 'mod' and 'mod/sub' are packages, 'mod/data' is a directory in one
@st.composite
def cases(draw):
    flaws = st.sampled_from([None] * 9 + ['cut', 'root', 'type', 'clash', 'encoding', 'garbage', 'empty'])
    use_cwd = draw(st.booleans())
    dirs = DIRS if use_cwd else DIRS[1:]
    files = draw(st.lists(st.tuples(st.sampled_from(dirs), st.sampled_from(NAMES), st.just(None)), min_size=1, max_size=9))
    entry = st.one_of(st.tuples(st.sampled_from(['str', 'str', 'path', 'rel']), st.sampled_from(DIRS[1:])),
                      st.tuples(st.just('module'), st.sampled_from(DIRS[4:])),
                      st.tuples(st.just('instance'), st.sampled_from(DIRS[4:6])),
                      st.tuples(st.sampled_from(['missing', 'nomodule']), st.none()))
    path = ([('cwd', 'cwd')] if use_cwd else []) + draw(st.lists(entry, min_size=0 if use_cwd else 1, max_size=5))
    extra = draw(st.lists(st.tuples(st.sampled_from(dirs), st.sampled_from(
        ['legacy.xml', 'bin.xml', 'void.xml', 'enc.xml', 'wide.xml', 'latin.xml', 'notes.txt', 'svg.xml', 'noext',
         'dir.xml'] + NAMES + [f[1] for f in files])), max_size=4, unique=True))
    if draw(st.integers(0, 3)) == 0:    # in the way of the search
        extra = [x for x in extra if x[0] != 'cwd'] + [('cwd', draw(st.sampled_from([f[1] for f in files])))]
    how = st.sampled_from(['abs', 'pathlib', 'rel', 'dotrel', 'home', 'link', 'module', 'pure'])
    rl = st.sampled_from([False, False, False, True])
    op = st.one_of(
        st.tuples(st.just('base'), st.sampled_from(NAMES), rl),
        st.tuples(st.just('base'), st.sampled_from([f[1] for f in files]), rl),
        st.tuples(st.just('file'), st.integers(0, 30), how, rl),
        st.tuples(st.just('file'), st.integers(0, 2), how, rl),
        st.tuples(st.just('bad'), st.integers(0, 7)),
        st.tuples(st.just('rewrite'), st.integers(0, 30), flaws),
        st.tuples(st.just('alternative'), st.integers(0, 5), st.none()),
        st.tuples(st.just('elsewhere'), st.integers(0, 5), st.integers(0, 6)),
        st.tuples(st.just('parse'), st.integers(0, 2), st.integers(700, 705), rl, st.integers(0, 3)),
        st.tuples(st.just('nameless'), st.integers(0, 2), st.integers(700, 705), st.booleans()),
        st.tuples(st.just('badparse'), st.integers(0, 2), st.sampled_from(['cut', 'root', 'type', 'clash', 'empty'])),
        st.tuples(st.just('list'), st.booleans(), st.one_of(st.none(), st.lists(entry, min_size=1, max_size=3))))
    ops = draw(st.lists(op, min_size=2, max_size=14))
    return files, path, extra, ops


def plenty(case, note):
    """Many schemata, in one directory or several: none is forgotten, and all are listed."""
    n, dirs = case
    note.nt()
    keep = dict(core.SCHEMATA), list(core.SCHEMA_PATH)
    tmp = os.path.realpath(tempfile.mkdtemp(prefix='pbt'))
    try:
        paths = []
        for i in range(dirs):
            paths.append(os.path.join(tmp, 'd%d' % i))
            os.mkdir(paths[-1])
        for i in range(n):
            with open(os.path.join(paths[i % dirs], 'many%d.xml' % i), 'w') as f:
                f.write('<Schema><UIntegerElement name="E%d" id="0x%X"/></Schema>' % (i, 0x81 + i % 100))
        core.SCHEMA_PATH.extend(paths)
        got = [core.loadSchema('many%d.xml' % i) for i in range(n)]
        parsed = [core.parseSchema('<Schema><StringElement name="P%d" id="0x81"/></Schema>' % i, name='parsed %d' % i) for i in range(n)]
        for i in range(n):
            same(list(got[i].elementsByName), ['E%d' % i], 'elements of schema %d' % i)
            expect(core.loadSchema('many%d.xml' % i) is got[i], 'later load of schema %d' % i)
            expect(core.loadSchema(os.path.join(paths[i % dirs], 'many%d.xml' % i)) is got[i], 'later load of schema %d by path' % i)
            same(list(parsed[i].elementsByName), ['P%d' % i], 'elements of parsed schema %d' % i)
            expect(core.parseSchema('<Schema/>', name='parsed %d' % i) is parsed[i], 'later use of parsed schema %d' % i)
        l = core.listSchemata(*paths)
        same({k: [str(x) for x in v] for k, v in l.items()},
             {'many%d.xml' % i: [os.path.join(paths[i % dirs], 'many%d.xml' % i)] for i in range(n)}, 'listing')
    finally:
        core.SCHEMATA.clear()
        core.SCHEMATA.update(keep[0])
        core.SCHEMA_PATH[:] = keep[1]
        shutil.rmtree(tmp, ignore_errors=True)


PROBE = """
import json, sys
from ebmlite import core, util
out = {}
for n in json.loads(sys.argv[1]):
    try:
        out[n] = core.loadSchema(n).filename
    except Exception as e:
        out[n] = None
json.dump([out, {k: [str(x) for x in v] for k, v in core.listSchemata().items()}], sys.stdout)
"""


def environment(case, note):
    """A search path given by EBMLITE_SCHEMA_PATH, in a process of its own: its directories and modules come after those of the
    default, in their order."""
    files, path, cwd = case
    with World([(d, n, None) for d, n in files], [], []) as w:
        entries = [w.entry(e) for e in path]
        os.chdir(w.dir(cwd))
        env = dict(os.environ, PYTHONPATH=os.pathsep.join([REPO, w.root]), PYTHONDONTWRITEBYTECODE='1')
        if entries:
            env['EBMLITE_SCHEMA_PATH'] = os.pathsep.join(str(e) for e in entries)
        else:
            env.pop('EBMLITE_SCHEMA_PATH', None)
        p = subprocess.run([sys.executable, '-c', PROBE, json.dumps(NAMES + ['matroska.xml'])], stdout=subprocess.PIPE, env=env)
        same(p.returncode, 0, 'exit status')
        got, listed = json.loads(p.stdout.decode())
        places = [cwd] + [d for k, d in path if k not in ('missing', 'nomodule')]
        for n in NAMES:
            d = [d for d in places if (d, n) in w.files]
            same(got[n], os.path.realpath(w.file(d[0], n)) if d else None, 'file loaded as ' + n)
            want = []
            for x in d:
                if w.file(x, n) not in want:
                    want.append(w.file(x, n))
            have = []
            for x in listed.get(n, []):
                if w.expand(x) not in have:
                    have.append(w.expand(x))
            same(have, want, 'files listed as ' + n)
        bundle = os.path.join(REPO, 'ebmlite', 'schemata', 'matroska.xml')
        same((got['matroska.xml'], listed['matroska.xml']), (os.path.realpath(bundle), [os.path.realpath(bundle)]), 'bundled schema')
        note('%d entries' % len(path))
        note.nt(len(path) > 1 and any((d, n) in w.files for d in places[1:] for n in NAMES))


@st.composite
def environments(draw):
    entry = st.one_of(st.tuples(st.just('str'), st.sampled_from(DIRS[1:4])), st.tuples(st.just('str'), st.sampled_from(DIRS[1:4])),
                      st.tuples(st.just('module'), st.sampled_from(DIRS[4:])), st.tuples(st.just('cwd'), st.just('cwd')),
                      st.tuples(st.sampled_from(['missing', 'nomodule']), st.none()))
    path = draw(st.lists(entry, max_size=5, unique=True).filter(lambda p: ('cwd', 'cwd') not in p or len(p) > 1))
    cwd = 'cwd'
    files = draw(st.lists(st.tuples(st.sampled_from(DIRS), st.sampled_from(NAMES[:3])), min_size=3, max_size=9, unique=True))
    return files, path, cwd


def bundled(case, note):
    """The schemata that come with the package, by base name and in a fresh state."""
    note.nt()
    saved = dict(core.SCHEMATA)
    try:
        core.SCHEMATA.clear()
        e = raises(lambda: core.loadSchema(case, paths=['/nonexistent']))
        expect(isinstance(e, IOError), 'a schema that is not in the paths given:', e)
        a = core.loadSchema(case)
        expect(core.loadSchema(case) is a, 'second load')
        expect(core.loadSchema(a.filename) is a, 'load by path')
        expect(core.loadSchema('{ebmlite.schemata}/' + case) is a, 'load by module')
        b = core.loadSchema(case, reload=True)
        expect(b is not a and b == a, 'reload')
        for sp in (case, a.filename, '{ebmlite.schemata}/' + case, Path(a.filename)):
            expect(core.loadSchema(sp) is b, 'load after reload by', sp)
        expect(str(core.listSchemata()[case][0]) == a.filename, 'listing')
    finally:
        core.SCHEMATA.clear()
        core.SCHEMATA.update(saved)


SUBS = [
    Sub('histories', check, cases(), quick=2800, thorough=40000, shards=7, rule='random files, search paths and histories'),
    Sub('bundled', bundled, cases=lambda: ['matroska.xml', 'mide_ide.xml'], shards=1, rule='enumerated bundled schemata'),
    Sub('environment', environment, environments(), quick=100, thorough=1500, shards=4,
        rule='random search paths given by EBMLITE_SCHEMA_PATH, non-trivial: several entries that have schemata'),
    Sub('plenty', plenty, cases=lambda: [(20, 1), (150, 1), (150, 40), (600, 3)], shards=2, rule='enumerated: many schemata'),
]
ASSUMPTIONS = ['one search path and working directory per history (names, once loaded, are cached under that name)',
               'a file in the current directory comes first, as documented',
               'files on the path named like a schema are schemata of the native format or listed nowhere']
