"""C21: random documents, schemata, option combinations and states of the output path given to the command-line tools (their
main() in this process, and as real processes); outputs compared with the document, the library's pretty-print or a model of
the search path, and every file of the scratch directory watched; non-trivial = a nested element, binary or non-ASCII
contents, an existing or missing file, or two directories to search."""
import importlib
import io
import itertools
import os
import pathlib
import re
import shutil
import subprocess
import sys
import tempfile
from xml.etree import ElementTree as ET

from hypothesis import strategies as st

from .. import gen, ref
from ..lib import Schema, content
from ..run import REPO, Sub, expect, same
from .c11 import check_back, check_xml, skip_dates, walk
from .c15 import contents
from ebmlite import core, util
from ebmlite.xml_codecs import BINARY_CODECS

MODULES = {'ebml2xml': 'ebml2xml', 'xml2ebml': 'xml2ebml', 'view': 'view_ebml', 'list': 'list_schemata'}
_count = itertools.count()


def run(tool, args, cwd, process=False, env=None):
    """-> (exit status, stdout as bytes). As `python -m ebmlite.tools.X` does."""
    name = 'ebmlite.tools.' + MODULES[tool]
    if process:
        e = dict(os.environ, PYTHONPATH=REPO, PYTHONIOENCODING='utf-8', PYTHONDONTWRITEBYTECODE='1', **(env or {}))
        p = subprocess.run([sys.executable, '-m', name] + args, cwd=cwd, env=e, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        expect(not p.returncode or p.stderr.strip(), tool, args, 'failed without a word')
        return p.returncode, p.stdout
    main = importlib.import_module(name).main
    keep = sys.argv, sys.stdout, sys.stderr, sys.stdin, os.getcwd()
    raw = io.BytesIO()
    out = io.TextIOWrapper(raw, encoding='utf-8', write_through=True)
    sys.argv, sys.stdout, sys.stderr, sys.stdin = [name] + args, out, io.StringIO(), io.StringIO()
    os.chdir(cwd)
    code = 0
    try:
        main()
    except SystemExit as e:
        code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
        expect(not code or not isinstance(e.code, int) or sys.stderr.getvalue().strip(), tool, args, 'failed without a word')
    except Exception:
        code = 1
    finally:
        sys.argv, sys.stdout, sys.stderr, sys.stdin = keep[:4]
        os.chdir(keep[4])
    out.flush()
    data = raw.getvalue()
    return code, data


def snapshot(top):
    out = {}
    for d, ds, fs in os.walk(top):
        for x in ds:
            p = os.path.join(d, x)
            out[os.path.relpath(p, top)] = ('link', os.readlink(p)) if os.path.islink(p) else 'dir'
        for x in fs:
            p = os.path.join(d, x)
            if os.path.islink(p):
                out[os.path.relpath(p, top)] = ('link', os.readlink(p))
            else:
                with open(p, 'rb') as f:
                    out[os.path.relpath(p, top)] = f.read()
    return out


def put(p, data):
    with open(p, 'wb') as f:
        f.write(data)


def arrange(positional, options, order):
    """Options before, between or after the positional arguments."""
    i = order % (len(positional) + 1)
    return positional[:i] + options + positional[i:]


class Scratch:
    def __enter__(self):
        self.top = os.path.realpath(tempfile.mkdtemp(prefix='pbt'))
        return self

    def __exit__(self, *exc):
        shutil.rmtree(self.top, ignore_errors=True)

    def __call__(self, *parts):
        return os.path.join(self.top, *parts)


def spell(s, name, how):
    """A path of the scratch directory (which is the working directory)."""
    return {'abs': s(name), 'rel': './' + name, 'bare': name}[how]


NAMES = st.sampled_from(['f', 'in put', 'a.b.c', 'x', '\u00e9t\u00e9', 'UP'])
# ... with characters that XML cannot carry
ODD = st.sampled_from(['c\x01', 'n\nx', 'x\ufffe', 'bad\udcff'])
SPELL = st.sampled_from(['abs', 'rel', 'bare'])


@st.composite
def cases(draw, n=20):
    lit, trees = draw(gen.docs(unknowns=True, text=gen.XUNI, max_nodes=n))
    spec = ref.Spec(lit)
    o = dict(single=draw(st.booleans()), max=draw(st.booleans()), enc=draw(st.sampled_from([None, 'base64', 'hex', 'ignore'])),
             out=draw(st.sampled_from(['file', 'stdout', 'clobber', 'file'])),
             back=draw(st.sampled_from(['file', 'stdout', 'clobber', 'file'])),
             name=draw(st.one_of(NAMES, NAMES, NAMES, ODD)), how=draw(SPELL), sch=draw(st.sampled_from(['s.xml', 'my schema.xml', 's2', 'sub/s3.xml', 'su.b/s3', 'sub/s4'])),
             order=draw(st.integers(0, 5)), long=draw(st.booleans()))
    if not o['max'] and any(spec.type_of(t[1]) == 'unknown' for t in walk(trees)):
        o['max'] = True
    return (lit, trees, o)


def round_trip(case, note, process=False):
    lit, trees, o = case
    spec = ref.Spec(lit)
    data, nodes = ref.write_doc(trees, spec)
    skip_dates(nodes)
    with Scratch() as s:
        os.mkdir(s('sub'))
        os.mkdir(s('su.b'))
        src = o['name'] + '.ebml'
        put(s(src), data)
        # A name of its own: schemata once loaded in this process are found again by the same (relative) name
        o = dict(o, sch=o['sch'].replace('s', 's%d' % next(_count), 1) if '/' not in o['sch'] else
                 o['sch'].replace('/s', '/s%d' % next(_count)))
        sfile = o['sch'] if o['sch'].endswith('.xml') else o['sch'] + '.xml'
        put(s(sfile), spec.xml().encode('utf-8'))
        sarg = s(o['sch']) if o['how'] == 'abs' or '/' not in o['sch'] else o['sch']
        L = dict(o='--output', c='--clobber', s='--single', m='--max', e='--encoding') if o['long'] else \
            dict(o='-o', c='-c', s='-s', m='-m', e='-e')
        opts = [L['s']] * o['single'] + [L['m']] * o['max'] + ([L['e'], o['enc']] if o['enc'] else [])

        def convert(tool, inp, outname, where, opts):
            opts = list(opts)
            if where == 'clobber':
                put(s(outname), b'old contents ' * 900)
                opts.append(L['c'])
            if where != 'stdout':
                opts += [L['o'], spell(s, outname, o['how'])]
            before = snapshot(s.top)
            code, out = run(tool, arrange([spell(s, inp, o['how']), sarg], opts, o['order']), s.top, process)
            same(code, 0, 'exit status of %s' % tool)
            after = snapshot(s.top)
            if where == 'stdout':
                same(set(after), set(before), 'files after %s to stdout' % tool)
                put(s(outname), out)
            else:
                same(set(after), set(before) | {outname}, 'files after %s' % tool)
                same(out, b'', 'stdout of %s' % tool)
            same({k: v for k, v in after.items() if k != outname}, {k: v for k, v in before.items() if k != outname},
                 'other files after %s' % tool)
            with open(s(outname), 'rb') as f:
                return f.read()
        xml = convert('ebml2xml', src, 'out.xml', o['out'], opts)
        root = ET.fromstring(xml.decode('utf-8'))
        same([c.tag for c in root], [n.name for n in nodes], 'root elements in XML')
        for c, n in zip(root, nodes):
            check_xml(c, n, dict.fromkeys(('ids', 'types', 'offsets', 'sizes'), o['max']),
                      BINARY_CODECS[o['enc'] or 'base64'])
        if o['single']:
            body = xml.decode('utf-8').strip()
            expect('\n' not in body, 'newline in XML as a single line', xml)
        if o['enc'] == 'ignore':
            note('binary contents left out')
            note.nt(len(nodes))
            return
        back = convert('xml2ebml', 'out.xml', 'back.ebml', o['back'], [])
        own_header = bool(nodes) and nodes[0].name == 'EBML'
        added = 'EBML' in spec.els and not own_header
        sch = Schema(io.StringIO(spec.xml()), name='x')
        doc = sch.load(io.BytesIO(back), headers=not added)
        check_back(doc, nodes, o['max'])
        # and the same from XML in the library
        out = io.BytesIO()
        util.xml2ebml(ET.fromstring(xml.decode('utf-8')), out, core.loadSchema(s(sfile)))
        same(back, out.getvalue(), 'output of xml2ebml')
        for k in ('single', 'max'):
            note(k, o[k])
        note('to ' + o['out'])
        ts = {n.t for n in ref.flat(nodes)}
        note.nt(gen.depth(trees) > 1 or ts & {'unknown', 'bin', 'date'} or any(
            max(n.payload, default=0) > 127 for n in ref.flat(nodes) if n.kids is None))


@st.composite
def views(draw):
    lit, trees = draw(gen.docs(unknowns=True, max_nodes=20))
    return (lit, trees, draw(st.sampled_from([None, 'base64', 'hex', 'ignore'])), draw(st.sampled_from(['file', 'stdout',
            'clobber'])), draw(NAMES), draw(SPELL), draw(st.integers(0, 5)))


def view(case, note, process=False):
    lit, trees, enc, where, name, how, order = case
    spec = ref.Spec(lit)
    data, nodes = ref.write_doc(trees, spec)
    with Scratch() as s:
        src = name + '.ebml'
        put(s(src), data)
        put(s('s.xml'), spec.xml().encode('utf-8'))
        opts = ['-e', enc] if enc else []
        if where != 'stdout':
            opts += ['-o', spell(s, 'v.txt', how)]
        if where == 'clobber':
            put(s('v.txt'), b'old ' * 5000)
            opts.append('-c')
        code, out = run('view', arrange([spell(s, src, how), s('s.xml')], opts, order), s.top, process)
        same(code, 0, 'exit status')
        if where != 'stdout':
            same(out, b'', 'stdout')
            with open(s('v.txt'), 'rb') as f:
                out = f.read()
        want = io.StringIO()
        with Schema(s('s.xml')).load(s(src), headers=True) as doc:
            util.pprint(doc, out=want, binary_codec=enc or 'ignore')
        text = out.decode('utf-8')
        same(text, want.getvalue(), 'view of the document')
        for n in ref.flat(nodes):
            if n.kids is None and n.t in ('uint', 'int', 'date', 'float', 'str', 'uni'):
                expect(repr(n.value()) in text, 'value of', n, 'is not shown')
        note('encoding %s' % enc)
        note.nt(gen.depth(trees) > 1)


# ---------------------------------------------------------------- files

OLD = b'precious \xff old contents\n'
STATES = ['file', 'file', 'empty', 'large', 'link', 'dir', 'dangling', 'none', 'home']


@st.composite
def refusals(draw):
    tool = draw(st.sampled_from(['ebml2xml', 'xml2ebml', 'view']))
    missing = draw(st.sampled_from([None, None, 'input', 'schema', 'both', 'schema name', 'empty schema name', 'bad schema']))
    return (tool, draw(st.sampled_from(STATES)), missing, draw(st.booleans()), draw(SPELL), draw(st.integers(0, 5)),
            draw(st.booleans()), draw(st.booleans()))


TINY = ref.Spec(dict(els=[dict(name='M', id=0x81, t='master', multiple=True), dict(name='B', id=0x4080, t='bin',
                          multiple=True), dict(name='U', id=0x101FFFFF, t='uni')], kids={None: ['M'], 'M': ['B', 'U']}))
DOC = ('m', 0x81, [('l', 0x4080, b'\0\xff', None), ('l', 0x101FFFFF, b'hi', None)], None, False)


def refuse(case, note, process=False):
    tool, state, missing, clobber, how, order, single, eb = case
    data = ref.write_doc([DOC], TINY)[0]
    with Scratch() as s:
        put(s('s.xml'), TINY.xml().encode())
        put(s('bad.xml'), b'<Schema><FooElement/></Schema>')
        if tool == 'xml2ebml':
            sch = Schema(s('s.xml'))
            put(s('in'), ET.tostring(util.toXml(sch.load(io.BytesIO(data))), encoding='utf-8'))
        else:
            put(s('in'), data)
        exists = state in ('file', 'empty', 'large', 'link', 'dir', 'home')
        target = 'out'
        os.mkdir(s('sub'))
        if state in ('file', 'home'):
            put(s('out'), OLD)
        elif state in ('empty', 'large'):
            put(s('out'), OLD * 100000 if state == 'large' else b'')
        elif state == 'dir':
            os.mkdir(s('out'))
        elif state in ('link', 'dangling'):
            target = 'sub/real'
            os.symlink(os.path.join('sub', 'real') if single else s('sub/real'), s('out'))
            if state == 'link':
                put(s('sub/real'), OLD)
        opts = ['-o', spell(s, 'out', how) if state != 'home' else '~/out'] + ['-c'] * clobber
        if missing and state == 'none' and order % 2:
            opts = []       # (to the standard output)
        if tool == 'ebml2xml':
            opts += ['-s'] * single
        before = snapshot(s.top)
        inp = 'nothere' if missing in ('input', 'both') else 'in'
        sch = {'schema': s('nothere.xml'), 'both': s('nothere.xml'), 'schema name': 'pbt_nothere', 'empty schema name':
               s('sub/none'), 'bad schema': s('bad.xml')}.get(missing, s('s.xml'))
        env = dict(HOME=s.top)
        home = os.environ.get('HOME')
        if not process:
            os.environ.update(env)
        try:
            code, out = run(tool, arrange([spell(s, inp, how), sch], opts, order), s.top, process, env)
        finally:
            if not process:
                os.environ.pop('HOME')
                if home is not None:
                    os.environ['HOME'] = home
        after = snapshot(s.top)
        note('state ' + state)
        note('missing %s' % missing)
        note('clobber', clobber)
        note.nt()
        if missing:
            expect(code != 0, 'exit status 0 though missing:', missing)
            same(after, before, 'files after a run with missing %s' % missing)
        elif exists and not clobber:
            expect(code != 0, 'exit status 0 though the output exists')
            same(after, before, 'files after a refused run')
        elif state == 'dir':
            expect(code != 0, 'exit status 0 though the output is a directory')
            same(after, before, 'files after a run that failed')
        else:
            same(code, 0, 'exit status')
            got = after.pop(target, None)
            before.pop(target, None)
            same(after, before, 'other files')
            expect(isinstance(got, bytes), 'no output was created')
            if tool == 'xml2ebml':
                same(ref.value_tree(ref.read_doc(got, TINY)), ref.value_tree(ref.read_doc(data, TINY)), 'output')
            else:
                expect(b'UnknownElement' not in got and OLD not in got and b'hi' in got, 'contents of the output', got)
        same(out, b'', 'stdout')


# ---------------------------------------------------------------- list-schemata

@st.composite
def searches(draw):
    files = draw(st.lists(st.tuples(st.integers(0, 3), st.sampled_from(['a.xml', 'b.xml', 'c d.xml', 'matroska.xml', 'e.f.xml']),
                                    st.sampled_from(['s', 's', 's', 't', 'x', 'bin', 'cut'])), min_size=1, max_size=8,
                          unique_by=lambda x: x[:2]))
    dirs = draw(st.lists(st.integers(0, 3), max_size=4, unique=True))
    return (files, dirs, draw(st.booleans()), draw(st.booleans()), draw(st.sampled_from(['abs', 'rel'])),
            draw(st.sampled_from(['none', 'env', 'args'])), draw(st.integers(0, 3)))


def listing(case, note, process=False):
    files, dirs, relative, tofile, how, extra, order = case
    with Scratch() as s:
        mod = 'pbtcli_%d_%d' % (os.getpid(), next(_count))
        where = [s('d0'), s('d 1'), s('d2'), s(mod)]
        for d in where:
            os.mkdir(d)
        put(os.path.join(where[3], '__init__.py'), b'')
        good = {}
        for i, n, what in files:
            p = os.path.join(where[i], n)
            put(p, {'s': contents(1).encode(), 't': b'<table/>', 'x': b'<svg/>', 'bin': bytes(range(256)),
                    'cut': contents(0, 'empty').encode()}[what])
            if what == 's':
                good.setdefault(i, []).append(n)
        put(os.path.join(where[0], 'readme.txt'), b'<Schema/>')
        args = []
        for i in dirs:
            args.append('{%s}' % mod if i == 3 else where[i] if how == 'abs' else os.path.relpath(where[i], s.top))
        opts = ['-r'] * relative + (['-o', s('list.txt')] if tofile else [])
        env = {'PYTHONPATH': REPO + os.pathsep + s.top}
        envdirs = []
        if extra == 'env' and process:
            envdirs = [i for i in range(3) if i not in dirs]
            env['EBMLITE_SCHEMA_PATH'] = os.pathsep.join(where[i] for i in envdirs)
        sys.path.insert(0, s.top)
        importlib.invalidate_caches()
        try:
            keep = list(core.SCHEMA_PATH)
            if process:
                e = dict(os.environ, PYTHONIOENCODING='utf-8', PYTHONDONTWRITEBYTECODE='1', **env)
                p = subprocess.run([sys.executable, '-m', 'ebmlite.tools.list_schemata'] + (opts + args if order else
                                   args + opts), cwd=s.top, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                                   stderr=subprocess.PIPE, timeout=120)
                code, out = p.returncode, p.stdout
            else:
                code, out = run('list', opts + args if order else args + opts, s.top)
                same(core.SCHEMA_PATH, keep, 'SCHEMA_PATH')
        finally:
            sys.path.remove(s.top)
        same(code, 0, 'exit status')
        if tofile:
            same(out, b'', 'stdout')
            with open(s('list.txt'), 'rb') as f:
                out = f.read()
        got, cur = {}, None
        for line in out.decode('utf-8').splitlines():
            if not line.startswith('    '):
                cur = got.setdefault(line, [])
            else:
                cur.append(line[4:])

        def resolved(p):
            m = re.match(r'\{([\w.]+)\}[/\\]?(.*)$', p)
            if m:
                top = s(mod) if m.group(1) == mod else os.path.join(REPO, *m.group(1).split('.'))
                return os.path.realpath(os.path.join(top, m.group(2)))
            if not relative and how == 'abs':
                expect(os.path.isabs(p), 'not an absolute path', p)
            return os.path.realpath(os.path.join(s.top, p))
        legacy = {os.path.join(where[i], n) for i, n, what in files if what == 't'}     # may be listed or not
        if relative:
            for arg, i in zip(args, dirs):
                for n in good.get(i, []):
                    expect(str(pathlib.Path(arg) / n) in got.get(n, ()), 'not listed as', str(pathlib.Path(arg) / n), got)
        elif any(i == 3 for i in dirs):
            expect(not any('{' in p for v in got.values() for p in v), 'a reference to a module listed', got)
        got = {k: [p for p in map(resolved, v) if p not in legacy] for k, v in got.items()}
        got = {k: v for k, v in got.items() if v}
        want = {}
        for i in dirs + envdirs:
            for n in good.get(i, []):
                want.setdefault(n, []).append(os.path.join(where[i], n))
        lib = os.path.join(REPO, 'ebmlite', 'schemata')
        for n in os.listdir(lib):
            if n.endswith('.xml'):
                want.setdefault(n, []).append(os.path.realpath(os.path.join(lib, n)))
        same(set(got), set(want), 'names of the schemata listed')
        for n in want:
            same(sorted(got[n]), sorted(want[n]), 'files of schema %s' % n)
            mine = [os.path.join(where[i], n) for i in dirs if n in good.get(i, [])]
            same(got[n][:len(mine)], mine, 'order of the files of schema %s' % n)
        note('relative', relative)
        note('env', bool(envdirs))
        note.nt(len(dirs) > 1)


def processes(case, note):
    kind, c = case
    note('process ' + kind)
    dict(round=round_trip, view=view, refuse=refuse, list=listing)[kind](c, note, process=True)


ASCII = dict(LC_ALL='C', PYTHONUTF8='0', PYTHONCOERCECLOCALE='0')


def locales(case, note):
    """What is written does not depend on the locale."""
    lit, trees, enc, *_ = case
    spec = ref.Spec(lit)
    data, nodes = ref.write_doc(trees, spec)
    with Scratch() as s:
        put(s('a.ebml'), data)
        put(s('s.xml'), spec.xml().encode('utf-8'))
        opts = ['-e', enc] if enc else []
        for tool in ('view', 'ebml2xml'):
            for name, env in (('utf-8', None), ('ascii', ASCII)):
                code, out = run(tool, [s('a.ebml'), s('s.xml'), '-o', s(name)] + opts, s.top, env is not None, env)
                same(code, 0, 'exit status of %s, locale %s' % (tool, name))
                same(out, b'', 'stdout of %s' % tool)
            with open(s('utf-8'), 'rb') as f, open(s('ascii'), 'rb') as g:
                text = f.read()
                same(text, g.read(), 'output of %s in another locale' % tool)
            os.remove(s('utf-8'))
            os.remove(s('ascii'))
            note.nt(any(b > 127 for b in text))
        note('encoding %s' % enc)


def builtin(case, note):
    """The standard schemata are found by name alone."""
    tool, name, process = case
    note.nt()
    sch = core.loadSchema(name + '.xml')
    data = bytes(sch.encodes({'EBML': {'DocType': 'x', 'EBMLVersion': 1}}))
    with Scratch() as s:
        put(s('a.ebml'), data)
        code, out = run('ebml2xml', [s('a.ebml'), name if tool else name + '.xml', '-o', s('a.xml')], s.top, process)
        same(code, 0, 'exit status of ebml2xml')
        code, out = run('xml2ebml', [s('a.xml'), name + '.xml' if tool else name], s.top, process)
        same(code, 0, 'exit status of xml2ebml')
        same(content(sch.load(io.BytesIO(out), headers=True)), content(sch.load(io.BytesIO(data), headers=True)),
             'document converted to XML and back')


SUBS = [
    Sub('round-trip', round_trip, cases(), quick=700, thorough=20000, shards=4,
        rule='ebml2xml and xml2ebml with random options'),
    Sub('view', view, views(), quick=500, thorough=12000, shards=2, rule='view-ebml with random options'),
    Sub('refusals', refuse, refusals(), quick=700, thorough=8000, shards=2, rule='states of output, input and schema'),
    Sub('listing', listing, searches(), quick=300, thorough=6000, shards=2, rule='list-schemata over random directories'),
    Sub('processes', processes, st.one_of(cases(8).map(lambda c: ('round', c)), views().map(lambda c: ('view', c)),
        refusals().map(lambda c: ('refuse', c)), searches().map(lambda c: ('list', c))),
        quick=120, thorough=3000, shards=4, rule='the same, in processes of their own'),
    Sub('locale', locales, views(), quick=24, thorough=1500, shards=2, rule='the same documents in another locale'),
    Sub('builtin', builtin, cases=lambda: [(t, n, p) for t in (0, 1) for n in ('matroska', 'mide_ide', 'mide_manifest',
        'mide_config_ui') for p in (False, True)], shards=1, rule='standard schemata by name, enumerated'),
]
ASSUMPTIONS = ['text of characters that XML 1.0 can carry', 'documents with unknown elements are described in full (-m)',
               'conversion with the codec that leaves out binary contents is not reversible',
               'list-schemata overwrites its output file: it has no option to say so']
