"""C16  static_file never serves a file outside its root."""
import contextlib
import errno
import mimetypes
import os
import pathlib
import shutil
import stat
import sys
import sysconfig
import tempfile
import threading

from .. import core, world, wsgi, sched
from ..stream import PlanError

PROP = 'C16'
RUNS = {'quick': 16000, 'thorough': 300000}
RULE = ('one run = a real directory tree in a scratch folder (a root, siblings whose names extend, shorten or re-case its name, decoys of the same names beside, above and in them, pipes, '
        'directories, links) and one application that serves 2-8 requested names (or two threads under a seeded schedule): walks to inside and outside files spelled with dot segments, '
        'repeated, foreign and encoded separators, absolute names; roots absolute, relative to a changing working directory, with and without trailing separators. The disk denies, loses or '
        'cannot open files. Every path the code opens is recorded by an audit hook. Non-trivial: a name whose location is outside the root, or a file served.')
TIME_UNIT = 'requests (scheduler steps in two-thread runs)'
STATES = 'distinct (kind of root, kinds of segments and separators in the name, where the location is, status)'
REAL = ['ombott (whole package)', 'file system (a scratch tree)', 'os.path']
STUB = ['WSGI server', 'disk faults (denied, vanished, cannot open)', 'thread scheduler in two-thread runs']
PROBES = ['inside served', 'outside: beside, prefix of the root', 'outside: above', 'outside: absolute', 'outside by dots, back inside', 'backslashes', 'repeated separators', 'relative root', 'working directory changed',
          'root with trailing separator', 'root is a path object', 'root behind a link', 'missing root', 'root is a file', 'directory', 'pipe', 'encoded dots', 'NUL', 'name from the URL', 'HEAD', 'If-Modified-Since', 'Range',
          'denied', 'vanished', 'cannot open', 'two roots in one run', 'two threads', 'root itself', 'link, then dot-dot', 'name longer than the file system allows', 'name through a file', 'unencodable name']
ASSUMPTIONS = ['normalised location: the name (stripped of leading and trailing separators) joined to the root, dot segments resolved by their text', 'links inside the root are followed on purpose',
               'the root "/" (which serves nothing) is only asked not to serve decoys']

INSIDE = ['a.txt', 'index.html', 'sub/b.txt', 'sub/deep/c.txt', 'sub/index.html', '..x', '...', 'a\\b.txt', 'sp ace .txt', '\u00e9.txt', 'z.txt.gz', 'empty', '%2e%2e', '\uff0e\uff0e', '~', '$SIMUP', 'secret.txt']
NAMES = ['secret.txt', 'a.txt', 'index.html', 'z.txt', 'sub/b.txt']
SIBLINGS = ['www-private', 'www2', 'www.bak', 'www ', 'www\\', 'WWW', 'ww', 'www\\..', 'wwwsub', 'ww\uff57', 'ext_target']
DIRS = ['srv/www', 'srv/www/sub', 'srv', '', 'srv/www2', 'srv/www/sub/deep', 'other/www', 'srv/www/missing', 'srv/www/a.txt', 'link', 'nowhere/www']
ROOTS = ['srv/www'] * 6 + DIRS
CWDS = ['', 'srv', 'srv/www', 'srv/www/sub', 'other', 'srv/www2']
STYLES = ['abs', 'abs/', 'abs//', 'abs/.', 'rel', 'rel/', './rel', 'detour', 'path', 'double', 'relpath', '/abs']
SEGS = ['..', '..', '..', '.', '', '...', 'www', 'www2', 'www-private', 'srv', 'sub', 'deep', 'a.txt', 'secret.txt', 'b.txt', 'index.html', '..\\', '\\..', '%2e%2e', '..%2f', '%00', '\uff0e\uff0e', ' ..', '.. ', '..;', '~', '$SIMUP',
        '${SIMUP}', 'ext', 'lnk', 'a.txt\x00', 'dir.txt', 'pipe', 'C:', '\x00', 'x' * 300, '\udc2e', '\u2024\u2024', '*', '?', '{B}', '\r\n', '-', 'missing', '\u00e9.txt', 'WWW']
SEPS = ['/'] * 12 + ['//', '\\', '/./', '///', '\\/', '/\\', '%2f', '%5c', '\u2215']
METHODS = ['GET', 'GET', 'GET', 'HEAD']
HEADERS = [[], [], [], [['Range', 'bytes=0-3']], [['If-Modified-Since', 'Fri, 01 Jan 2038 00:00:00 GMT']], [['Accept-Encoding', 'gzip']], [['If-None-Match', '*']]]
PARAMS = [{}, {}, {}, {'download': True}, {'download': '../x'}, {'mimetype': 'text/plain'}, {'charset': ''}]


# ------------------------------------------------------------------ audit hook
_watch = {}            # thread -> Watch
_hooked = False


def _audit(event, args):
    if event != 'open' or not _watch:
        return
    w = _watch.get(threading.get_ident())
    if w is not None:
        w.opened(args[0])


def hook():
    global _hooked
    if not _hooked:
        _hooked = True
        sys.addaudithook(_audit)


LIBS = tuple({os.path.realpath(p) + os.sep for p in [sysconfig.get_paths()['stdlib'], sysconfig.get_paths()['purelib'], os.path.dirname(os.__file__), sys.prefix, os.path.join(world.REPO, 'ombott')]})


class Watch:
    """paths opened by this thread; what becomes of the opening"""

    def __init__(self, tree):
        self.tree = tree
        self.paths = []
        self.in_call = False

    def opened(self, path):
        if isinstance(path, int):
            return
        path = os.fsdecode(os.fspath(path)) if path is not None else ''
        full = path if path.startswith('/') else os.getcwd() + '/' + path
        self.paths.append((full, self.in_call))
        real = os.path.realpath(full)
        f = self.tree.denied.get(real)
        if f:
            self.tree.fired.append(f)
            raise OSError(getattr(errno, f), os.strerror(getattr(errno, f)), path)
        try:
            if stat.S_ISFIFO(os.stat(real).st_mode):
                raise OSError(errno.ENXIO, 'pipe', path)
        except (OSError, ValueError) as e:
            if e.errno == errno.ENXIO:
                self.tree.pipes.append(full)
                raise


class Tree:
    def __init__(self):
        self.base = tempfile.mkdtemp(prefix='c16-', dir=core.scratch_base())
        self.denied = {}
        self.fired = []
        self.pipes = []
        b = self.base
        for n in INSIDE:
            self.put('srv/www/' + n)
        for s in SIBLINGS:
            for n in NAMES[:3]:
                self.put('srv/%s/%s' % (s, n))
        for n in NAMES:
            for d in ('', 'srv/', 'other/', 'other/www/', 'srv/www/www/'):
                self.put(d + n)
        for d in ('srv/www/dir.txt', 'srv/www/' + 'www2'):
            os.makedirs(os.path.join(b, d), exist_ok=True)
        os.mkfifo(b + '/srv/www/pipe')
        os.symlink('srv/www', b + '/link')
        os.symlink('../ext_target', b + '/srv/www/ext')
        os.symlink('sub/deep', b + '/srv/www/lnk')

    def put(self, rel):
        p = os.path.join(self.base, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(b'' if rel.endswith('empty') else ('[[%s]]' % rel).encode())


_tree = None


def tree():
    """the tree is only read, one for all runs of this process"""
    global _tree
    if _tree is None or _tree.pid != os.getpid():
        _tree = Tree()
        _tree.pid = os.getpid()
    _tree.denied, _tree.fired, _tree.pipes = {}, [], []
    return _tree


# ------------------------------------------------------------------ generators
def spell(rng, segs, lead):
    """segments -> a name with needless dots, separators, detours"""
    out = ''
    for i, s in enumerate(segs):
        if i:
            out += rng.choice(SEPS) if rng.random() < 0.35 else '/'
        if rng.random() < 0.08:
            out += './'
        if rng.random() < 0.08:
            out += rng.choice(['sub', 'missing', 'a.txt', 'www', 'ext', 'lnk', 'www2', '...']) + '/../'
        out += s
    return lead + out


def walk(rng, root):
    """a name that leads from `root` to some file of the tree"""
    r = [x for x in root.split('/') if x]
    k = rng.randrange(6)
    if k == 0:
        t = 'srv/www/' + rng.choice(INSIDE)
    elif k == 1:
        t = 'srv/%s/%s' % (rng.choice(SIBLINGS), rng.choice(NAMES[:3]))
    elif k == 2:
        t = rng.choice(['', 'srv/', 'other/', 'other/www/', 'srv/www/www/']) + rng.choice(NAMES)
    elif k == 3:
        t = root + '/' + rng.choice(['a.txt', 'index.html', 'b.txt', 'c.txt', 'sub/b.txt', 'dir.txt', 'pipe', '', '.', 'ext/../secret.txt', 'ext/../a.txt', 'lnk/../b.txt', 'a.txt/../a.txt', 'a.txt/.'])
        t = t.strip('/')
    elif k == 4:      # an extension of the root's own name
        t = root + rng.choice(['2', '-private', '.bak', ' ', '\\', '\\..', 'sub', '/../' + (r[-1] if r else '') + '2']) + '/' + rng.choice(NAMES[:3])
    else:
        t = rng.choice(DIRS)
    t = [x for x in t.split('/') if x]
    if rng.random() < 0.75:
        n = 0
        while n < min(len(r), len(t)) and r[n] == t[n]:
            n += 1
        if rng.random() < 0.3:
            n = rng.randint(0, n)
        segs = ['..'] * (len(r) - n) + t[n:]
        if rng.random() < 0.3:
            segs = ['..'] * rng.randint(1, 3) + r[max(0, len(r) - rng.randint(1, 3)):] + segs if rng.random() < 0.5 else ['sub', '..'] + segs
        return spell(rng, segs, rng.choice(['', '', '', '/', '\\', '//', './']))
    return spell(rng, t, rng.choice(['{B}/', '/{B}/', '//{B}/', 'file://{B}/', '\\{B}\\', '{B}//', '{B}/srv/../', '../../../../../../../../..{B}/', '..{B}/', '../../{B}/']))


def gen_name(rng, root):
    if rng.random() < 0.7:
        return walk(rng, root)
    return spell(rng, [rng.choice(SEGS) for _ in range(rng.choice([1, 2, 2, 3, 4, 6, 9]))], rng.choice(['', '', '/', '//', '\\', '{B}/']))


def gen_reqs(rng, n):
    out = []
    root, style = rng.choice(ROOTS), rng.choice(STYLES)
    cwd = rng.choice(CWDS)
    for _ in range(n):
        if rng.random() < 0.35:
            root, style = rng.choice(ROOTS), rng.choice(STYLES)
        if rng.random() < 0.2:
            cwd = rng.choice(CWDS)
        name = rng.choice(out)['name'] if out and rng.random() < 0.2 else gen_name(rng, root)
        out.append(dict(root=root, style=style, cwd=cwd, name=name, via=rng.choice(['arg', 'arg', 'url', 'url']), method=rng.choice(METHODS), headers=rng.randrange(len(HEADERS)),
                        params=rng.randrange(len(PARAMS))))
    return out


def gen(rng, tier):
    two = rng.random() < 0.04
    return dict(clients=[gen_reqs(rng, rng.choice([1, 2, 3, 4]) if two else rng.choice([2, 3, 4, 6, 8])) for _ in range(2 if two else 1)], mode=sched.gen_mode(rng, 2) if two else None,
                faults=[[rng.choice(['srv/www/a.txt', 'srv/www/sub/b.txt', 'srv/www/index.html', 'srv/www/secret.txt', 'srv/www2/a.txt']), rng.choice(['EACCES', 'ENOENT', 'EMFILE'])]] if rng.random() < 0.2 else [])


def valid(p):
    if not p['clients'] or len(p['clients']) > 2 or bool(p['mode']) != (len(p['clients']) == 2):
        return False
    for c in p['clients']:
        for q in c:
            if q['root'] not in DIRS or q['style'] not in STYLES or q['cwd'] not in CWDS or q['via'] not in ('arg', 'url') or q['method'] not in METHODS or not isinstance(q['name'], str):
                return False
            if not 0 <= q['headers'] < len(HEADERS) or not 0 <= q['params'] < len(PARAMS):
                return False
    return all(isinstance(f[0], str) and f[1] in ('EACCES', 'ENOENT', 'EMFILE') for f in p['faults'])


# ------------------------------------------------------------------ model
def normal(path):
    """absolute path -> list of segments, dots resolved by text"""
    out = []
    for s in path.split('/'):
        if s == '..':
            del out[-1:]
        elif s not in ('', '.'):
            out.append(s)
    return out


def inside(segs, root):
    return len(segs) > len(root) and segs[:len(root)] == root


def root_text(q, base, cwd):
    full = base + '/' + q['root'] if q['root'] else base
    s = q['style']
    if s in ('rel', 'rel/', './rel', 'relpath'):
        rel = os.path.relpath(full, cwd)
        return {'rel': rel, 'rel/': rel + '/', './rel': './' + rel, 'relpath': rel}[s] if not (s == 'rel' and rel == '.' and len(q['name']) % 2) else ''
    return {'abs': full, 'abs/': full + '/', 'abs//': full + '//', 'abs/.': full + '/.', 'detour': full + '/sub/../../' + os.path.basename(full), 'path': full, 'double': base + '//' + q['root'], '/abs': '/' + full}[s]


def run(p, r):
    if not valid(p):
        raise PlanError('shape')
    hook()
    mimetypes.init()
    t = tree()
    base = t.base
    om = world.fresh()
    app = om.default_app()
    jobs = {}
    served = {}

    def serve(name):
        q, root = jobs[threading.get_ident()]
        w = _watch[threading.get_ident()]
        served[threading.get_ident()] = name
        w.in_call = True
        try:
            return om.static_file(name, root, **PARAMS[q['params']])
        finally:
            w.in_call = False

    @app.route('/f')
    def direct():
        return serve(jobs[threading.get_ident()][0]['name'].replace('{B}', base))

    @app.route('/s/<name:path>')
    def by_url(name):
        return serve(name)

    for rel, e in p['faults']:
        t.denied[os.path.realpath(os.path.join(base, rel))] = e
    real_access = os.access

    def access(path, mode, **kw):
        try:
            if t.denied.get(os.path.realpath(path)) == 'EACCES' and mode & os.R_OK:
                t.fired.append('EACCES')
                return False
        except (TypeError, ValueError):
            pass
        return real_access(path, mode, **kw)

    def hide(s):
        return s.replace(base, '{B}')

    roots = set()

    def one(q):
        me = threading.get_ident()
        cwd = os.path.join(base, q['cwd'])
        if len(p['clients']) == 1:
            if os.getcwd() != cwd:
                os.chdir(cwd)
                r.probe('working directory changed')
        else:
            cwd = os.getcwd()
        root = root_text(q, base, cwd)
        arg = pathlib.Path(root) if q['style'] in ('path', 'relpath') else root
        jobs[me] = (q, arg)
        served.pop(me, None)
        w = _watch[me] = Watch(t)
        n_fired, n_pipes = len(t.fired), len(t.pipes)
        name = q['name'].replace('{B}', base)
        try:
            raw = name.encode('utf8', 'surrogateescape').decode('latin1')
        except UnicodeError:
            raw = None
        url = q['via'] == 'url' and raw is not None
        env = wsgi.make_environ(q['method'], '/f', headers=HEADERS[q['headers']])
        if url:
            env['PATH_INFO'] = '/s/' + raw
        ex = wsgi.call(app, env)
        del _watch[me]
        r.simtime += 1
        if me not in served:
            if not url:
                r.fail('crash', '%s: %s\n%s' % (q, hide(ex.brief()), hide(ex.errlog[-600:])))
            return
        name = served[me]
        what = 'static_file(%r, root=%r) (cwd %r, %s %s, %s): %s' % (hide(name), hide(str(arg)), q['cwd'], q['method'], HEADERS[q['headers']], PARAMS[q['params']], hide(ex.brief()))
        # where is it?
        rsegs = normal(root if root.startswith('/') else cwd + '/' + root)
        readings = [normal('/' + '/'.join(rsegs) + '/' + n) for n in (name.strip('/\\'), name.strip('/'), name)]
        targets = [s for s in readings if inside(s, rsegs) and isfile(s)]
        # nothing outside is opened
        rtext = '/' + '/'.join(rsegs)
        rreal = os.path.realpath(rtext)
        for path, in_call in w.paths:
            segs = normal(path)
            if inside(segs, rsegs) and os.path.normpath(path).lstrip('/') == path.lstrip('/'):
                continue
            real = os.path.realpath(path)
            if real.startswith(rreal + '/'):
                continue
            if not (in_call or path.startswith(base + '/')) or real.startswith(LIBS):
                continue
            r.fail('opened', 'opened %s; %s' % (hide(path), what))
        fired = len(t.fired) > n_fired
        if len(t.pipes) > n_pipes:
            r.fail('opened', 'opened the pipe %s; %s' % (hide(t.pipes[-1]), what))
        code = ex.code
        if ex.escaped or ex.iter_error:
            r.fail('crash', what + ' ' + repr(ex.escaped or ex.iter_error))
        # a file is served only if it is inside
        if code in (200, 206, 304):
            if not targets:
                r.fail('served', what)
            if code != 304 and q['method'] != 'HEAD':
                contents = [content(s) for s in targets]
                if not any(ex.body == c if code == 200 else ex.body in c for c in contents):
                    r.fail('served', 'not the content of the file: ' + what)
            if t.denied.get(os.path.realpath('/' + '/'.join(targets[0]))) == 'EACCES' and len(targets) == 3:
                r.fail('served', 'not readable: ' + what)
            r.nontrivial = True
            r.probe('inside served')
        elif code in (403, 404):
            if len(targets) == 3 and not fired and len(rsegs) > 0:
                r.fail('refused', what)
        elif code == 416 and q['headers'] == 3 and targets:
            pass
        elif not fired or not targets:
            r.fail('status', what + '\n' + hide(ex.errlog[-600:]))
        if ex.problems:
            r.fail('protocol', '%s; %s' % (ex.problems, what))
        # what was tried
        s = readings[0]
        broot = normal(base)
        where = 'inside' if inside(s, rsegs) else 'root' if s == rsegs else 'above' if len(s) <= len(rsegs) else 'beside'
        if where == 'beside' and '/'.join(s).startswith('/'.join(rsegs)):
            where = 'prefix'
        there = isfile(s)
        if where not in ('inside', 'root'):
            r.nontrivial = True
            r.probe('outside: beside, prefix of the root', where == 'prefix' and there)
            r.probe('outside: above', there and where == 'above')
        r.probe('outside: absolute', name.startswith('/') and base in name)
        r.probe('outside by dots, back inside', where == 'inside' and there and '../' + rsegs[-1] in name if rsegs else False)
        r.probe('backslashes', '\\' in name)
        r.probe('repeated separators', '//' in name)
        r.probe('relative root', not root.startswith('/'))
        r.probe('root with trailing separator', root.endswith('/'))
        r.probe('root is a path object', not isinstance(arg, str))
        r.probe('root behind a link', q['root'] == 'link')
        r.probe('missing root', q['root'] in ('srv/www/missing', 'nowhere/www'))
        r.probe('root is a file', q['root'] == 'srv/www/a.txt')
        r.probe('directory', where == 'inside' and os.path.isdir('/' + '/'.join(s)) if '\x00' not in name else False)
        r.probe('pipe', s[-1:] == ['pipe'] and where == 'inside')
        r.probe('encoded dots', '%2e' in name or '\uff0e' in name)
        r.probe('NUL', '\x00' in name)
        r.probe('name from the URL', url)
        r.probe('HEAD', q['method'] == 'HEAD')
        r.probe('If-Modified-Since', code == 304)
        r.probe('Range', code == 206)
        r.probe('root itself', where == 'root')
        r.probe('link, then dot-dot', 'ext/../' in name or 'lnk/../' in name)
        r.probe('name longer than the file system allows', any(len(x) > 255 for x in s))
        r.probe('name through a file', 'a.txt/' in name)
        r.probe('unencodable name', any('\ud800' <= c <= '\udfff' for c in name))
        if fired:
            f = {'EACCES': 'denied', 'ENOENT': 'vanished', 'EMFILE': 'cannot open'}[t.fired[-1]]
            r.probe(f)
            r.fault(f)
        roots.add(tuple(rsegs))
        r.note(code, where, there)
        r.states.append((q['style'], q['root'], tuple(sorted({x for x in name.replace('\\', '/').split('/') if x in SEGS[:22]})), where, there, code))

    before = os.getcwd()
    saved = os.environ.get('SIMUP')
    os.environ['SIMUP'] = '..'
    os.access = access
    try:
        os.chdir(os.path.join(base, p['clients'][0][0]['cwd'] if p['clients'][0] else ''))
        if len(p['clients']) == 1:
            for q in p['clients'][0]:
                one(q)
        else:
            with sched.locks():
                s = sched.Sched([lambda c=c: [one(q) for q in c] for c in p['clients']], sched.resolve(p['mode'], [2000, 2000]), 'line', budget=2000000).run()
            for e in s.errors:
                if e:
                    raise e
            r.simtime += s.total
            r.fault('preemption', len(s.switches))
            r.probe('two threads')
    finally:
        _watch.clear()
        os.access = real_access
        os.chdir(before)
        del os.environ['SIMUP']
        if saved is not None:
            os.environ['SIMUP'] = saved
    r.probe('two roots in one run', len(roots) > 1)


def isfile(segs):
    try:
        return os.path.isfile('/' + '/'.join(segs))
    except ValueError:
        return False


def content(segs):
    with open('/' + '/'.join(segs), 'rb') as f:
        return f.read()
