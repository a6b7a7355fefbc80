"""mkseed.py ID: (re)build /verif/seeded/ID from /tmp/seedsrc/ID.py and confirm it in a scratch copy.

The source file defines PROP, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO = python source."""
import json, os, runpy, shutil, subprocess, sys, tempfile

PY = '/opt/venv/bin/python'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main(src):
    d = runpy.run_path(src)
    sid = os.path.basename(src)[:-3]
    out = os.path.join(VERIF, 'seeded', sid)
    work = tempfile.mkdtemp(prefix='seed-')
    try:
        sh(['git', 'clone', '-q', '/repo', work + '/r'], '/')
        r = work + '/r'
        for f, old, new in d['EDITS']:
            p = os.path.join(r, f)
            s = open(p).read()
            if s.count(old) != 1:
                print('EDIT does not apply exactly once:', f, s.count(old), repr(old))
                return 1
            open(p, 'w').write(s.replace(old, new))
        patch = subprocess.run(['git', 'diff'], cwd=r, stdout=subprocess.PIPE, text=True).stdout
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(patch)
        open(out + '/demo.py', 'w').write('import sys, os\nsys.path.insert(0, os.getcwd())\nsys.dont_write_bytecode = True\n' + d['DEMO'].lstrip('\n'))
        open(out + '/demo.sh', 'w').write('#!/bin/sh\nPY=/opt/venv/bin/python\n[ -x "$PY" ] || PY=python3\nexec "$PY" "$(dirname "$0")/demo.py"\n')
        os.chmod(out + '/demo.sh', 0o755)
        json.dump(dict(property=d['PROP'], needs=d['NEEDS'], what_it_breaks=d['BREAKS']), open(out + '/meta.json', 'w'), indent=1)
        t = sh([PY, '-B', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'tests'], r)
        a = sh(['timeout', '120', out + '/demo.sh'], r)
        sh(['git', 'checkout', '-q', '.'], r)
        b = sh(['timeout', '120', out + '/demo.sh'], r)
        print('%s: tests: %s | demo with patch: %s | without: %s' % (sid, t.stdout.splitlines()[-1], a.returncode, b.returncode))
        if b.returncode or not a.returncode:
            print(a.stdout[-1500:], '-----', b.stdout[-1500:])
        # is a line of the original repository changed?
        base = subprocess.run(['git', 'rev-list', '--max-parents=0', 'HEAD'], cwd=r, stdout=subprocess.PIPE, text=True).stdout.strip()
        removed = [l[1:] for l in patch.splitlines() if l.startswith('-') and not l.startswith('---')]
        orig = ''
        for f, _, _ in d['EDITS']:
            orig += sh(['git', 'show', base + ':' + f], r).stdout
        print('   original lines changed: %d of %d' % (sum(1 for l in removed if l.strip() and l in orig.splitlines()), len(removed)))
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    for s in sys.argv[1:]:
        main(s)
