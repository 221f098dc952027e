#!/usr/bin/env python3
"""mkseed.py DEFS.py [id ...] -- confirm planted changes in a scratch copy of /repo and keep
them under /verif/seeded.  DEFS defines BUGS = [dict(id, property, file, edits=[(old,new)],
demo=<python text>, needs, breaks)].  A kept change applies, builds, passes the tests, and its
demonstration passes without it and fails with it."""
import json, os, runpy, shutil, subprocess, sys, tempfile
OUT = '/verif/seeded'
TOOLKIT = '/verif/falsify/biff.py'


def sh(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)


def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    want = set(sys.argv[2:])
    for b in bugs:
        if want and b['id'] not in want:
            continue
        if not want and os.path.exists(os.path.join(OUT, b['id'], 'patch.diff')):
            continue
        work = tempfile.mkdtemp(prefix='seed', dir='/tmp')
        repo = work + '/repo'
        try:
            sh(['cp', '-a', '/repo', repo], '/')
            sh(['git', 'checkout', '-q', '--', '.'], repo)
            demo = work + '/demo'
            os.mkdir(demo)
            open(demo + '/demo.py', 'w').write(b['demo'])
            shutil.copy(TOOLKIT, demo + '/biff.py')
            open(demo + '/demo.sh', 'w').write(
                '#!/bin/sh\n# run with cwd at the repository\n'
                'HERE=$(cd "$(dirname "$0")" && pwd)\n'
                'PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD:$HERE" exec python3 "$HERE/demo.py"\n')
            r0 = sh(['sh', demo + '/demo.sh'], repo)
            for f, old, new in [(b['file'],) + e if len(e) == 2 else e for e in b['edits']]:
                p = os.path.join(repo, f)
                s = open(p, encoding='utf-8').read()
                if s.count(old) != 1:
                    print(b['id'], 'BAD EDIT: %d matches of %r' % (s.count(old), old[:60]))
                    break
                open(p, 'w', encoding='utf-8').write(s.replace(old, new))
            else:
                r1 = sh(['sh', demo + '/demo.sh'], repo)
                t = sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'tests'], repo)
                ok = r0.returncode == 0 and r1.returncode != 0 and t.returncode == 0
                print(b['id'], 'OK' if ok else 'REJECTED', 'clean=%d patched=%d tests=%d' % (r0.returncode, r1.returncode, t.returncode))
                if not ok:
                    print(r0.stdout[-800:], '\n--', r1.stdout[-800:], '\n--', t.stdout[-600:] if t.returncode else '')
                if ok:
                    d = os.path.join(OUT, b['id'])
                    os.makedirs(d, exist_ok=True)
                    diff = sh(['git', 'diff'], repo).stdout
                    open(d + '/patch.diff', 'w').write(diff)
                    for f in ('demo.py', 'demo.sh', 'biff.py'):
                        shutil.copy(demo + '/' + f, d)
                    os.chmod(d + '/demo.sh', 0o755)
                    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                              open(d + '/meta.json', 'w'), indent=1)
        finally:
            shutil.rmtree(work)


main()
