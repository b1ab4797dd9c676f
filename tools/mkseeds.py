"""Builds and confirms the planted bugs in /verif/seeded (not used by any check).

usage: mkseeds.py [ID ...]      write patch.diff, demo.sh, demo.py, meta.json and confirm them in a scratch copy
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds import SEEDS, PRE

OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
BASE = 'e1c35a6'


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)


def main():
    want = sys.argv[1:]
    os.makedirs(OUT, exist_ok=True)
    for s in SEEDS:
        if want and s['id'] not in want:
            continue
        d = os.path.join(OUT, s['id'])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        tmp = tempfile.mkdtemp(prefix='seed')
        try:
            wt = os.path.join(tmp, 'repo')
            sh(['git', 'clone', '-q', '/repo', wt], '/')
            for f, old, new in s['edits']:
                p = os.path.join(wt, f)
                b = open(p, newline='').read()
                crlf = '\r\n' in b
                if crlf:
                    old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
                if b.count(old) != 1:
                    print(s['id'], 'NOT UNIQUE', b.count(old), f)
                open(p, 'w', newline='').write(b.replace(old, new))
            open(os.path.join(d, 'patch.diff'), 'w', newline='').write(
                subprocess.run(['git', 'diff'], cwd=wt, capture_output=True).stdout.decode())
            open(os.path.join(d, 'demo.py'), 'w').write(PRE + s['demo'].lstrip('\n'))
            if 'import pyx' in s['demo']:
                shutil.copy(os.path.join(os.path.dirname(OUT), 'symx', 'pyx.py'), d)
            open(os.path.join(d, 'demo.sh'), 'w').write(
                '#!/bin/bash\nexec env PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            os.chmod(os.path.join(d, 'demo.sh'), 0o755)
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                      open(os.path.join(d, 'meta.json'), 'w'), indent=1)
            # changed lines must be lines of the original repository
            mine = []
            for l in sh(['git', 'diff', '-U0'], wt).stdout.splitlines():
                if l.startswith('@@'):
                    a = l.split()[1][1:].split(',')
                    st, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
                    if n:
                        bl = sh(['git', 'blame', '-s', '-L', '%d,%d' % (st, st + n - 1), 'HEAD', '--', cur], wt).stdout
                        for x in bl.splitlines():
                            h = x.split()[0].lstrip('^')
                            if sh(['git', 'merge-base', '--is-ancestor', h, BASE], wt).returncode:
                                mine.append(x)
                elif l.startswith('+++ '):
                    cur = l[6:]
            demo = os.path.join(d, 'demo.sh')
            bad = sh(['bash', demo], wt)
            test = sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 '
                      '--continue-on-collection-errors -p no:randomly 2>&1 | tail -1', wt)
            sh('git checkout -- .', wt)
            good = sh(['bash', demo], wt)
            print(s['id'], 'patched', bad.returncode, 'clean', good.returncode, '|', test.stdout.strip()[-60:],
                  '| OWN LINES' if mine else '')
            if good.returncode:
                print(good.stdout[-800:], good.stderr[-1500:])
            if not bad.returncode:
                print('   NOT SHOWN', bad.stdout[-300:], bad.stderr[-300:])
            for m in mine:
                print('   ', m)
        finally:
            shutil.rmtree(tmp)


main()
