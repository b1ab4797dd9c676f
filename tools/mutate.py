#!/usr/bin/env python3-vt
"""Mutation campaign: token and statement mutants of the sources, each run against the checks that execute the function.

mutate.py list FILE            number of mutants per function
mutate.py run FILE... [-n N] [-s SEED] [-j JOBS] [-o LOG] [-f FUNC]
FILE relative to hyvr/ in /repo.  Scratch copies only; /repo is not touched.
"""
import argparse, io, json, os, random, re, shutil, subprocess, sys, tempfile, tokenize, time
from concurrent.futures import ThreadPoolExecutor, as_completed
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
EV = os.environ.get('EV') or HERE + '/evidence'
SWAP = {'<': ['<=', '>'], '<=': ['<', '>='], '>': ['>=', '<'], '>=': ['>', '<='], '==': ['!='], '!=': ['=='],
        '+': ['-'], '-': ['+'], '*': ['/'], '/': ['*'], '//': ['/'], '**': ['*'], '+=': ['-='], '-=': ['+='],
        '*=': ['/='], '/=': ['*=']}
NAMES = {'and': ['or'], 'or': ['and'], 'True': ['False'], 'False': ['True'], 'min': ['max'], 'max': ['min'],
         'minimum': ['maximum'], 'maximum': ['minimum'], 'sin': ['cos'], 'cos': ['sin'], 'floor': ['ceil'],
         'ceil': ['floor'], 'continue': ['break'], 'break': ['continue'], 'not': [''], 'is': [], 'None': []}
PAIRS = [('lx', 'ly'), ('nx', 'ny'), ('dx', 'dy'), ('x0', 'y0'), ('azim', 'dip'), ('zmin', 'zmax'), ('xmin', 'xmax'),
         ('ymin', 'ymax'), ('top', 'bottom'), ('i', 'j'), ('j', 'k'), ('dz', 'dx'), ('nz', 'nx'), ('lz', 'lx'),
         ('width', 'length'), ('depth', 'width'), ('mean', 'min'), ('a', 'b'), ('x', 'y'), ('y', 'z')]
PM = {}
for p, q in PAIRS:
    PM.setdefault(p, []).append(q)
    PM.setdefault(q, []).append(p)


def func_lines(src):
    """line -> qualified function name (by indentation; works for Cython too)"""
    stack, res = [], {}
    for no, l in enumerate(src.splitlines(), 1):
        s = l.strip()
        ind = len(l) - len(l.lstrip())
        if s and not s.startswith('#'):
            m = re.match(r'(?:cdef |cpdef )?(class|def)\s+(\w+)', s) or re.match(r'(cpdef|cdef)\s+[\w \[\]:,]*?(\w+)\s*\(.*:\s*$', s)
            while stack and stack[-1][0] >= ind and (m or s[0] not in ')]}"\''):
                stack.pop()
            if m:
                stack.append((ind, m.group(2), m.group(1)))
        res[no] = '.'.join(x[1] for x in stack)
    return res


def mutants(path):
    raw = open(path, newline='').read()
    src = raw.replace('\r\n', '\n')
    lines = src.split('\n')
    fl = func_lines(src)
    res = []

    def add(no, a, b, new, kind):
        l = lines[no - 1]
        res.append((no, fl.get(no, ''), kind, l[:a] + new + l[b:]))
    try:
        toks = list(tokenize.generate_tokens(io.StringIO(src).readline))
    except Exception as e:
        print('tokenize', path, e)
        return [], raw
    first = None
    stmt_start = True
    skip_stmt = False
    for n, t in enumerate(toks):
        if t.type in (tokenize.NEWLINE, tokenize.NL, tokenize.INDENT, tokenize.DEDENT, tokenize.COMMENT, tokenize.ENCODING):
            if t.type == tokenize.NEWLINE:
                stmt_start = True
            continue
        if stmt_start:
            stmt_start = False
            skip_stmt = t.string in ('import', 'from', 'cimport', 'def', 'class', 'print', 'cdef', 'cpdef', 'raise', 'warnings', '@') or t.type == tokenize.STRING
            if t.string in ('cdef',) and '=' in lines[t.start[0]-1]:
                skip_stmt = False
            # statement deletion (single line)
            e = next((x for x in toks[n:] if x.type == tokenize.NEWLINE), None)
            if not skip_stmt and e and e.start[0] == t.start[0] and t.string not in (
                    'if', 'for', 'while', 'else', 'elif', 'try', 'except', 'with', 'pass', 'return', 'finally', 'cdef') and fl.get(t.start[0]):
                add(t.start[0], t.start[1], e.start[1], 'pass', 'delete')
        if skip_stmt:
            continue
        no, a = t.start
        b = t.end[1]
        if t.start[0] != t.end[0]:
            continue
        if t.type == tokenize.OP and t.string in SWAP:
            nxt, prv = toks[n + 1], toks[n - 1]
            if t.string in '*' and (prv.string in '(,' or nxt.string in ',)'):
                continue
            if t.string == '**' and prv.string in '(,':
                continue
            if t.string == '-' and (prv.type == tokenize.OP and prv.string not in ')]' or prv.string == 'return'):
                add(no, a, b, '', 'unary')
                continue
            if t.string in '<>' and (prv.string == '<' or re.match(r'<\s*(int|double|long|float)', lines[no-1][a:]) or re.search(r'<\s*(int|double|long|float)\s*$', lines[no-1][:a])):
                continue
            for s in SWAP[t.string]:
                add(no, a, b, s, 'op ' + t.string + ' ' + s)
        elif t.type == tokenize.NAME and t.string in NAMES:
            for s in NAMES[t.string]:
                add(no, a, b, s, 'name ' + t.string + ' ' + s)
        elif t.type == tokenize.NAME:
            parts = t.string.split('_')
            for k, p in enumerate(parts):
                for q in PM.get(p, []):
                    new = '_'.join(parts[:k] + [q] + parts[k + 1:])
                    # only if that identifier exists in the file
                    if new != t.string and re.search(r'\b%s\b' % re.escape(new), src):
                        add(no, a, b, new, 'id ' + t.string + ' ' + new)
        elif t.type == tokenize.NUMBER:
            try:
                v = int(t.string)
                add(no, a, b, str(v + 1), 'num')
                if v > 0:
                    add(no, a, b, str(v - 1), 'num')
            except ValueError:
                try:
                    add(no, a, b, repr(float(t.string) * 2 + (0.5 if float(t.string) == 0 else 0)), 'num')
                except ValueError:
                    pass
        elif t.type == tokenize.NAME and False:
            pass
        if t.type == tokenize.NAME and t.string in ('if', 'while') and n and toks[n-1].type in (tokenize.NEWLINE, tokenize.NL, tokenize.INDENT, tokenize.DEDENT, tokenize.COMMENT):
            l = lines[no - 1]
            if l.rstrip().endswith(':'):
                c = l[b:].rstrip()[:-1].strip()
                res.append((no, fl.get(no, ''), 'negate', l[:b] + ' not (' + c + '):'))
    return [m for m in res if m[1]], raw


def props_for():
    d, cost = {}, {}
    for f in os.listdir(EV):
        if re.match(r'C\d\d\.json$', f):
            e = json.load(open(EV + '/' + f))
            cost[f[:-5]] = e['wall_s']
            for x in e['coverage']['functions_encoded']:
                d.setdefault(x, set()).add(f[:-5])
    return d, cost


def run_one(job):
    path, m, raw, props = job
    no, fn, kind, new = m
    d = tempfile.mkdtemp(prefix='mutn', dir='/tmp')
    out = []
    verdict = 'SURVIVED'
    try:
        shutil.copytree(REPO + '/hyvr', d + '/hyvr', ignore=shutil.ignore_patterns('*.so', '*.c', '*.cpp', '__pycache__'))
        crlf = '\r\n' in raw
        ls = raw.replace('\r\n', '\n').split('\n')
        ls[no - 1] = new
        t = '\n'.join(ls)
        with open(d + '/hyvr/' + path, 'w', newline='') as f:
            f.write(t.replace('\n', '\r\n') if crlf else t)
        if path.endswith('.py'):
            try:
                compile(t, path, 'exec')
            except SyntaxError:
                return (path, m, 'syntax', [])
        ev = tempfile.mkdtemp(prefix='mute', dir='/tmp')
        for p in props:
            env = dict(os.environ, HYVR_REPO=d, SYMX_EVIDENCE=ev)
            t0 = time.time()
            try:
                r = subprocess.run(['python3-vt', HERE + '/check.py', p, '--jobs', '1'], capture_output=True, text=True,
                                   env=env, timeout=300, cwd=HERE)
                rc, o = r.returncode, r.stdout
            except subprocess.TimeoutExpired:
                subprocess.run(['pkill', '-f', d])
                rc, o = 'timeout', ''
            out.append((p, rc, 'INCONCLUSIVE' in o, round(time.time() - t0, 1)))
            if rc == 1:
                verdict = 'killed'
                break
            if rc == 0 and 'INCONCLUSIVE' in o or rc not in (0, 1):
                verdict = 'inconclusive'
                out[-1] = out[-1] + ([l for l in o.splitlines() if 'INCONCL' in l][:2],)
        shutil.rmtree(ev)
    finally:
        shutil.rmtree(d)
    return (path, m, verdict, out)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('cmd')
    ap.add_argument('files', nargs='+')
    ap.add_argument('-n', type=int, default=0)
    ap.add_argument('-s', type=int, default=1)
    ap.add_argument('-j', type=int, default=8)
    ap.add_argument('-o', default='/tmp/mutants.log')
    ap.add_argument('-f', default='')
    ap.add_argument('-x', default='', help='properties to leave out')
    ap.add_argument('--max', type=float, default=1e9, help='leave out checks slower than this')
    a = ap.parse_args()
    by, cost = props_for()
    jobs = []
    for path in a.files:
        ms, raw = mutants(REPO + '/hyvr/' + path)
        if a.f:
            ms = [m for m in ms if re.search(a.f, m[1])]
        random.Random(a.s).shuffle(ms)
        if a.cmd == 'list':
            from collections import Counter
            for k, v in sorted(Counter(m[1] for m in ms).items()):
                print(path, k, v, sorted(by.get('hyvr/%s:%s' % (path, k), [])))
            continue
        for m in ms[:a.n or None]:
            ps = by.get('hyvr/%s:%s' % (path, m[1]), set())
            if path.endswith('.pyx') and '.' not in m[1]:
                ps = set().union(*[v for k, v in by.items() if k.startswith('hyvr/%s:%s.' % (path, m[1]))])
            ps = ps - set(a.x.split(','))
            jobs.append((path, m, raw, [p for p in sorted(ps, key=lambda p: cost[p]) if cost[p] <= a.max]))
    if a.cmd == 'list':
        return
    from collections import Counter
    c = Counter()
    with ThreadPoolExecutor(a.j) as ex, open(a.o, 'a') as log:
        for fut in as_completed([ex.submit(run_one, j) for j in jobs]):
            path, m, v, out = fut.result()
            c[v] += 1
            orig = open(REPO + '/hyvr/' + path).read().split('\n')[m[0] - 1]
            log.write('%s %s:%d %s [%s]\n   - %s\n   + %s\n   %s\n' % (v, path, m[0], m[1], m[2], orig.strip(), m[3].strip(), out))
            log.flush()
    print(dict(c))


if __name__ == '__main__':
    main()
