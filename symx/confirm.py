"""Replay of solver models against the real code, in the interpreter the program runs in."""
import json
import os
import subprocess
import tempfile

import z3

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else 'python3'


def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))


def run_replay(spec, timeout=60):
    """spec: {'property','case','inputs'} or a list of them; returns the parsed result"""
    fd, path = tempfile.mkstemp(suffix='.json', prefix='replay_')
    try:
        with os.fdopen(fd, 'w') as f:
            json.dump(spec, f)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg')
        env.pop('PYTHONPATH', None)
        p = subprocess.run([PY, os.path.join(HERE, 'replay.py'), '--json', path], capture_output=True,
                           text=True, timeout=timeout, env=env, cwd=HERE, preexec_fn=limits)
        for line in reversed(p.stdout.splitlines()):
            if line.startswith('RESULT '):
                return json.loads(line[7:])
        return [{'error': 'no result: ' + p.stderr[-800:]}]
    except subprocess.TimeoutExpired:
        return [{'error': 'timeout'}]
    finally:
        os.unlink(path)


def candidate(prop, case, env, ctx, obl, neg, model, res, tries=5):
    """Try to reproduce a solver counterexample; returns the violation record or None."""
    from . import symenv
    block = []
    first = None
    seen = res.setdefault('not_reproduced', {})
    if seen.get(obl.label, 0) >= 4:
        return None
    for k in range(tries):
        try:
            m = symenv.polish(env, ctx, neg + block, model) if k != 1 else model
            inp = symenv.assignment(env, ctx, m)
        except z3.Z3Exception:
            inp = symenv.assignment(env, ctx, model)
        spec = {'property': prop, 'case': case['name'], 'inputs': inp, 'label': obl.label}
        r = run_replay([spec])[0]
        if first is None:
            first = (inp, r)
        bad = r.get('failed') or []
        if r.get('error') and not bad:
            break
        if obl.label in bad:
            return {'label': obl.label, 'failed': bad, 'inputs': inp, 'case': case['name'],
                    'detail': r.get('detail')}
        # another model: move some real input away
        reals = [(n, t) for n, kd, t, lo, hi in env.inputs if kd == 'r']
        if not reals:
            break
        n, t = reals[k % len(reals)]
        v = model.eval(t, model_completion=True)
        f = symenv.num_of(v)
        if f is None:
            break
        from . import core
        from fractions import Fraction
        d = core.rv(Fraction(1, 8))
        block = [z3.Or(t <= core.rv(f) - d, t >= core.rv(f) + d)]
        r2, m2 = symenv.solve_fresh(ctx, neg + block, 4000)
        if r2 != z3.sat:
            block = []
            if k >= 1:
                break
            continue
        model = m2
    seen[obl.label] = seen.get(obl.label, 0) + 1
    res['unconfirmed'].append({'label': obl.label, 'inputs': first[0], 'replay': first[1]})
    return None


def hang(prop, case, env, ctx):
    """Does the program not end on this path? (replayed on the real code, which takes a fraction of a second)"""
    from . import symenv
    r, m = symenv.solve_fresh(ctx, [], 5000)
    if r != z3.sat:
        return None
    inp = symenv.assignment(env, ctx, m)
    spec = {'property': prop, 'case': case['name'], 'inputs': inp, 'label': 'terminates'}
    for limit in (20, 60):
        r = run_replay([spec], timeout=limit)[0]
        if r.get('error') != 'timeout' and 'MemoryError' not in str(r.get('error')) + str(r.get('failed')):
            return None
    return {'label': 'terminates', 'failed': ['terminates'], 'inputs': inp, 'case': case['name'],
            'detail': {'terminates': 'no end after %d s' % limit}}


def witnesses(prop, case, ws):
    specs = [{'property': prop, 'case': case['name'], 'inputs': w[0]} for w in ws]
    rs = run_replay(specs)
    out = {'tried': len(ws), 'reached': 0, 'bad': []}
    for w, r in zip(ws, rs):
        if r.get('error') or r.get('failed') or r.get('aborted'):
            out['bad'].append({'inputs': w[0], 'result': {k: str(v)[:300] for k, v in r.items()}})
            continue
        out['reached'] += 1
        for l, v in w[1].items():
            o = r.get('obs', {}).get(l)
            if v is not None and isinstance(o, (int, float)) and \
                    abs(o - v) > 1e-5 * (1 + abs(o) + abs(v)):
                out['bad'].append({'inputs': w[0], 'label': l, 'model': v, 'run': o})
                break
    return out
