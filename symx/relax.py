"""Refuting a path by real relaxation.

The path condition is rewritten with every integer variable replaced by a real
one (and every operation that has no real counterpart by a fresh real).  Each
model of the original is a model of the rewritten formula, so ``unsat`` carries
over; any other answer is worthless and reported as ``unknown``.
"""
import time
import z3

K = z3


def relax(terms):
    cache = {}
    n = [0]

    def fresh(sort):
        n[0] += 1
        return z3.Bool('rx!b%d' % n[0]) if sort == z3.BoolSort() else z3.Real('rx!r%d' % n[0])

    def conv(t):
        key = t.get_id()
        r = cache.get(key)
        if r is None:
            r = cache[key] = step(t)
            keep.append(t)
        return r
    keep = []

    def step(t):
        k = t.decl().kind()
        if z3.is_int_value(t):
            return z3.RealVal(t.as_long())
        if z3.is_rational_value(t) or z3.is_algebraic_value(t) or z3.is_true(t) or z3.is_false(t):
            return t
        if t.num_args() == 0:
            return z3.Real('rx!' + t.decl().name()) if z3.is_int(t) else t
        if k == z3.Z3_OP_TO_REAL:
            return conv(t.arg(0))
        if k == z3.Z3_OP_TO_INT:
            x, r = conv(t.arg(0)), fresh(z3.RealSort())
            side.append(z3.And(r <= x, x < r + 1))
            return r
        a = [conv(c) for c in t.children()]
        if k == z3.Z3_OP_ADD:
            r = a[0]
            for x in a[1:]:
                r = r + x
            return r
        if k == z3.Z3_OP_SUB:
            r = a[0]
            for x in a[1:]:
                r = r - x
            return r
        if k == z3.Z3_OP_UMINUS:
            return -a[0]
        if k == z3.Z3_OP_MUL:
            r = a[0]
            for x in a[1:]:
                r = r * x
            return r
        if k == z3.Z3_OP_DIV:
            return a[0] / a[1]
        if k == z3.Z3_OP_POWER and z3.is_rational_value(t.arg(1)):
            return a[0] ** a[1]
        if k == z3.Z3_OP_LE:
            return a[0] <= a[1]
        if k == z3.Z3_OP_LT:
            return a[0] < a[1]
        if k == z3.Z3_OP_GE:
            return a[0] >= a[1]
        if k == z3.Z3_OP_GT:
            return a[0] > a[1]
        if k == z3.Z3_OP_EQ:
            return a[0] == a[1]
        if k == z3.Z3_OP_DISTINCT:
            return z3.Distinct(*a)
        if k == z3.Z3_OP_AND:
            return z3.And(*a)
        if k == z3.Z3_OP_OR:
            return z3.Or(*a)
        if k == z3.Z3_OP_NOT:
            return z3.Not(a[0])
        if k == z3.Z3_OP_IMPLIES:
            return z3.Implies(a[0], a[1])
        if k == z3.Z3_OP_XOR:
            return z3.Xor(a[0], a[1])
        if k == z3.Z3_OP_ITE:
            return z3.If(a[0], a[1], a[2])
        return fresh(t.sort())
    side = []
    out = [conv(t) for t in terms]
    return out + side


def refuted(ctx, extra, ms):
    """True if the path condition with ``extra`` has no solution even over the reals"""
    t0 = time.time()
    try:
        s = z3.SolverFor('QF_NRA')
        s.set('timeout', ms)
        for t in relax(list(ctx.pc) + list(extra)):
            s.add(t)
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    ctx.stats.solver_s += time.time() - t0
    ctx.stats.queries += 1
    if r == z3.unsat:
        ctx.stats.unsat += 1
        return True
    ctx.stats.unknown += 1
    return False
