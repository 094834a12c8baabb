"""Linear-inequality abstract domain: decides whether a path condition is infeasible because of its arithmetic part.
Atoms of the condition that are not arithmetic are left free."""
from fractions import Fraction
import mirval as V
from mirval import *
from bdd import *
import bdd as B

def atoms_of(cube):
    """-> list of (const, {term: coef}) meaning const + sum <= 0"""
    ineq = []; known = {}
    for v, val in cube.items():
        k = ATOMS[v]
        if k[0] == 'bit':
            one, msk = known.get(k[1], (0, 0))
            known[k[1]] = (one | (val << k[2]), msk | (1 << k[2]))
        elif k[0] == 'b':
            t = k[1]
            if t.op == 'le0':
                c, m = V.lin_of(t.a[0])
                if val: ineq.append((c, dict(m)))
                else: ineq.append((1 - c, {x: -y for x, y in m.items()}))       # not(e <= 0) <=> 1 - e <= 0
            elif t.op in ('eq0', 'eq') and val and len(t.a) and isinstance(t.a[0], Term):
                if t.op == 'eq0': c, m = V.lin_of(t.a[0])
                elif t.a[0].op in V.INTISH or t.a[1].op in V.INTISH: c, m = V.lin_of(V.sub(t.a[0], t.a[1]))
                else: continue
                ineq.append((c, dict(m))); ineq.append((-c, {x: -y for x, y in m.items()}))
    for t, (one, msk) in known.items():
        w = width(t)
        lo, hi = one, one | (((1 << w) - 1) & ~msk)
        if t.op == 'discr': continue
        ineq.append((lo, {t: -1})); ineq.append((-hi, {t: 1}))
    return ineq

def bounds(t):
    out = [(0, {t: -1})]
    ub = V.ubound(t)
    out.append((-ub, {t: 1}))
    if t.op == 'idx':
        c, m = V.lin_of(V.sub(V.add(t, V.I(1)), V.length(t.a[0]))); out.append((c, dict(m)))
    if t.op == 'len' and t.a[0].op == 'elem' and t.a[0].a[0].op == 'chunks' and len(t.a[0].a[0].a) == 2:
        c, m = V.lin_of(V.sub(t, t.a[0].a[0].a[1])); out.append((c, dict(m))); out.append((1, {t: -1}))
    return out

def infeasible(ineq, facts=None, lim=3000):
    """Fourier-Motzkin over the rationals"""
    terms = set()
    for _, m in ineq: terms |= set(m)
    sys_ = list(ineq)
    todo = list(terms); done = set()
    while todo:
        t = todo.pop()
        if t in done: continue
        done.add(t)
        sys_ += bounds(t)
        if facts:
            for c, m in facts(t):
                sys_.append((c, dict(m)))
                for x in m:
                    if x not in done: todo.append(x)
    S = set()
    for c, m in sys_:
        m = {k: v for k, v in m.items() if v}
        if not m:
            if c > 0: return True
            continue
        S.add((c, tuple(sorted(((k.id, k, v) for k, v in m.items()), key=lambda z: z[0]))))
    S = [(c, {k: v for _, k, v in m}) for c, m in S]
    while True:
        vs = {}
        for c, m in S:
            for k, v in m.items():
                a = vs.setdefault(k, [0, 0]); a[v > 0] += 1
        if not vs: return any(c > 0 for c, m in S)
        k = min(vs, key=lambda x: (vs[x][0] * vs[x][1] - sum(vs[x]), x.id))
        P = [(c, m) for c, m in S if m.get(k, 0) > 0]; N = [(c, m) for c, m in S if m.get(k, 0) < 0]
        R = [(c, m) for c, m in S if k not in m]
        new = {}
        for c, m in R: new[(tuple(sorted((x.id, v) for x, v in m.items())))] = (c, m) if (tuple(sorted((x.id, v) for x, v in m.items()))) not in new or new[(tuple(sorted((x.id, v) for x, v in m.items())))][0] < c else new[(tuple(sorted((x.id, v) for x, v in m.items())))]
        for c1, m1 in P:
            for c2, m2 in N:
                a, b = Fraction(1, m1[k]), Fraction(1, -m2[k])
                m = {}
                for x, v in m1.items():
                    if x is not k: m[x] = m.get(x, 0) + v * a
                for x, v in m2.items():
                    if x is not k: m[x] = m.get(x, 0) + v * b
                m = {x: v for x, v in m.items() if v}
                c = c1 * a + c2 * b
                if not m:
                    if c > 0: return True
                    continue
                # normalise so that equal directions merge
                s = abs(next(iter(sorted(m.items(), key=lambda z: z[0].id)))[1])
                m = {x: v / s for x, v in m.items()}; c = c / s
                key = tuple(sorted((x.id, v) for x, v in m.items()))
                if key not in new or new[key][0] < c: new[key] = (c, m)
        S = list(new.values())
        if len(S) > lim: return False

def box(f, facts, limit=200):
    """False if every choice of the arithmetic atoms is refuted by the ranges of the bit-level terms"""
    arith = [v for v in B.support(f) if ATOMS[v][0] == 'b' and ATOMS[v][1].op in ('le0', 'eq0', 'eq')]
    n = [0]
    def go(g, i, cube):
        if g == 0: return False
        n[0] += 1
        if n[0] > limit: return True
        if i < len(arith):
            v = arith[i]
            for x in (0, 1):
                cube[v] = x
                if go(B.restrict(g, v, x), i + 1, cube): return True
            del cube[v]
            return False
        ineq = atoms_of(cube)
        terms = {}
        for v in B.support(g):
            k = ATOMS[v]
            if k[0] == 'bit' and k[1].op != 'discr': terms.setdefault(k[1], []).append((k[2], v))
        for t, bs in terms.items():
            bs.sort(reverse=True); have = {b for b, _ in bs}
            lo = 0; h = g
            for b, v in bs:
                z = B.restrict(h, v, 0)
                if z: h = z
                else: h = B.restrict(h, v, 1); lo |= 1 << b
            hi = (1 << width(t)) - 1; h = g
            for b, v in bs:
                z = B.restrict(h, v, 1)
                if z: h = z
                else: h = B.restrict(h, v, 0); hi &= ~(1 << b)
            ineq.append((lo, {t: -1})); ineq.append((-hi, {t: 1}))
        return not infeasible(ineq, facts)
    return go(f, 0, {})
def feasible(cond, facts=None, care=1, limit=600):
    """None if the condition is arithmetically impossible; otherwise one cube that is not refuted"""
    f = AND(cond, care)
    f = AND(f, V.valid(f))
    if f == 0: return None
    if not box(f, facts): return None
    cubes = B.paths(f, limit)
    for cb in cubes:
        if not infeasible(atoms_of(cb), facts): return cb
    return None if len(cubes) < limit else {}
def show_cube(cb): return V.showc(ANDS(*[var(v) if x else NOT(var(v)) for v, x in cb.items()]), lim=1)
