"""Reduced ordered binary decision diagrams over integer variables (0 = false, 1 = true).
Canonical form of path conditions: two conditions are equal iff their node numbers are."""
import sys
sys.setrecursionlimit(100000)
_uniq = {}
_node = [None, None]          # id -> (var, lo, hi)
_memo = {}

def mk(v, lo, hi):
    if lo == hi: return lo
    k = (v, lo, hi)
    r = _uniq.get(k)
    if r is None:
        r = len(_node); _node.append(k); _uniq[k] = r
    return r

def var(v): return mk(v, 0, 1)

def NOT(f):
    if f < 2: return 1 - f
    k = ('n', f)
    r = _memo.get(k)
    if r is None:
        v, lo, hi = _node[f]
        r = _memo[k] = mk(v, NOT(lo), NOT(hi))
        _memo[('n', r)] = f
    return r

def AND(f, g):
    if f == 0 or g == 0: return 0
    if f == 1: return g
    if g == 1 or f == g: return f
    if f > g: f, g = g, f
    k = ('a', f, g)
    r = _memo.get(k)
    if r is None:
        vf, f0, f1 = _node[f]; vg, g0, g1 = _node[g]
        v = vf if vf < vg else vg
        if vf != v: f0 = f1 = f
        if vg != v: g0 = g1 = g
        r = _memo[k] = mk(v, AND(f0, g0), AND(f1, g1))
    return r

def OR(f, g): return NOT(AND(NOT(f), NOT(g)))
def XOR(f, g): return OR(AND(f, NOT(g)), AND(NOT(f), g))
def ITE(c, a, b): return OR(AND(c, a), AND(NOT(c), b))
def IMP(f, g): return AND(f, NOT(g)) == 0
def ANDS(*fs):
    r = 1
    for f in fs: r = AND(r, f)
    return r
def ORS(*fs):
    r = 0
    for f in fs: r = OR(r, f)
    return r

def constrain(f, c):
    """generalised cofactor of f by the care set c (Coudert/Madre restrict)"""
    if c == 1 or f < 2: return f
    if c == 0: return 0
    if f == c: return 1
    k = ('c', f, c)
    r = _memo.get(k)
    if r is None:
        vf, f0, f1 = _node[f]; vc, c0, c1 = _node[c]
        if vc < vf:
            r = constrain(f, OR(c0, c1))
        elif c0 == 0 and vc == vf: r = constrain(f1, c1)
        elif c1 == 0 and vc == vf: r = constrain(f0, c0)
        elif vc == vf: r = mk(vf, constrain(f0, c0), constrain(f1, c1))
        else: r = mk(vf, constrain(f0, c), constrain(f1, c))
        _memo[k] = r
    return r

def restrict(f, v, val):
    if f < 2: return f
    k = ('r', f, v, val)
    r = _memo.get(k)
    if r is None:
        vf, f0, f1 = _node[f]
        if vf > v: r = f
        elif vf == v: r = f1 if val else f0
        else: r = mk(vf, restrict(f0, v, val), restrict(f1, v, val))
        _memo[k] = r
    return r

def exists(f, vs):
    for v in vs: f = OR(restrict(f, v, 0), restrict(f, v, 1))
    return f

def support(f, acc=None, seen=None):
    if acc is None: acc, seen = set(), set()
    st = [f]
    while st:
        n = st.pop()
        if n < 2 or n in seen: continue
        seen.add(n); v, lo, hi = _node[n]; acc.add(v); st += [lo, hi]
    return acc

def compose(f, sub):
    """simultaneously replace variables by functions: sub: var -> bdd"""
    memo = {}
    def go(n):
        if n < 2: return n
        r = memo.get(n)
        if r is None:
            v, lo, hi = _node[n]
            r = memo[n] = ITE(sub.get(v, var(v)), go(hi), go(lo))
        return r
    return go(f)

def paths(f, limit=64):
    """cubes of f: list of dict var->0/1"""
    out = []
    def go(n, cur):
        if len(out) >= limit or n == 0: return
        if n == 1: out.append(dict(cur)); return
        v, lo, hi = _node[n]
        cur[v] = 0; go(lo, cur); cur[v] = 1; go(hi, cur); del cur[v]
    go(f, {})
    return out
